import numpy as np
from . import backend as K
from ._objs import factory


class Constraint(object):
    def __call__(self, w):
        return w

    def get_config(self):
        return {}


class NonNeg(Constraint):
    def __call__(self, w):
        return K.T(w * (np.asarray(w) >= 0))


class MaxNorm(Constraint):
    def __init__(self, max_value=2, axis=0):
        self.max_value, self.axis = max_value, axis

    def __call__(self, w):
        n = np.sqrt(np.sum(np.square(w), axis=self.axis, keepdims=True))
        return w * np.clip(n, 0, self.max_value) / (1e-7 + n)

    def get_config(self):
        return dict(max_value=self.max_value, axis=self.axis)


non_neg, max_norm, nonneg = NonNeg, MaxNorm, NonNeg
get, serialize = factory('constraint', [NonNeg, MaxNorm], dict(non_neg=NonNeg, nonneg=NonNeg, max_norm=MaxNorm))
deserialize = get
