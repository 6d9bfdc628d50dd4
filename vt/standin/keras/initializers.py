import numpy as np
from . import backend as K
from ._objs import factory


class Initializer(object):
    def get_config(self):
        return {}


class Zeros(Initializer):
    def __call__(self, shape, dtype=None):
        return np.zeros(shape)


class Ones(Initializer):
    def __call__(self, shape, dtype=None):
        return np.ones(shape)


class Constant(Initializer):
    def __init__(self, value=0):
        self.value = value

    def __call__(self, shape, dtype=None):
        return np.full(shape, self.value, dtype=float)

    def get_config(self):
        return dict(value=self.value)


class Identity(Initializer):
    def __init__(self, gain=1.):
        self.gain = gain

    def __call__(self, shape, dtype=None):
        if len(shape) != 2 or shape[0] != shape[1]:
            raise ValueError('Identity matrix initializer can only be used for 2D square matrices.')
        return self.gain * np.eye(shape[0])

    def get_config(self):
        return dict(gain=self.gain)


class RandomNormal(Initializer):
    def __init__(self, mean=0., stddev=0.05, seed=None):
        self.mean, self.stddev, self.seed = mean, stddev, seed

    def __call__(self, shape, dtype=None):
        return K.rng.normal(self.mean, self.stddev, shape)

    def get_config(self):
        return dict(mean=self.mean, stddev=self.stddev, seed=self.seed)


class TruncatedNormal(RandomNormal):
    def __call__(self, shape, dtype=None):
        return np.clip(K.rng.normal(self.mean, self.stddev, shape), self.mean - 2 * self.stddev, self.mean + 2 * self.stddev)


class GlorotUniform(Initializer):
    def __call__(self, shape, dtype=None):
        rf = int(np.prod(shape[:-2])) if len(shape) > 2 else 1
        n = (shape[-2] + shape[-1]) * rf if len(shape) > 1 else 2 * shape[0]
        return K.rng.uniform(-1, 1, shape) * np.sqrt(6. / n)


zeros, ones, constant = Zeros, Ones, Constant
get, serialize = factory('initializer', [Zeros, Ones, Constant, Identity, RandomNormal, TruncatedNormal, GlorotUniform],
                         dict(zeros=Zeros, ones=Ones, constant=Constant, identity=Identity, normal=RandomNormal, random_normal=RandomNormal,
                              truncated_normal=TruncatedNormal, glorot_uniform=GlorotUniform))
deserialize = get
