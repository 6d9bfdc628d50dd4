import numpy as np
from .. import backend as K
from ..engine.base import Layer, InputSpec


class _Pooling1D(Layer):
    def __init__(self, pool_size=2, strides=None, padding='valid', **kw):
        super(_Pooling1D, self).__init__(**kw)
        self.pool_size, self.strides, self.padding = pool_size, strides or pool_size, padding
        self.input_spec = InputSpec(ndim=3)

    def _out(self, n):
        return -(-n // self.strides) if self.padding == 'same' else (n - self.pool_size) // self.strides + 1

    def call(self, x):
        n = x.shape[1]
        m = self._out(n)
        p = max((m - 1) * self.strides + self.pool_size - n, 0) // 2 if self.padding == 'same' else 0
        w = [(max(i * self.strides - p, 0), min(i * self.strides - p + self.pool_size, n)) for i in range(m)]
        return K.T(np.stack([self._f(np.asarray(x)[:, a:b], axis=1) for a, b in w], axis=1))

    def compute_output_shape(self, s):
        return s[0], None if s[1] is None else self._out(s[1]), s[2]

    def get_config(self):
        return dict(super(_Pooling1D, self).get_config(), pool_size=self.pool_size, strides=self.strides, padding=self.padding)


class MaxPooling1D(_Pooling1D):
    _f = staticmethod(np.max)


class AveragePooling1D(_Pooling1D):
    _f = staticmethod(np.mean)


class _GlobalPooling1D(Layer):
    def __init__(self, **kw):
        super(_GlobalPooling1D, self).__init__(**kw)
        self.input_spec = InputSpec(ndim=3)

    def compute_output_shape(self, s):
        return s[0], s[2]

    def call(self, x):
        raise NotImplementedError


class GlobalAveragePooling1D(_GlobalPooling1D):
    def call(self, x):
        return K.mean(x, axis=1)


class GlobalMaxPooling1D(_GlobalPooling1D):
    def call(self, x):
        return K.max(x, axis=1)
