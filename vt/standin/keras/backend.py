import os
import numpy as np
from scipy.special import expit

_floatx = ['float32']
_epsilon = 1e-7
rng = np.random.RandomState(0)


class Tensor(np.ndarray):
    """an array that takes lists of slices as indexes and is true only as a scalar"""
    def __new__(cls, a):
        return np.asarray(a).view(cls)

    def __getitem__(self, i):
        return super(Tensor, self).__getitem__(tuple(i) if isinstance(i, list) else i)

    def set(self, v):
        self[...] = v


def T(a):
    return np.asarray(a).view(Tensor)


def backend():
    return os.environ.get('KERAS_BACKEND', 'theano')


def floatx():
    return _floatx[0]


def set_floatx(t):
    _floatx[0] = t


def epsilon():
    return _epsilon


def learning_phase():
    return 0


def cast(x, dtype):
    return T(np.asarray(x).astype(dtype))


def cast_to_floatx(x):
    return np.asarray(x, dtype=floatx())


def variable(value, dtype=None, name=None, constraint=None):
    return T(np.array(value, dtype=dtype or floatx()))


def get_value(x):
    return np.array(x)


def set_value(x, value):
    x[...] = value


def shape(x):
    return tuple(np.shape(x))


def int_shape(x):
    return getattr(x, '_keras_shape', None) or tuple(np.shape(x))


def ndim(x):
    return len(int_shape(x))


def _red(f):
    def g(x, axis=None, keepdims=False):
        if isinstance(axis, list):
            axis = tuple(axis)
        return T(f(x, axis=axis, keepdims=keepdims))
    return g


sum, mean, max, min, any, all, prod, std, var = [_red(f) for f in (np.sum, np.mean, np.max, np.min, np.any, np.all, np.prod, np.std, np.var)]


def argmax(x, axis=-1):
    return T(np.argmax(x, axis))


def _el(f):
    return lambda x: T(f(x))


exp, log, sqrt, abs, square, tanh, sign, round = [_el(f) for f in (np.exp, np.log, lambda x: np.sqrt(np.maximum(x, 0)), np.abs, np.square, np.tanh,
                                                                np.sign, np.round)]
sigmoid = _el(expit)
softplus = _el(lambda x: np.logaddexp(0, x))


def relu(x, alpha=0., max_value=None):
    y = np.where(x > 0, x, alpha * x)
    return T(y if max_value is None else np.minimum(y, max_value))


def elu(x, alpha=1.):
    return T(np.where(x > 0, x, alpha * np.expm1(np.minimum(x, 0))))


def softmax(x, axis=-1):
    e = np.exp(x - np.max(x, axis=axis, keepdims=True))
    return T(e / np.sum(e, axis=axis, keepdims=True))


def clip(x, min_value, max_value):
    if max_value is not None and min_value is not None and np.ndim(max_value) == 0 and max_value < min_value:
        max_value = min_value
    return T(np.clip(x, min_value, max_value))


def maximum(x, y):
    return T(np.maximum(x, y))


def minimum(x, y):
    return T(np.minimum(x, y))


def pow(x, a):
    return T(np.power(x, a))


def equal(x, y):
    return T(np.equal(x, y))


def not_equal(x, y):
    return T(np.not_equal(x, y))


def greater(x, y):
    return T(np.greater(x, y))


def less(x, y):
    return T(np.less(x, y))


def switch(c, a, b):
    return T(np.where(c, a, b))


def dot(x, y):
    if np.ndim(y) > 2:
        return T(np.tensordot(x, y, axes=[[np.ndim(x) - 1], [np.ndim(y) - 2]]))
    return T(np.dot(x, y))


def batch_dot(x, y, axes=None):
    x, y = np.asarray(x), np.asarray(y)
    if isinstance(axes, int):
        axes = (axes, axes)
    if axes is None:
        axes = (x.ndim - 1, y.ndim - 2)
    if x.shape[0] != y.shape[0]:
        raise ValueError('batch_dot: batches of %d and %d' % (x.shape[0], y.shape[0]))
    a = np.stack([np.tensordot(u, v, axes=[[axes[0] - 1], [axes[1] - 1]]) for u, v in zip(x, y)]) if len(x) else np.zeros((0, 1))
    return T(a[:, None] if a.ndim == 1 else a)


def transpose(x):
    return T(np.transpose(x))


def permute_dimensions(x, p):
    return T(np.transpose(x, p))


def reshape(x, s):
    return T(np.reshape(x, tuple(int(i) for i in s)))


def expand_dims(x, axis=-1):
    return T(np.expand_dims(x, axis))


def squeeze(x, axis):
    return T(np.squeeze(x, axis))


def repeat_elements(x, rep, axis):
    return T(np.repeat(x, rep, axis=axis))


def repeat(x, n):
    return T(np.repeat(np.expand_dims(x, 1), n, axis=1))


def tile(x, n):
    n = (n,) if isinstance(n, int) else tuple(n)
    if len(n) > np.ndim(x):
        raise ValueError('tile: more multiples than dimensions')
    return T(np.tile(x, n))


def concatenate(xs, axis=-1):
    return T(np.concatenate([np.asarray(x) for x in xs], axis=axis))


def stack(xs, axis=0):
    return T(np.stack([np.asarray(x) for x in xs], axis=axis))


def flatten(x):
    return T(np.reshape(x, -1))


def batch_flatten(x):
    return T(np.reshape(x, (np.shape(x)[0], -1)))


def bias_add(x, b, data_format=None):
    if np.ndim(b) not in (1, np.ndim(x) - 1):
        raise ValueError('bias_add: unexpected number of dimensions')
    return T(x + b)


def eye(n, dtype=None, name=None):
    return T(np.eye(n, dtype=dtype or floatx()))


def zeros(shape, dtype=None, name=None):
    return T(np.zeros(shape, dtype=dtype or floatx()))


def ones(shape, dtype=None, name=None):
    return T(np.ones(shape, dtype=dtype or floatx()))


def zeros_like(x, dtype=None):
    return T(np.zeros_like(x, dtype=dtype))


def ones_like(x, dtype=None):
    return T(np.ones_like(x, dtype=dtype))


def constant(v, dtype=None, shape=None, name=None):
    return T(np.full(shape if shape is not None else np.shape(v), v, dtype=dtype or floatx()))


def map_fn(f, xs, name=None, dtype=None):
    return T(np.stack([np.asarray(f(x)) for x in T(xs)]))


def random_normal(shape, mean=0., stddev=1., dtype=None, seed=None):
    return T(mean + stddev * rng.standard_normal(tuple(int(i) for i in shape)))


def random_uniform(shape, minval=0., maxval=1., dtype=None, seed=None):
    return T(rng.uniform(minval, maxval, tuple(int(i) for i in shape)))


def binary_crossentropy(target, output, from_logits=False):
    o = np.asarray(output)
    if from_logits:
        o = expit(o)
    o = np.clip(o, _epsilon, 1 - _epsilon)
    return T(-target * np.log(o) - (1 - target) * np.log(1 - o))


def categorical_crossentropy(target, output, from_logits=False, axis=-1):
    o = np.asarray(softmax(output) if from_logits else output)
    o = np.clip(o / np.sum(o, axis=axis, keepdims=True), _epsilon, 1 - _epsilon)
    return T(-np.sum(target * np.log(o), axis=axis))
