"""numpy stand-in for the part of torch that hyperion/torch uses"""
import contextlib
import pickle
import sys
import types
import numpy as np

float32, float64, float16, int64, int32, int8, uint8, bool = (np.float32, np.float64, np.float16, np.int64, np.int32,
                                                            np.int8, np.uint8, np.bool_)
float, double, half, long, int, short = float32, float64, float16, int64, int32, np.int16
_grad = [True]


def _ax(dim, keepdim=False, keepdims=None):
    return dict(axis=dim, keepdims=keepdim if keepdims is None else keepdims)


class Size(tuple):
    def numel(self):
        return _int(np.prod(self))


_int = __builtins__['int'] if isinstance(__builtins__, dict) else __builtins__.int
_bool = __builtins__['bool'] if isinstance(__builtins__, dict) else __builtins__.bool
_float = __builtins__['float'] if isinstance(__builtins__, dict) else __builtins__.float


class device(object):
    def __init__(self, type='cpu', index=None):
        type = str(type)
        self.type, _, i = type.partition(':')
        self.index = _int(i) if i else index

    def __str__(self):
        return self.type if self.index is None else '%s:%d' % (self.type, self.index)

    def __repr__(self):
        return 'device(type=%r)' % str(self)

    def __eq__(self, o):
        return str(self) == str(o)

    def __hash__(self):
        return hash(str(self))


class Tensor(object):
    """an array with the methods of a tensor"""
    requires_grad = False
    is_cuda = False
    device = device('cpu')
    grad = None
    __array_priority__ = 1000
    __hash__ = object.__hash__

    def __init__(self, a=()):
        self._a = np.asarray(a)

    def __array__(self, dtype=None):
        return self._a if dtype is None else self._a.astype(dtype)

    shape = property(lambda s: Size(s._a.shape))
    ndim = property(lambda s: s._a.ndim)
    dtype = property(lambda s: s._a.dtype)
    T = property(lambda s: _wrap(s._a.T))

    def __repr__(self):
        return 'tensor(%r)' % self._a

    def __format__(self, f):
        return format(self._a.item() if self._a.size == 1 else self._a, f)

    def __getitem__(self, i):
        return _wrap(self._a[_raw(i)])

    def __setitem__(self, i, v):
        self._a[_raw(i)] = _raw(v)

    def __iter__(self):
        return iter([_wrap(x) for x in self._a])

    def __bool__(self):
        return _bool(self._a)

    def __float__(self):
        return _float(self._a)

    def __int__(self):
        return _int(self._a)

    __index__ = __int__

    def astype(self, t):
        return self._a.astype(t)

    def copy(self):
        return _wrap(self._a.copy())

    def tolist(self):
        return self._a.tolist()

    def dim(self):
        return self._a.ndim

    ndimension = dim

    def size(self, dim=None):
        return Size(self.shape) if dim is None else self.shape[dim]

    def numel(self):
        return _int(np.prod(self.shape))

    nelement = numel

    def __len__(self):
        return self.shape[0]

    def _t(self, dt):
        return _wrap(self._a.astype(dt))

    def float(self):
        return self._t(np.float32)

    def double(self):
        return self._t(np.float64)

    def long(self):
        return self._t(np.int64)

    def int(self):
        return self._t(np.int32)

    def bool(self):
        return self._t(np.bool_)

    def type(self, dt):
        return self._t(dt)

    def type_as(self, o):
        return self._t(o.dtype)

    def to(self, *a, **k):
        for x in list(a) + list(k.values()):
            if isinstance(x, (type, np.dtype)) and not isinstance(x, device):
                return self._t(x)
            if isinstance(x, Tensor):
                return self._t(x.dtype)
        return self

    def cpu(self):
        return self

    def cuda(self, *a, **k):
        raise RuntimeError('no CUDA')

    def detach(self):
        return self

    @property
    def data(self):
        return self

    def clone(self):
        return self.copy()

    def numpy(self):
        return self._a

    def contiguous(self):
        return self

    def requires_grad_(self, *a):
        return self

    def eq(self, o):
        return _wrap(np.equal(self._a, _raw(o)))

    def ne(self, o):
        return _wrap(np.not_equal(self._a, _raw(o)))

    def gt(self, o):
        return _wrap(np.greater(self._a, _raw(o)))

    def ge(self, o):
        return _wrap(np.greater_equal(self._a, _raw(o)))

    def lt(self, o):
        return _wrap(np.less(self._a, _raw(o)))

    def le(self, o):
        return _wrap(np.less_equal(self._a, _raw(o)))

    def add(self, o):
        return self + o

    def sub(self, o):
        return self - o

    def mul(self, o):
        return self * o

    def div(self, o):
        return self / o

    def add_(self, o):
        self += o
        return self

    def sub_(self, o):
        self -= o
        return self

    def mul_(self, o):
        self *= o
        return self

    def div_(self, o):
        self /= o
        return self

    def zero_(self):
        self[...] = 0
        return self

    def fill_(self, v):
        self[...] = v
        return self

    def copy_(self, o):
        self[...] = o
        return self

    def unsqueeze(self, dim):
        return _wrap(np.expand_dims(self._a, dim))

    def squeeze(self, dim=None):
        if dim is not None and self.shape[dim] != 1:
            return self
        return _wrap(np.squeeze(np.asarray(self), dim))

    def view(self, *s):
        return self.reshape(*s)

    def reshape(self, *s, **k):
        s = k.get('shape', s)
        return _wrap(np.asarray(self).reshape(*s))

    def expand(self, *s):
        return _wrap(np.broadcast_to(np.asarray(self), s))

    def expand_as(self, o):
        return self.expand(*o.shape)

    def t(self):
        return _wrap(np.asarray(self).T)

    def transpose(self, a, b):
        return _wrap(np.swapaxes(np.asarray(self), a, b))

    def permute(self, *a):
        return _wrap(np.transpose(np.asarray(self), a))

    def matmul(self, o):
        return matmul(self, o)

    mm = matmul

    def sum(self, dim=None, keepdim=False, axis=None, **k):
        return sum(self, dim if axis is None else axis, keepdim)

    def mean(self, dim=None, keepdim=False, axis=None, **k):
        return mean(self, dim if axis is None else axis, keepdim)

    def prod(self, dim=None, keepdim=False, axis=None, **k):
        return _wrap(np.prod(np.asarray(self), axis=dim if axis is None else axis, keepdims=keepdim))

    def std(self, dim=None, **k):
        return _wrap(np.std(np.asarray(self), axis=dim, ddof=1))

    def var(self, dim=None, **k):
        return _wrap(np.var(np.asarray(self), axis=dim, ddof=1))

    def max(self, dim=None, keepdim=False, axis=None, **k):
        return max(self, dim if axis is None else axis, keepdim)

    def min(self, dim=None, keepdim=False, axis=None, **k):
        return min(self, dim if axis is None else axis, keepdim)

    def argmax(self, dim=None, keepdim=False, axis=None, **k):
        return argmax(self, dim if axis is None else axis, keepdim)

    def argmin(self, dim=None, keepdim=False, axis=None, **k):
        return argmin(self, dim if axis is None else axis, keepdim)

    def any(self, dim=None, axis=None, **k):
        return _wrap(np.any(np.asarray(self), axis=dim if axis is None else axis))

    def all(self, dim=None, axis=None, **k):
        return _wrap(np.all(np.asarray(self), axis=dim if axis is None else axis))

    def abs(self):
        return _wrap(np.abs(np.asarray(self)))

    def exp(self):
        return _wrap(np.exp(np.asarray(self)))

    def log(self):
        return _wrap(np.log(np.asarray(self)))

    def sqrt(self):
        return _wrap(np.sqrt(np.asarray(self)))

    def pow(self, p):
        return self ** p

    def sigmoid(self):
        return sigmoid(self)

    def tanh(self):
        return tanh(self)

    def softmax(self, dim):
        return softmax(self, dim)

    def clamp(self, min=None, max=None):
        return clamp(self, min, max)

    def backward(self, *a, **k):
        f = getattr(self, '_backward', None)
        if f is None:
            raise RuntimeError('element 0 of tensors does not require grad')
        f()

    def item(self):
        if self.numel() != 1:
            raise ValueError('only one element tensors can be converted to Python scalars')
        return self._a.item()

    def __reduce__(self):
        return _make, (self._a.copy(),)


def _make(x):
    return Tensor(x)


def _wrap(x):
    return Tensor(np.asarray(x))


def _raw(x):
    if isinstance(x, Tensor):
        return x._a
    return tuple(_raw(y) for y in x) if isinstance(x, tuple) else x


def _ops():
    import operator as o
    for n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'matmul', 'and_', 'or_', 'xor'):
        f, m = getattr(o, n), n.rstrip('_')

        def fwd(s, x, f=f):
            return _wrap(f(s._a, _raw(x)))

        def rev(s, x, f=f):
            return _wrap(f(_raw(x), s._a))

        def inp(s, x, f=f):
            s._a[...] = f(s._a, _raw(x))
            return s
        for k, g in (('__%s__', fwd), ('__r%s__', rev), ('__i%s__', inp)):
            setattr(Tensor, k % m, g)
    for n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        setattr(Tensor, '__%s__' % n, lambda s, x, f=getattr(o, n): _wrap(f(s._a, _raw(x))))
    for n in ('neg', 'abs', 'invert'):
        setattr(Tensor, '__%s__' % n, lambda s, f=getattr(o, n): _wrap(f(s._a)))


_ops()


def tensor(data, dtype=None, device=None, requires_grad=False):
    x = np.array(_raw(data))
    if dtype is None and x.dtype == np.float64 and not isinstance(data, (np.ndarray, np.generic, Tensor)):
        dtype = np.float32
    return _wrap(x if dtype is None else x.astype(dtype))


def as_tensor(data, dtype=None, device=None):
    return data if isinstance(data, Tensor) and dtype is None else tensor(data, dtype)


def from_numpy(x):
    return Tensor(x)


def zeros(*s, **k):
    return _wrap(np.zeros(s[0] if s and isinstance(s[0], (tuple, list)) else s, k.get('dtype') or np.float32))


def ones(*s, **k):
    return _wrap(np.ones(s[0] if s and isinstance(s[0], (tuple, list)) else s, k.get('dtype') or np.float32))


def zeros_like(x, **k):
    return _wrap(np.zeros_like(np.asarray(x)))


def ones_like(x, **k):
    return _wrap(np.ones_like(np.asarray(x)))


def arange(*a, **k):
    return _wrap(np.arange(*a, **k))


def rand(*s):
    return _wrap(np.random.rand(*s).astype(np.float32))


def randn(*s):
    return _wrap(np.random.randn(*s).astype(np.float32))


def manual_seed(s):
    np.random.seed(s % 2 ** 32)


def is_tensor(x):
    return isinstance(x, Tensor)


def sum(x, dim=None, keepdim=False, **k):
    return _wrap(np.sum(np.asarray(x), **_ax(dim, keepdim)))


def mean(x, dim=None, keepdim=False, **k):
    x = np.asarray(x)
    if x.dtype.kind not in 'fc':
        raise RuntimeError('mean(): input dtype should be either floating point or complex dtypes')
    return _wrap(np.mean(x, **_ax(dim, keepdim)))


def _minmax(f, af, x, dim, keepdim):
    if isinstance(dim, Tensor):
        return _wrap((np.maximum if f is np.max else np.minimum)(_raw(x), _raw(dim)))
    x = np.asarray(x)
    if dim is None:
        return _wrap(f(x))
    v, i = f(x, axis=dim), af(x, axis=dim)
    if keepdim:
        v, i = np.expand_dims(v, dim), np.expand_dims(i, dim)
    return Values((_wrap(v), _wrap(i)))


class Values(tuple):
    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


def max(x, dim=None, keepdim=False):
    return _minmax(np.max, np.argmax, x, dim, keepdim)


def min(x, dim=None, keepdim=False):
    return _minmax(np.min, np.argmin, x, dim, keepdim)


def argmax(x, dim=None, keepdim=False):
    i = np.argmax(np.asarray(x), axis=dim)
    return _wrap(np.expand_dims(i, dim) if keepdim else i)


def argmin(x, dim=None, keepdim=False):
    i = np.argmin(np.asarray(x), axis=dim)
    return _wrap(np.expand_dims(i, dim) if keepdim else i)


def topk(x, k, dim=-1):
    i = np.argsort(-np.asarray(x), axis=dim, kind='stable').take(range(k), axis=dim)
    return Values((_wrap(np.take_along_axis(np.asarray(x), i, dim)), _wrap(i)))


def eq(a, b):
    return _wrap(np.equal(_raw(a), _raw(b)))


def ne(a, b):
    return _wrap(np.not_equal(_raw(a), _raw(b)))


def gt(a, b):
    return _wrap(np.greater(_raw(a), _raw(b)))


def ge(a, b):
    return _wrap(np.greater_equal(_raw(a), _raw(b)))


def lt(a, b):
    return _wrap(np.less(_raw(a), _raw(b)))


def le(a, b):
    return _wrap(np.less_equal(_raw(a), _raw(b)))


def where(c, a=None, b=None):
    return _wrap(np.where(np.asarray(c), np.asarray(a), np.asarray(b)))


def cat(l, dim=0):
    return _wrap(np.concatenate([np.asarray(x) for x in l], axis=dim))


def stack(l, dim=0):
    return _wrap(np.stack([np.asarray(x) for x in l], axis=dim))


def reshape(x, shape):
    return x.reshape(*shape)


def unsqueeze(x, dim):
    return x.unsqueeze(dim)


def squeeze(x, dim=None):
    return x.squeeze(dim)


def matmul(a, b):
    return _wrap(np.matmul(np.asarray(a), np.asarray(b)))


mm = matmul


def exp(x):
    return _wrap(np.exp(np.asarray(x)))


def log(x):
    return _wrap(np.log(np.asarray(x)))


def abs(x):
    return _wrap(np.abs(np.asarray(x)))


def sqrt(x):
    return _wrap(np.sqrt(np.asarray(x)))


def tanh(x):
    return _wrap(np.tanh(np.asarray(x)))


def sigmoid(x):
    return _wrap(1 / (1 + np.exp(-np.asarray(x))))


def relu(x):
    return _wrap(np.maximum(np.asarray(x), 0))


def softmax(x, dim):
    x = np.asarray(x)
    e = np.exp(x - x.max(axis=dim, keepdims=True))
    return _wrap(e / e.sum(axis=dim, keepdims=True))


def log_softmax(x, dim):
    x = np.asarray(x)
    x = x - x.max(axis=dim, keepdims=True)
    return _wrap(x - np.log(np.exp(x).sum(axis=dim, keepdims=True)))


def clamp(x, min=None, max=None):
    return _wrap(np.clip(np.asarray(x), min, max))


class _Grad(contextlib.ContextDecorator):
    def __init__(self, on):
        self.on = on

    def __enter__(self):
        self.old, _grad[0] = _grad[0], self.on

    def __exit__(self, *a):
        _grad[0] = self.old
        return False


def no_grad():
    return _Grad(False)


def enable_grad():
    return _Grad(True)


def set_grad_enabled(on):
    g = _Grad(on)
    _grad[0] = on
    return g


def is_grad_enabled():
    return _grad[0]


def save(obj, f, *a, **k):
    if hasattr(f, 'write'):
        pickle.dump(obj, f)
    else:
        with open(f, 'wb') as g:
            pickle.dump(obj, g)


def load(f, map_location=None, **k):
    if hasattr(f, 'read'):
        return pickle.load(f)
    with open(f, 'rb') as g:
        return pickle.load(g)


def _module(name, **d):
    m = types.ModuleType('torch.' + name)
    m.__dict__.update(d)
    sys.modules['torch.' + name] = m
    globals()[name.split('.')[-1]] = m
    return m


_module('cuda', is_available=lambda: False, device_count=lambda: 0)
inf, nan, pi = _float('inf'), _float('nan'), np.pi
_module('_six', inf=inf, nan=nan, string_classes=(str,), int_classes=(_int,))
_module('functional', split=lambda x, n, dim=0: [_wrap(y) for y in np.split(np.asarray(x), range(n, x.shape[dim], n), dim)])

from . import nn, optim  # noqa
