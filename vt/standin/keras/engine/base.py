import inspect
import re
import numpy as np
from .. import backend as K
from .. import initializers

_uids = {}


def _name(cls):
    s = re.sub(r'(?<!^)(?=[A-Z][a-z])', '_', cls.__name__).lower()
    _uids[s] = _uids.get(s, 0) + 1
    return '%s_%d' % (s, _uids[s])


class InputSpec(object):
    def __init__(self, dtype=None, shape=None, ndim=None, max_ndim=None, min_ndim=None, axes=None):
        self.dtype, self.shape, self.max_ndim, self.min_ndim, self.axes = dtype, shape, max_ndim, min_ndim, axes or {}
        self.ndim = len(shape) if shape is not None else ndim


class Node(object):
    def __init__(self, layer, inputs, outputs, single_in):
        self.layer, self.inputs, self.outputs, self.single_in = layer, inputs, outputs, single_in


class KTensor(object):
    """a tensor of a graph: only its shape is known"""
    def __init__(self, shape, history=None):
        self._keras_shape = tuple(shape)
        self._keras_history = history

    @property
    def ndim(self):
        return len(self._keras_shape)

    def __array__(self, dtype=None):
        raise TypeError('tensor of a graph used as an array')


def to_list(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


class Layer(object):
    def __init__(self, **kwargs):
        allowed = {'input_shape', 'batch_input_shape', 'batch_size', 'dtype', 'name', 'trainable', 'weights', 'input_dtype'}
        for k in kwargs:
            if k not in allowed:
                raise TypeError('Keyword argument not understood:', k)
        self.input_spec = None
        self.supports_masking = False
        self.name = kwargs.get('name') or _name(self.__class__)
        self.trainable = kwargs.get('trainable', True)
        self._weights, self._constraints = [], {}
        self._initial_weights = kwargs.get('weights')
        self._inbound_nodes = []
        self.built = False

    def build(self, input_shape):
        self.built = True

    def add_weight(self, *args, **kw):
        # the old order of arguments, shape first, is still taken
        if args and isinstance(args[0], (tuple, list)):
            kw['shape'], args = args[0], args[1:]
        kw.update(zip(('name', 'shape', 'dtype', 'initializer', 'regularizer', 'trainable', 'constraint'), args))
        shape, initializer = kw['shape'], initializers.get(kw.get('initializer'))
        if initializer is None:
            initializer = initializers.get('glorot_uniform')
        w = K.T(np.array(initializer(tuple(shape)), dtype='float64'))
        self._constraints[len(self._weights)] = kw.get('constraint')
        self._weights.append(w)
        return w

    @property
    def weights(self):
        return self._weights

    def get_weights(self):
        return [np.array(w) for w in self.weights]

    def set_weights(self, ws):
        if len(ws) != len(self.weights):
            raise ValueError('You called `set_weights(weights)` on layer "%s" with a weight list of length %d, but the layer was expecting %d weights.'
                             % (self.name, len(ws), len(self.weights)))
        for a, b in zip(self.weights, ws):
            if np.shape(b) != a.shape:
                raise ValueError('Layer weight shape %s not compatible with provided weight shape %s' % (a.shape, np.shape(b)))
            a[...] = b

    def _call(self, x):
        return self.call(x)

    def call(self, inputs, **kw):
        return inputs

    def compute_output_shape(self, input_shape):
        return input_shape

    def compute_mask(self, inputs, mask=None):
        return mask

    def assert_input_compatibility(self, inputs):
        if not self.input_spec:
            return
        specs, inputs = to_list(self.input_spec), to_list(inputs)
        if len(inputs) != len(specs):
            raise ValueError('Layer %s expects %d inputs, but it received %d input tensors.' % (self.name, len(specs), len(inputs)))
        for i, (x, s) in enumerate(zip(inputs, specs)):
            if s is None:
                continue
            sh = K.int_shape(x)
            bad = (s.ndim is not None and len(sh) != s.ndim or s.max_ndim is not None and len(sh) > s.max_ndim or
                   s.min_ndim is not None and len(sh) < s.min_ndim)
            for a, v in s.axes.items():
                bad = bad or v is not None and sh[int(a)] not in (v, None)
            if s.shape is not None and not bad:
                bad = any(u is not None and v is not None and u != v for u, v in zip(s.shape, sh))
            if bad:
                raise ValueError('Input %d is incompatible with layer %s: found shape=%s' % (i, self.name, sh))

    def __call__(self, inputs, **kwargs):
        self.assert_input_compatibility(inputs)
        single = not isinstance(inputs, (list, tuple))
        xs = to_list(inputs)
        shapes = [K.int_shape(x) for x in xs]
        shapes = shapes[0] if single else shapes
        if not self.built:
            self.build(shapes)
            self.built = True
            if self._initial_weights is not None:
                self.set_weights(self._initial_weights)
                self._initial_weights = None
        if not any(isinstance(x, KTensor) for x in xs):
            return self.call(K.T(inputs) if single else [K.T(x) for x in inputs], **kwargs)
        osh = self.compute_output_shape(shapes)
        many = isinstance(osh, list)
        node = Node(self, xs, [], single)
        n = len(self._inbound_nodes)
        node.outputs = [KTensor(s, (self, n, i)) for i, s in enumerate(osh if many else [osh])]
        self._inbound_nodes.append(node)
        return node.outputs if many else node.outputs[0]

    def _at(self, i, what):
        n = self._inbound_nodes[i]
        r = getattr(n, what)
        return r[0] if len(r) == 1 else r

    def get_input_at(self, i):
        return self._at(i, 'inputs')

    def get_output_at(self, i):
        return self._at(i, 'outputs')

    def get_input_shape_at(self, i):
        r = self._inbound_nodes[i].inputs
        return r[0]._keras_shape if len(r) == 1 else [t._keras_shape for t in r]

    def get_output_shape_at(self, i):
        r = self._inbound_nodes[i].outputs
        return r[0]._keras_shape if len(r) == 1 else [t._keras_shape for t in r]

    @property
    def input(self):
        return self.get_input_at(0)

    @property
    def output(self):
        return self.get_output_at(0)

    @property
    def output_shape(self):
        return self.get_output_shape_at(0)

    def get_config(self):
        return dict(name=self.name, trainable=self.trainable)

    @classmethod
    def from_config(cls, config):
        return cls(**config)

    def count_params(self):
        return sum(w.size for w in self.weights)


class InputLayer(Layer):
    def __init__(self, batch_shape, name=None):
        super(InputLayer, self).__init__(name=name)
        self.batch_shape = tuple(batch_shape)
        self.built = True
        node = Node(self, [], [], True)
        node.outputs = [KTensor(self.batch_shape, (self, 0, 0))]
        node.inputs = node.outputs
        self._inbound_nodes.append(node)

    def get_config(self):
        return dict(name=self.name, batch_shape=self.batch_shape)


def Input(shape=None, batch_shape=None, name=None, dtype=None, **kw):
    return InputLayer(batch_shape or (None,) + tuple(shape), name=name)._inbound_nodes[0].outputs[0]
