import json
import pickle
import numpy as np
from .. import backend as K
from ..utils import generic_utils
from .base import Layer, InputLayer, KTensor, Node, to_list, Input


class Model(Layer):
    def __init__(self, inputs=None, outputs=None, name=None, input=None, output=None, **kwargs):
        super(Model, self).__init__(name=name)
        inputs = input if inputs is None else inputs
        outputs = output if outputs is None else outputs
        self._single_in, self._single_out = not isinstance(inputs, (list, tuple)), not isinstance(outputs, (list, tuple))
        self.inputs, self.outputs = to_list(inputs), to_list(outputs)
        self.built = True
        self._nodes = []
        seen = set(id(t) for t in self.inputs)

        def visit(t):
            if id(t) in seen:
                return
            layer, ni, _ = t._keras_history
            node = layer._inbound_nodes[ni]
            if isinstance(layer, InputLayer):
                raise ValueError('Graph disconnected: cannot obtain value for tensor of layer "%s"' % layer.name)
            for i in node.inputs:
                visit(i)
            if node not in self._nodes:
                self._nodes.append(node)
            seen.update(id(o) for o in node.outputs)
        for t in self.outputs:
            visit(t)
        self.layers = []
        for t in self.inputs:
            if isinstance(t._keras_history[0], InputLayer):
                self.layers.append(t._keras_history[0])
        for n in self._nodes:
            if n.layer not in self.layers:
                self.layers.append(n.layer)
        names = [l.name for l in self.layers]
        for n in names:
            if names.count(n) > 1:
                raise ValueError('The name "%s" is used %d times in the model. All layer names should be unique.' % (n, names.count(n)))
        self.output_names = [t._keras_history[0].name for t in self.outputs]
        node = Node(self, self.inputs, [], self._single_in)
        node.outputs = [KTensor(t._keras_shape, t._keras_history) for t in self.outputs]
        node.outputs = self.outputs
        self._inbound_nodes.append(node)

    @property
    def weights(self):
        return [w for l in self.layers for w in l.weights]

    def get_layer(self, name=None, index=None):
        if index is not None:
            return self.layers[index]
        for l in self.layers:
            if l.name == name:
                return l
        raise ValueError('No such layer: %s' % name)

    def _run(self, values, f):
        v = dict((id(t), x) for t, x in zip(self.inputs, values))
        for n in self._nodes:
            a = [v[id(t)] for t in n.inputs]
            r = f(n.layer, a[0] if n.single_in else a)
            r = r if len(n.outputs) > 1 or isinstance(r, list) else [r]
            for t, x in zip(n.outputs, r):
                v[id(t)] = x
        r = [v[id(t)] for t in self.outputs]
        return r[0] if len(r) == 1 else r

    def call(self, inputs, mask=None):
        def f(layer, a):
            layer.assert_input_compatibility(a)
            return layer.call(a)
        return self._run(to_list(inputs), f)

    def compute_output_shape(self, shape):
        shapes = [shape] if self._single_in or not isinstance(shape, list) else shape
        return self._run(shapes, lambda l, a: l.compute_output_shape(a))

    def predict(self, x, batch_size=None, verbose=0, steps=None):
        xs = [K.T(np.asarray(a, dtype=float)) for a in to_list(x)]
        if len(xs) != len(self.inputs):
            raise ValueError('the model expects %d arrays and got %d' % (len(self.inputs), len(xs)))
        for a, t in zip(xs, self.inputs):
            s = t._keras_shape
            if a.ndim != len(s) or any(u is not None and u != v for u, v in zip(s[1:], a.shape[1:])):
                raise ValueError('Error when checking input: expected shape %s but got array with shape %s' % (s, a.shape))
        n = len(xs[0])
        bs = batch_size or 32
        parts = [to_list(self.call(xs[0][i:i + bs] if self._single_in else [a[i:i + bs] for a in xs])) for i in range(0, n, bs)]
        r = [np.concatenate([np.asarray(p[k]) for p in parts], axis=0) for k in range(len(parts[0]))]
        return r[0] if len(r) == 1 else r

    def compile(self, optimizer=None, loss=None, metrics=None, loss_weights=None, sample_weight_mode=None, weighted_metrics=None, **kw):
        self.optimizer, self.loss, self.metrics, self.loss_weights = optimizer, loss, metrics, loss_weights

    def summary(self, *a, **kw):
        pass

    # configuration: layers and, for each node, where its inputs come from
    def get_config(self):
        idx = dict((id(l), i) for i, l in enumerate(self.layers))
        where = {}
        for i, t in enumerate(self.inputs):
            where[id(t)] = (-1, i)
        for k, n in enumerate(self._nodes):
            for j, t in enumerate(n.outputs):
                where[id(t)] = (k, j)
        return dict(name=self.name, single=[self._single_in, self._single_out],
                    layers=[dict(class_name=l.__class__.__name__, config=l.get_config()) for l in self.layers],
                    inputs=[(t._keras_shape, t._keras_history[0].name) for t in self.inputs],
                    nodes=[(idx[id(n.layer)], [where[id(t)] for t in n.inputs], n.single_in) for n in self._nodes],
                    outputs=[where[id(t)] for t in self.outputs])

    @classmethod
    def from_config(cls, c, custom_objects=None):
        inputs = [Input(batch_shape=tuple(s), name=n) for s, n in c['inputs']]
        layers = [None if l['class_name'] == 'InputLayer' else make_layer(l, custom_objects) for l in c['layers']]
        outs = []

        def get(w):
            return inputs[w[1]] if w[0] == -1 else outs[w[0]][w[1]]
        for li, ws, single in c['nodes']:
            a = [get(w) for w in ws]
            outs.append(to_list(layers[li](a[0] if single else a)))
        o = [get(w) for w in c['outputs']]
        return cls(inputs[0] if c['single'][0] else inputs, o[0] if c['single'][1] else o, name=c['name'])

    def to_json(self, **kw):
        def conv(o):
            if isinstance(o, np.generic):
                return o.item()
            if isinstance(o, np.ndarray):
                return o.tolist()
            raise TypeError('Not JSON Serializable:', o)
        return json.dumps(dict(class_name='Model', config=self.get_config(), backend=K.backend()), default=conv)

    def save(self, filepath, overwrite=True, include_optimizer=True):
        with open(filepath, 'wb') as f:
            pickle.dump((self.to_json(), self.get_weights()), f)

    def fit(self, *a, **kw):
        raise NotImplementedError('training is beyond the stand-in')

    fit_generator = fit


def make_layer(l, custom_objects=None):
    from .. import layers as L
    co = custom_objects or {}
    if l['class_name'] in co:
        cls = co[l['class_name']]
    elif l['class_name'] == 'Model':
        return Model.from_config(l['config'], co)
    else:
        cls = getattr(L, l['class_name'], None)
    if cls is None:
        raise ValueError('Unknown layer: ' + l['class_name'])
    old = dict(generic_utils._custom)
    generic_utils._custom.update(co)
    try:
        if cls is L.TimeDistributed:
            return cls.from_config(l['config'], co)
        return cls.from_config(l['config'])
    finally:
        generic_utils._custom.clear()
        generic_utils._custom.update(old)


def model_from_json(s, custom_objects=None):
    return Model.from_config(json.loads(s)['config'], custom_objects)


def load_model(path, custom_objects=None, compile=True):
    with open(path, 'rb') as f:
        s, w = pickle.load(f)
    m = model_from_json(s, custom_objects)
    m.set_weights(w)
    return m
