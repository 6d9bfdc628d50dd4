import numpy as np
from .. import backend as K
from .. import activations, initializers, regularizers, constraints
from ..engine.base import Layer, InputSpec, Input, InputLayer
from ..engine.model import Model, make_layer
from .pooling import MaxPooling1D, AveragePooling1D, GlobalAveragePooling1D, GlobalMaxPooling1D


class _Kernel(Layer):
    """common part of dense and convolutional layers"""
    def __init__(self, activation=None, use_bias=True, kernel_initializer='glorot_uniform', bias_initializer='zeros', kernel_regularizer=None,
                 bias_regularizer=None, activity_regularizer=None, kernel_constraint=None, bias_constraint=None, **kw):
        if 'input_shape' not in kw and 'input_dim' in kw:
            kw['input_shape'] = (kw.pop('input_dim'),)
        super(_Kernel, self).__init__(**kw)
        self.activation = activations.get(activation)
        self.use_bias = use_bias
        self.kernel_initializer, self.bias_initializer = initializers.get(kernel_initializer), initializers.get(bias_initializer)
        self.kernel_regularizer, self.bias_regularizer = regularizers.get(kernel_regularizer), regularizers.get(bias_regularizer)
        self.activity_regularizer = regularizers.get(activity_regularizer)
        self.kernel_constraint, self.bias_constraint = constraints.get(kernel_constraint), constraints.get(bias_constraint)

    def get_config(self):
        c = super(_Kernel, self).get_config()
        c.update(activation=activations.serialize(self.activation), use_bias=self.use_bias)
        for n, m in (('initializer', initializers), ('regularizer', regularizers), ('constraint', constraints)):
            for p in 'kernel_', 'bias_':
                c[p + n] = m.serialize(getattr(self, p + n))
        return c


class Dense(_Kernel):
    def __init__(self, units, **kw):
        super(Dense, self).__init__(**kw)
        self.units = units
        self.input_spec = InputSpec(min_ndim=2)
        self.supports_masking = True

    def build(self, input_shape):
        d = input_shape[-1]
        self.kernel = self.add_weight((d, self.units), initializer=self.kernel_initializer, name='kernel')
        self.bias = self.add_weight((self.units,), initializer=self.bias_initializer, name='bias') if self.use_bias else None
        self.input_spec = InputSpec(min_ndim=2, axes={-1: d})
        self.built = True

    def call(self, x):
        y = K.dot(x, self.kernel)
        if self.use_bias:
            y = y + self.bias
        return self.activation(y)

    def compute_output_shape(self, s):
        return tuple(s[:-1]) + (self.units,)

    def get_config(self):
        return dict(super(Dense, self).get_config(), units=self.units)


class Conv1D(_Kernel):
    def __init__(self, filters, kernel_size, strides=1, padding='valid', dilation_rate=1, data_format='channels_last', **kw):
        super(Conv1D, self).__init__(**kw)
        one = lambda x: int(x[0]) if isinstance(x, (list, tuple)) else int(x)
        self.filters, self.kernel_size, self.strides, self.dilation_rate = filters, one(kernel_size), one(strides), one(dilation_rate)
        self.padding = padding
        if padding not in ('valid', 'same', 'causal'):
            raise ValueError('padding ' + str(padding))
        if self.strides > 1 and self.dilation_rate > 1:
            raise ValueError('strides > 1 not supported in conjunction with dilation_rate > 1')
        self.input_spec = InputSpec(ndim=3)

    def build(self, input_shape):
        d = input_shape[-1]
        self.kernel = self.add_weight((self.kernel_size, d, self.filters), initializer=self.kernel_initializer, name='kernel')
        self.bias = self.add_weight((self.filters,), initializer=self.bias_initializer, name='bias') if self.use_bias else None
        self.input_spec = InputSpec(ndim=3, axes={-1: d})
        self.built = True

    def _pad(self, n):
        eff = (self.kernel_size - 1) * self.dilation_rate
        if self.padding == 'valid':
            return 0, 0
        if self.padding == 'causal':
            return eff, 0
        m = -(-n // self.strides)
        p = max((m - 1) * self.strides + eff + 1 - n, 0)
        return p // 2, p - p // 2

    def call(self, x):
        a, b = self._pad(x.shape[1])
        x = np.pad(np.asarray(x), ((0, 0), (a, b), (0, 0)), mode='constant')
        eff = (self.kernel_size - 1) * self.dilation_rate
        m = max((x.shape[1] - eff - 1) // self.strides + 1, 0)
        y = np.zeros((x.shape[0], m, self.filters))
        for k in range(self.kernel_size):
            o = k * self.dilation_rate
            y += np.dot(x[:, o:o + (m - 1) * self.strides + 1:self.strides][:, :m], np.asarray(self.kernel)[k])
        if self.use_bias:
            y = y + self.bias
        return self.activation(K.T(y))

    def compute_output_shape(self, s):
        n = s[1]
        if n is not None:
            a, b = self._pad(n)
            n = (n + a + b - (self.kernel_size - 1) * self.dilation_rate - 1) // self.strides + 1
        return s[0], n, self.filters

    def get_config(self):
        return dict(super(Conv1D, self).get_config(), filters=self.filters, kernel_size=self.kernel_size, strides=self.strides, padding=self.padding,
                    dilation_rate=self.dilation_rate)


class Activation(Layer):
    def __init__(self, activation, **kw):
        super(Activation, self).__init__(**kw)
        self.activation = activations.get(activation)
        self.supports_masking = True

    def call(self, x):
        return self.activation(x)

    def get_config(self):
        return dict(super(Activation, self).get_config(), activation=activations.serialize(self.activation))


class BatchNormalization(Layer):
    def __init__(self, axis=-1, momentum=.99, epsilon=1e-3, center=True, scale=True, **kw):
        super(BatchNormalization, self).__init__(**kw)
        self.axis, self.momentum, self.epsilon = axis, momentum, epsilon

    def build(self, input_shape):
        d = input_shape[self.axis]
        self.gamma, self.beta, self.moving_mean, self.moving_variance = [
            self.add_weight(shape=(d,), name=n, initializer=i) for n, i in
            (('gamma', 'ones'), ('beta', 'zeros'), ('moving_mean', 'zeros'), ('moving_variance', 'ones'))]
        self.built = True

    def call(self, x):
        return K.T((x - self.moving_mean) / np.sqrt(self.moving_variance + self.epsilon) * self.gamma + self.beta)

    def get_config(self):
        return dict(super(BatchNormalization, self).get_config(), axis=self.axis, momentum=self.momentum, epsilon=self.epsilon)


class Dropout(Layer):
    """out of training, nothing is dropped"""
    def __init__(self, rate, noise_shape=None, seed=None, **kw):
        super(Dropout, self).__init__(**kw)
        self.rate = rate

    def get_config(self):
        return dict(super(Dropout, self).get_config(), rate=self.rate)


class SpatialDropout1D(Dropout):
    pass


class _Merge(Layer):
    def compute_output_shape(self, shapes):
        return shapes[0]


class Add(_Merge):
    def call(self, xs):
        return sum(xs[1:], xs[0])


class Multiply(_Merge):
    def call(self, xs):
        y = xs[0]
        for x in xs[1:]:
            y = y * x
        return y


class Concatenate(_Merge):
    def __init__(self, axis=-1, **kw):
        super(Concatenate, self).__init__(**kw)
        self.axis = axis

    def build(self, shapes):
        if not isinstance(shapes, list) or len(shapes) < 2:
            raise ValueError('A `Concatenate` layer should be called on a list of at least 2 inputs')

    def call(self, xs):
        return K.concatenate(xs, axis=self.axis)

    def compute_output_shape(self, shapes):
        s = list(shapes[0])
        d = [t[self.axis] for t in shapes]
        s[self.axis] = None if None in d else sum(d)
        return tuple(s)

    def get_config(self):
        return dict(super(Concatenate, self).get_config(), axis=self.axis)


class Reshape(Layer):
    def __init__(self, target_shape, **kw):
        super(Reshape, self).__init__(**kw)
        self.target_shape = tuple(target_shape)

    def call(self, x):
        return K.reshape(x, (x.shape[0],) + self.target_shape)

    def compute_output_shape(self, s):
        t = list(self.target_shape)
        if -1 in t and None not in s[1:]:
            t[t.index(-1)] = int(-np.prod(s[1:]) // np.prod(t))
        return (s[0],) + tuple(None if i == -1 else i for i in t)

    def get_config(self):
        return dict(super(Reshape, self).get_config(), target_shape=self.target_shape)


class Flatten(Layer):
    def call(self, x):
        return K.batch_flatten(x)

    def compute_output_shape(self, s):
        return s[0], None if None in s[1:] else int(np.prod(s[1:]))


class Lambda(Layer):
    def __init__(self, function, output_shape=None, **kw):
        super(Lambda, self).__init__(**kw)
        self.function, self._out = function, output_shape

    def call(self, x):
        return self.function(x)

    def compute_output_shape(self, s):
        if self._out is None:
            return K.shape(self.function(K.T(np.zeros([1 if i is None else i for i in s]))))
        return self._out(s) if callable(self._out) else (s[0],) + tuple(self._out)


class TimeDistributed(Layer):
    def __init__(self, layer, **kw):
        super(TimeDistributed, self).__init__(**kw)
        self.layer = layer

    @property
    def weights(self):
        return self.layer.weights

    def build(self, s):
        if not self.layer.built:
            self.layer.build((s[0],) + tuple(s[2:]))
            self.layer.built = True
        self.built = True

    def call(self, x):
        n, t = x.shape[:2]
        y = self.layer.call(K.reshape(x, (n * t,) + x.shape[2:]))
        return K.reshape(y, (n, t) + y.shape[1:])

    def compute_output_shape(self, s):
        o = self.layer.compute_output_shape((s[0],) + tuple(s[2:]))
        return (o[0], s[1]) + tuple(o[1:])

    def get_config(self):
        return dict(super(TimeDistributed, self).get_config(), layer=dict(class_name=self.layer.__class__.__name__, config=self.layer.get_config()))

    @classmethod
    def from_config(cls, config, custom_objects=None):
        c = dict(config)
        return cls(make_layer(c.pop('layer'), custom_objects), **c)


class _Beyond(Layer):
    def __init__(self, *a, **kw):
        raise NotImplementedError('beyond the stand-in')


class Conv2D(_Beyond):
    pass


class Conv2DTranspose(_Beyond):
    pass


class MaxPooling2D(_Beyond):
    pass


class GlobalAveragePooling2D(_Beyond):
    pass
