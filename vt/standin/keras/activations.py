from . import backend as K


def linear(x):
    return x


relu, softmax, sigmoid, tanh, softplus, elu = K.relu, K.softmax, K.sigmoid, K.tanh, K.softplus, K.elu
_by = dict(linear=linear, relu=relu, softmax=softmax, sigmoid=sigmoid, tanh=tanh, softplus=softplus, elu=elu)


def get(x):
    if x is None:
        return linear
    if callable(x):
        return x
    if x not in _by:
        raise ValueError('Unknown activation function:' + str(x))
    return _by[x]


def serialize(f):
    for k, v in _by.items():
        if v is f:
            return k
    return f.get_config() if hasattr(f, 'get_config') else f.__name__


deserialize = get
