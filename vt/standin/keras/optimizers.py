from . import backend as K


class Optimizer(object):
    _options = ()
    _defaults = {}

    def __init__(self, **kw):
        allowed = set(self._options) | {'clipnorm', 'clipvalue'}
        for k in kw:
            if k not in allowed:
                raise TypeError('Unexpected keyword argument passed to optimizer: ' + k)
        self._config = dict(self._defaults, **kw)
        for k, v in self._config.items():
            if k in ('lr', 'momentum', 'decay', 'rho', 'beta_1', 'beta_2'):
                v = K.variable(v, dtype='float64')
            setattr(self, k, v)

    def get_config(self):
        return dict((k, float(v) if isinstance(v, K.Tensor) else v) for k, v in ((k, getattr(self, k)) for k in self._config))


class SGD(Optimizer):
    _options = 'lr', 'momentum', 'decay', 'nesterov'
    _defaults = dict(lr=.01, momentum=0., decay=0., nesterov=False)


class RMSprop(Optimizer):
    _options = 'lr', 'rho', 'epsilon', 'decay'
    _defaults = dict(lr=.001, rho=.9, epsilon=None, decay=0.)


class Adam(Optimizer):
    _options = 'lr', 'beta_1', 'beta_2', 'epsilon', 'decay', 'amsgrad'
    _defaults = dict(lr=.001, beta_1=.9, beta_2=.999, epsilon=None, decay=0., amsgrad=False)


class Adamax(Optimizer):
    _options = 'lr', 'beta_1', 'beta_2', 'epsilon', 'decay'
    _defaults = dict(lr=.002, beta_1=.9, beta_2=.999, epsilon=None, decay=0.)


class Nadam(Optimizer):
    _options = 'lr', 'beta_1', 'beta_2', 'epsilon', 'schedule_decay'
    _defaults = dict(lr=.002, beta_1=.9, beta_2=.999, epsilon=None, schedule_decay=.004)
