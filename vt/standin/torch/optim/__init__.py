"""optimizers: plain gradient descent with momentum really steps, the others keep what they were given"""
import copy
import numpy as np


class Optimizer(object):
    _opts = {}

    def __init__(self, params, lr=1e-3, *args, **kw):
        names = list(self._opts)
        if len(args) > len(names):
            raise TypeError('too many arguments for %s' % type(self).__name__)
        d = dict(self._opts)
        for k, v in list(zip(names, args)) + list(kw.items()):
            if k not in d:
                raise TypeError("%s got an unexpected keyword argument '%s'" % (type(self).__name__, k))
            d[k] = v
        self.defaults = dict(d, lr=lr)
        params = list(params)
        if not params:
            raise ValueError('optimizer got an empty parameter list')
        groups = params if isinstance(params[0], dict) else [{'params': params}]
        self.param_groups = []
        for g in groups:
            g = dict(g)
            for k, v in self.defaults.items():
                g.setdefault(k, v)
            g['params'] = list(g['params'])
            self.param_groups.append(g)
        self.state = {}

    def zero_grad(self):
        for g in self.param_groups:
            for p in g['params']:
                p.grad = None

    def state_dict(self):
        groups, n = [], 0
        for g in self.param_groups:
            h = {k: v for k, v in g.items() if k != 'params'}
            h['params'] = list(range(n, n + len(g['params'])))
            n += len(g['params'])
            groups.append(h)
        return {'state': self.state, 'param_groups': groups}

    def load_state_dict(self, d):
        d = copy.deepcopy(d)
        if len(d['param_groups']) != len(self.param_groups):
            raise ValueError('loaded state dict has a different number of parameter groups')
        for g, h in zip(self.param_groups, d['param_groups']):
            h.pop('params')
            p = g['params']
            g.clear()
            g.update(h, params=p)
        self.state = d['state']

    def step(self, closure=None):
        i = 0
        for g in self.param_groups:
            for p in g['params']:
                if p.grad is not None:
                    d = np.asarray(p.grad) + g.get('weight_decay', 0) * np.asarray(p)
                    if g.get('momentum', 0):
                        b = self.state.get(i)
                        b = self.state[i] = d if b is None else g['momentum'] * b + d
                        d = b
                    p -= g['lr'] * d
                i += 1


def _opt(name, **o):
    return type(name, (Optimizer,), {'_opts': o, '__module__': __name__})


SGD = _opt('SGD', momentum=0, dampening=0, weight_decay=0, nesterov=False)
Adam = _opt('Adam', betas=(.9, .999), eps=1e-8, weight_decay=0, amsgrad=False)
Adadelta = _opt('Adadelta', rho=.9, eps=1e-6, weight_decay=0)
Adagrad = _opt('Adagrad', lr_decay=0, weight_decay=0, initial_accumulator_value=0)
SparseAdam = _opt('SparseAdam', betas=(.9, .999), eps=1e-8)
Adamax = _opt('Adamax', betas=(.9, .999), eps=1e-8, weight_decay=0)
ASGD = _opt('ASGD', lambd=1e-4, alpha=.75, t0=1e6, weight_decay=0)
LBFGS = _opt('LBFGS', max_iter=20, max_eval=None, tolerance_grad=1e-5, tolerance_change=1e-9, history_size=100, line_search_fn=None)
RMSprop = _opt('RMSprop', alpha=.99, eps=1e-8, weight_decay=0, momentum=0, centered=False)
Rprop = _opt('Rprop', etas=(.5, 1.2), step_sizes=(1e-6, 50))
