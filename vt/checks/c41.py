"""C41 networks, activations and optimizers made from their options (hyperion/torch)"""
import argparse
import copy
import os
import sys
import numpy as np

from ..core import case

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'standin'))

_A, _L = 1.6732632423543772, 1.0507009873554805


def soft(x, a):
    e = np.exp(x - x.max(axis=a, keepdims=True))
    return e / e.sum(axis=a, keepdims=True)


def functions(ctx):
    """name -> (options, the function)"""
    u = lambda a, b: float(ctx.rng.uniform(a, b))
    r = {}
    a = u(.2, 2)
    r['elu'] = dict(alpha=a), lambda x, a=a: np.where(x > 0, x, a * np.expm1(np.minimum(x, 0)))
    r['celu'] = dict(alpha=a), lambda x, a=a: np.where(x > 0, x, a * np.expm1(np.minimum(x, 0) / a))
    r['hardshrink'] = dict(lambd=a), lambda x, a=a: np.where(np.abs(x) > a, x, 0)
    r['softshrink'] = dict(lambd=a), lambda x, a=a: np.sign(x) * np.maximum(np.abs(x) - a, 0)
    lo, hi = u(-2, 0), u(.1, 2)
    r['hardtanh'] = dict(min_val=lo, max_val=hi), lambda x, lo=lo, hi=hi: np.clip(x, lo, hi)
    s = u(.01, .5)
    r['leakyrelu'] = dict(negative_slope=s), lambda x, s=s: np.where(x > 0, x, s * x)
    r['prelu'] = dict(num_parameters=1, init=s), r['leakyrelu'][1]
    r['logsigmoid'] = {}, lambda x: -np.logaddexp(0, -x)
    r['relu'] = {}, lambda x: np.maximum(x, 0)
    r['relu6'] = {}, lambda x: np.clip(x, 0, 6)
    r['rrelu'] = dict(lower=.1, upper=.1 + s), lambda x, s=s: np.where(x > 0, x, x * (.2 + s) / 2)
    r['selu'] = {}, lambda x: _L * np.where(x > 0, x, _A * np.expm1(np.minimum(x, 0)))
    r['sigmoid'] = {}, lambda x: 1 / (1 + np.exp(-x))
    b = ctx.pick([1, 2, 5])
    r['softplus'] = dict(beta=b, threshold=20), lambda x, b=b: np.logaddexp(0, b * x) / b
    r['softsign'] = {}, lambda x: x / (1 + np.abs(x))
    r['tanh'] = {}, np.tanh
    r['tanhshrink'] = {}, lambda x: x - np.tanh(x)
    r['threshold'] = dict(threshold=lo, value=hi), lambda x, lo=lo, hi=hi: np.where(x > lo, x, hi)
    d = ctx.pick([0, 1, -1])
    r['softmin'] = dict(dim=d), lambda x, d=d: soft(-x, d)
    r['softmax'] = dict(dim=d), lambda x, d=d: soft(x, d)
    r['logsoftmax'] = dict(dim=d), lambda x, d=d: np.log(soft(x, d))
    return r


DEFAULT_OK = ['relu', 'relu6', 'selu', 'sigmoid', 'tanh', 'softsign', 'tanhshrink', 'logsigmoid']


def config_of(ctx, name, opts):
    c = dict(opts, name=name)
    return dict((k, c[k]) for k in ctx.rng.permutation(sorted(c)))


@case(quick=300, mult=15)
def activations(ctx):
    """by name or configuration, and again from the configuration of what was made"""
    import torch
    import torch.nn as nn
    from hyperion.torch.helpers import ActivationFactory as AF
    fs = functions(ctx)
    name = ctx.pick(sorted(fs))
    opts, f = fs[name]
    inplace = name in ('elu', 'celu', 'hardtanh', 'leakyrelu', 'relu', 'relu6', 'selu', 'threshold') and ctx.flip(.3)
    o = dict(opts, inplace=True) if inplace else dict(opts)
    how = ctx.int(0, 2)
    if how == 0:
        a = AF.create(name, **o)
    elif how == 1:
        c = config_of(ctx, name, o)
        before = copy.deepcopy(c)
        a = AF.create(c)
        ctx.same(c, before, 'the configuration changed')
    else:
        a = AF.create_from_str(name, **o)
    ctx.check(AF.create(a) is a, 'an activation is itself')
    x = ctx.rng.randn(ctx.int(1, 5), ctx.int(1, 5)) * 3
    for gen in range(ctx.int(1, 4)):
        a.eval()
        t = torch.tensor(x)
        ctx.close(np.asarray(a(t)), f(x), 'activation ' + name, rtol=1e-6, atol=1e-9, info=(how, gen))
        if name != 'rrelu':
            ctx.same(bool(np.array_equal(np.asarray(t), x)), not inplace or bool(np.array_equal(f(x), x)), 'in place', name, gen)
        c = AF.get_config(a)
        ctx.check(isinstance(c, dict) and c.get('name'), 'configuration of ' + name, c)
        a = AF.create(c)
    ctx.check(AF.create(None) is None and AF.get_config(None) is None, 'no activation')
    l = nn.AdaptiveLogSoftmaxWithLoss(4, 10, [3, 6], div_value=ctx.pick([2., 4.]), head_bias=ctx.flip())
    m = AF.create(AF.get_config(l))
    ctx.same([(k.in_features, k.n_classes, list(k.cutoffs), k.div_value, k.head_bias) for k in (l, m)][1],
             (4, 10, [3, 6, 10], l.div_value, l.head_bias), 'adaptive softmax')
    m = AF.create(AF.get_config(nn.Softmax2d()))
    ctx.check(isinstance(m, nn.Softmax2d), 'softmax over channels', m)
    ctx.raises(lambda: AF.create('no-such-activation'), 'an unknown activation')
    ctx.sig(name, how, inplace, gen)
    ctx.sample(name=name, options=o)


OPT = dict(sgd=('SGD', dict(momentum='momentum', weight_decay='weight_decay', nesterov='nesterov'), dict(dampening=0)),
           adam=('Adam', dict(eps='eps', weight_decay='weight_decay', amsgrad='amsgrad'), {}),
           adadelta=('Adadelta', dict(rho='rho', eps='eps', weight_decay='weight_decay'), {}),
           adagrad=('Adagrad', dict(lr_decay='lr_decay', weight_decay='weight_decay', initial_accumulator_value='init_acc_val'), {}),
           sparse_adam=('SparseAdam', dict(eps='eps'), {}),
           adamax=('Adamax', dict(eps='eps', weight_decay='weight_decay'), {}),
           asgd=('ASGD', dict(lambd='lambd', alpha='asgd_alpha', t0='t0', weight_decay='weight_decay'), {}),
           lbfgs=('LBFGS', dict(max_iter='max_iter'), {}),
           rmsprop=('RMSprop', dict(alpha='rmsprop_alpha', eps='eps', weight_decay='weight_decay', momentum='momentum', centered='centered'), {}),
           rprop=('Rprop', {}, {}))
DEF = dict(momentum=0, beta1=.9, beta2=.99, rho=.9, eps=1e-8, weight_decay=0, amsgrad=False, nesterov=False, lambd=.0001,
           asgd_alpha=.75, t0=1000000., rmsprop_alpha=.99, centered=False, lr_decay=0, init_acc_val=0, max_iter=20)


@case(quick=300, mult=15)
def optimizers(ctx):
    """the optimizer that is named, with the options given, directly or by the command line"""
    import torch
    from hyperion.torch.helpers.optimizer_factory import OptimizerFactory as F
    kind = ctx.pick(sorted(OPT))
    o = {}
    for k, d in DEF.items():
        if ctx.flip(.4):
            o[k] = True if isinstance(d, bool) else ctx.int(1, 50) if k == 'max_iter' else float(ctx.rng.uniform(.01, .95))
    lr = float(ctx.rng.uniform(.001, 1))
    p = [torch.nn.Parameter(np.ones(ctx.int(1, 3))) for _ in range(ctx.int(1, 3))]
    line = ctx.flip()
    eff = dict(DEF, **o)
    if line:
        prefix = ctx.pick([None, 'opt'])
        ap = argparse.ArgumentParser()
        F.add_argparse_args(ap, prefix)
        ap.add_argument('--other', default=1)
        pre = '--' + (prefix + '-' if prefix else '')
        args = [pre + 'optimizer', kind.upper() if ctx.flip(.3) else kind, pre + 'lr', repr(lr)]
        for k, v in o.items():
            args += [pre + k.replace('_', '-')] + ([] if v is True else [repr(v)])
        a = F.filter_args(prefix, **vars(ap.parse_args(args)))
        ctx.check('other' not in a, 'options of others')
        for k, v in o.items():
            ctx.same(a[k], v, 'option ' + k)
        ctx.same((a['opt_type'], a['lr']), (kind, lr), 'optimizer named')
        eff = a
        opt = F.create(p, **a)
    else:
        opt = F.create(p, kind, lr, **o)
    name, m, fixed = OPT[kind]
    ctx.same(type(opt).__name__, name, 'kind of optimizer')
    g = opt.param_groups
    ctx.check(len(g) == 1 and len(g[0]['params']) == len(p) and all(x is y for x, y in zip(g[0]['params'], p)), 'parameters')
    ctx.same(g[0]['lr'], lr, 'learning rate')
    for k, v in m.items():
        ctx.same(g[0][k], eff[v], '%s of %s' % (k, kind))
    for k, v in fixed.items():
        ctx.same(g[0][k], v, '%s of %s' % (k, kind))
    if 'betas' in g[0]:
        ctx.same(tuple(g[0]['betas']), (eff['beta1'], eff['beta2']), 'betas of ' + kind)
    ctx.sig(kind, line, tuple(sorted(set(o) & set(m.values()))))


def bn(sd, k, x):
    return (x - sd[k + 'running_mean']) / np.sqrt(sd[k + 'running_var'] + 1e-5) * sd[k + 'weight'] + sd[k + 'bias']


@case(quick=200, mult=15)
def networks(ctx):
    """fully connected networks compute their layers in order; their configuration makes the same network again"""
    import torch
    import torch.nn as nn
    from hyperion.torch.archs import FCNetV1
    from hyperion.torch.helpers import ActivationFactory as AF
    fs = functions(ctx)
    n, d, k = ctx.int(1, 4), ctx.int(1, 5), ctx.int(1, 4)
    hid = [ctx.int(1, 5) for _ in range(n)] if ctx.flip() else ctx.int(1, 5)
    units = hid if isinstance(hid, list) else [hid] * n
    names = [x for x in sorted(fs) if x not in ('softmin', 'softmax', 'logsoftmax', 'threshold', 'prelu')]
    ha, oa = ctx.pick([None, 'relu'] + names), ctx.pick([None, None] + names)
    spell = lambda a: a if a is None else config_of(ctx, a, fs[a][0]) if ctx.flip(.7) or a not in DEFAULT_OK else a
    o = dict(use_batchnorm=ctx.flip(), dropout_rate=ctx.pick([0, 0, .5, .1]), without_output_layer=ctx.flip(.3),
             use_output_batchnorm=ctx.flip(.4), use_output_dropout=ctx.flip(.4))
    o = {a: b for a, b in o.items() if ctx.flip(.8)}
    np.random.seed(ctx.seedint() % 2 ** 31)
    hin = copy.deepcopy(hid)
    net = FCNetV1(n, d, hin, k, hid_act=spell(ha), output_act=spell(oa), **o)
    ctx.same(hin, hid, 'the list of units changed')
    q = dict(dict(use_batchnorm=True, dropout_rate=0, without_output_layer=False, use_output_batchnorm=False, use_output_dropout=False), **o)
    # parameters and running averages of some training
    for key, v in net.state_dict().items():
        v[...] = ctx.rng.rand(*v.shape) + .5 if 'running_var' in key else ctx.rng.randn(*v.shape)
    x = ctx.rng.randn(ctx.int(1, 6), d)
    net.eval()
    f = lambda a, y: y if a is None else fs[a][1](y)
    first = None
    for gen in range(ctx.int(1, 3)):
        sd = {a: np.asarray(b).copy() for a, b in net.state_dict().items()}
        want = x
        for i in range(n):
            if q['use_batchnorm']:
                want = bn(sd, 'batchnorm_layers.%d.' % i, want)
            want = want @ sd['fc_layers.%d.weight' % i].T + sd['fc_layers.%d.bias' % i]
            want = f(ha, want)
        if not q['without_output_layer']:
            if q['use_batchnorm']:
                want = bn(sd, 'batchnorm_layers.%d.' % n, want)
            want = f(oa, want @ sd['fc_layers.%d.weight' % n].T + sd['fc_layers.%d.bias' % n])
        if q['use_output_batchnorm']:
            want = bn(sd, 'output_batchnorm.', want)
        t = torch.tensor(x)
        got = np.asarray(net(t))
        ctx.same(got.shape, (len(x), units[-1] if q['without_output_layer'] else k), 'shape of the output')
        ctx.close(got, want, 'output of the network', rtol=1e-6, atol=1e-8, info=(q, ha, oa))
        ctx.same(np.asarray(t), x, 'the input changed')
        ctx.close(np.asarray(net(t)), got, 'output asked again', rtol=0, atol=0)
        ctx.same({a: np.asarray(b).tobytes() for a, b in net.state_dict().items()}, {a: b.tobytes() for a, b in sd.items()}, 'evaluation changed the network')
        c = net.get_config()
        ctx.same(c.get('class_name'), 'FCNetV1', 'name of the class')
        c = copy.deepcopy(c)
        c.pop('class_name')
        new = FCNetV1(**c)
        new.load_state_dict(net.state_dict())
        new.eval()
        ctx.close(np.asarray(new(torch.tensor(x))), got, 'output of the network of the configuration', rtol=1e-9, atol=1e-10)
        net = new
    # dropout acts where and when it has to
    if q['dropout_rate'] and len(x) > 1 and not q['use_batchnorm'] and not q['use_output_batchnorm']:
        net.train()
        drop = {id(m): m for m in net.modules() if isinstance(m, nn.Dropout)}
        ctx.same(len(drop), n + (1 if q['use_output_dropout'] and not q['without_output_layer'] else 0), 'layers of dropout')
        ctx.check(all(m.p == q['dropout_rate'] for m in drop.values()), 'rate of dropout')
        calls = []
        for m in drop.values():
            m.forward = lambda y, m=m: calls.append(id(m)) or y
        y = np.asarray(net(torch.tensor(x)))
        ctx.same(sorted(calls), sorted(drop), 'each dropout acts once', q)
    ctx.same(net.num_hid_layers, n, 'number of layers')
    ctx.raises(lambda: FCNetV1(0, d, 3, k), 'no hidden layer')
    ctx.raises(lambda: FCNetV1(n, d, units + [3], k), 'a wrong number of layers')
    ctx.sig(n, isinstance(hid, list), ha, oa, tuple(sorted(q.items())))
    ctx.sample(layers=n, hid_act=str(ha), output_act=str(oa))


@case(quick=100, mult=15)
def pieces(ctx):
    """saved models, dropout of whole channels, reshaping"""
    import torch
    import torch.nn as nn
    from hyperion.torch.torch_model import TorchModel
    from hyperion.torch.layers import Dropout1d
    from hyperion.torch.transforms import Reshape
    d, k = ctx.int(1, 4), ctx.int(1, 4)

    class Net(TorchModel):
        def __init__(self):
            super(Net, self).__init__()
            self.l = nn.Linear(d, k)

        def get_config(self):
            c = super(Net, self).get_config()
            c['d'] = d
            return c
    m = Net()
    sub = ctx.pick(['', 'new/', 'a/b/'])
    here = os.getcwd()
    os.chdir(ctx.tmp)
    try:
        name = ctx.path(sub + 'm.pth') if sub or ctx.flip() else 'm.pth'
        if sub and ctx.flip(.3):
            os.makedirs(sub)
        m.save(name)
        c = torch.load(name)
    finally:
        os.chdir(here)
    ctx.same(c['config'], {'class_name': 'Net', 'd': d}, 'configuration in the file')
    ctx.same(sorted(c['model_state_dict']), ['l.bias', 'l.weight'], 'parameters in the file')
    for a, b in m.state_dict().items():
        ctx.same(np.asarray(c['model_state_dict'][a]), np.asarray(b), 'parameter in the file')
    ctx.check(float(m.get_reg_loss()) == 0 and float(m.get_loss()) == 0, 'losses of the model')
    # dropout
    p = ctx.pick([0., .3, .5, .8])
    l = Dropout1d(p)
    n, ch, t = ctx.int(1, 6), ctx.int(1, 12), ctx.int(1, 6)
    x = ctx.rng.rand(n, ch, t) + .1
    l.eval()
    ctx.same(np.asarray(l(torch.tensor(x))), x, 'dropout in evaluation')
    l.train()
    np.random.seed(ctx.int(0, 10 ** 6))
    y = np.asarray(l(torch.tensor(x)))
    ctx.same(y.shape, x.shape, 'shape after dropout')
    r = y / x
    ctx.check(np.all(np.isclose(r, 0) | np.isclose(r, 1 / (1 - p))), 'values after dropout')
    ctx.check(np.allclose(r, r[:, :, :1]), 'a channel was dropped in part')
    if p == 0:
        ctx.same(y, x, 'no dropout')
    big = np.asarray(l(torch.tensor(np.ones((40, 50, 2)))))[:, :, 0]
    ctx.check(abs(np.mean(big == 0) - p) < .1, 'share of dropped channels', np.mean(big == 0), p)
    s = ctx.pick([(n, ch * t), (-1,), (n * ch, t), (t, ch, n)])
    ctx.same(np.asarray(Reshape(s)(torch.tensor(x))), x.reshape(s), 'reshaped')
    ctx.sig(sub, p, s.__len__())
