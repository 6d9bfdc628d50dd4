"""C44 training with keras: what is minimised, what is frozen, learning rates, checkpoints, options"""
import argparse
import csv
import os
import types
import warnings
import numpy as np

from ..core import case
from .c42 import expected_log, params, L2PI
from .c43 import mods, xvector, qmodel, randomise, encoder


def training(ctx, cbs, metric, start=0, lr=1., more=None):
    """the events of a training; the rate of every epoch"""
    from keras import optimizers
    model = types.SimpleNamespace(optimizer=optimizers.SGD(lr=lr), stop_training=False)
    for cb in cbs:
        cb.set_params({})
        cb.set_model(model)
    rates = []
    for cb in cbs:
        cb.on_train_begin({})
    for i, logs in enumerate(metric):
        for cb in cbs:
            cb.on_epoch_begin(start + i, {})
        rates.append(float(np.asarray(model.optimizer.lr)))
        for cb in cbs:
            cb.on_batch_begin(0, {})
            cb.on_batch_end(0, {})
        l = dict(logs)
        for cb in cbs:
            cb.on_epoch_end(start + i, l)
        if more:
            more(start + i)
        if model.stop_training:
            break
    for cb in cbs:
        cb.on_train_end({})
    ctx.event('epochs', len(rates))
    return rates


def metrics(ctx, n, names):
    """values on a grid and far from the thresholds of the improvement"""
    step = ctx.pick([.01, .01, 3e-4, 3e-6])
    j = ctx.pick([0, .009]) if step == .01 else 0
    base = 0 if step == .01 else .5
    top = ctx.pick([12, 12, 100])
    return [{m: base + step * ctx.int(0, top) + 3 * ctx.flip(.1) + j * ctx.rng.uniform() for m in names} for _ in range(n)]


def better(mode, monitor, a, b, delta):
    if mode == 'min' or mode == 'auto' and 'acc' not in monitor:
        return a < b - delta
    return a > b + delta


def worst(mode, monitor):
    return np.inf if mode == 'min' or mode == 'auto' and 'acc' not in monitor else -np.inf


def plateau(metric, lr, monitor, red, inc, patience, mode, delta, cooldown, min_lr):
    """rate after every epoch"""
    best, bad, good, cool = worst(mode, monitor), 0, 0, 0
    out = []
    for m in metric:
        out.append(lr)
        c = m.get(monitor)
        if c is None:
            continue
        if cool > 0:
            cool -= 1
            bad = 0
        if better(mode, monitor, c, best, delta):
            best, bad = c, 0
            if inc is not None and cool == 0:
                good += 1
                if good >= patience:
                    lr, cool, good = lr * inc, cooldown, 0
        elif cool == 0:
            bad += 1
            if bad >= patience and lr > min_lr:
                lr, cool, bad = max(lr * red, min_lr), cooldown, 0
    return out


@case(quick=60, mult=4)
def rates(ctx):
    """steps of the learning rate; reductions on plateaus and increases on improvements"""
    from hyperion.keras.callbacks import LearningRateSteps, ReduceLROnPlateauIncreaseOnImprovement
    n, start = ctx.int(1, 25), ctx.pick([0, 0, 5])
    mon = ctx.pick(['val_loss', 'val_acc', 'x'])
    M = metrics(ctx, n, [mon, 'other'])
    steps = {ctx.int(0, n + start): ctx.rng.uniform(.01, 2) for _ in range(ctx.int(0, 4))}
    lr = ctx.pick([1., .1])
    r = training(ctx, [LearningRateSteps(dict(steps))], M, start, lr)
    want, cur = [], lr
    for e in range(start, start + n):
        cur = steps.get(e, cur)
        want.append(cur)
    ctx.close(np.array(r), np.array(want), 'rates are those of the steps', rtol=1e-6, info=(steps, start))
    for i in range(n):
        if ctx.flip(.1):
            del M[i][mon]
    o = dict(monitor=mon, red_factor=ctx.pick([.1, .5]), inc_factor=ctx.pick([1.1, 2.]), patience=ctx.int(1, 4), mode=ctx.pick(['auto', 'min', 'max']),
             cooldown=ctx.int(0, 4), min_lr=ctx.pick([0, .03]))
    delta = ctx.pick([1e-4, .025])
    name = 'min_delta' if ctx.flip(.8) else 'epsilon'
    ctx.sample(steps=str(steps), options=str(o), min_delta=delta)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cb = ReduceLROnPlateauIncreaseOnImprovement(**dict(o, **{name: delta}))
        for again in range(ctx.pick([1, 2])):
            r = training(ctx, [cb], M, 0, lr)
            want = plateau(M, lr, mon, o['red_factor'], o['inc_factor'], o['patience'], o['mode'], delta, o['cooldown'], o['min_lr'])
            ctx.close(np.array(r), np.array(want), 'rates follow the metric', rtol=1e-5, info=(o, delta, [m.get(mon) for m in M]))
    ctx.raises(lambda: ReduceLROnPlateauIncreaseOnImprovement(red_factor=ctx.pick([1., 2.])), 'a factor that does not reduce is refused')
    ctx.sig('rates', mon, o['mode'], o['patience'], o['cooldown'], len(set(want)) > 2, min(want) < lr, max(want) > lr)


class Recorder:
    """a model that notes where it was saved"""
    def __init__(self):
        self.files = []

    def save(self, f):
        self.files.append(f)


@case(quick=40, mult=4)
def checkpoints(ctx):
    """which epochs are saved, and where"""
    from hyperion.keras.callbacks import HypModelCheckpoint
    n, start = ctx.int(1, 15), ctx.pick([0, 4])
    mon = ctx.pick(['val_loss', 'val_acc', 'x'])
    mode = ctx.pick(['auto', 'min', 'max'])
    M = metrics(ctx, n, [mon])
    for i in range(n):
        if ctx.flip(.1):
            del M[i][mon]
    only, period = ctx.flip(), ctx.pick([1, 1, 2, 3])
    rec = Recorder()
    pat = ctx.pick(['d/model.{epoch:04d}', 'd/model.best'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cb = HypModelCheckpoint(rec, pat, monitor=mon, save_best_only=only, mode=mode, period=period)
        seen = []
        training(ctx, [cb], M, start, more=lambda e: seen.append(len(rec.files)))
    want, best, files = [], worst(mode, mon), []
    for i, m in enumerate(M):
        if (i + 1) % period == 0:
            ok = not only
            if only and mon in m and better(mode, mon, m[mon], best, 0):
                ok, best = True, m[mon]
            if ok:
                files.append(pat.format(epoch=start + i))
        want.append(len(files))
    ctx.sample(epochs=n, monitor=mon, mode=mode, best_only=only, period=period)
    ctx.same(rec.files, files, 'files that are written')
    ctx.same(seen, want, 'epochs at which they are written')
    ctx.event('checkpoints', len(files))
    ctx.sig('checkpoint', mon, mode, only, period, len(files) < n)


CB = dict(save_all_epochs=[True], monitor_mode=['min', 'max', 'auto'], lr_monitor_mode=['min', 'max', 'auto'], monitor=['val_loss', 'val_acc'], patience=[1, 2, 5],
          min_delta=[1e-3, .035], lr_monitor=['val_loss', 'loss', 'acc'], lr_patience=[1, 2, 4], lr_factor=[.2, .5], lr_red_factor=[.3, .6], lr_inc_factor=[1.5, 2.],
          min_lr=[.05, .001], log_append=[True])


@case(quick=60, mult=4)
def factory(ctx):
    """callbacks made from options, from the command line or not"""
    import keras.callbacks as kc
    from hyperion.keras.helpers import CallbacksFactory as F
    import hyperion.keras.callbacks as hc
    pre = ctx.pick([None, None, 'cb'])
    keys = [str(k) for k in ctx.rng.permutation(sorted(CB))[:ctx.int(0, len(CB))]]
    o = {k: ctx.pick(CB[k]) for k in keys}
    cmd = ctx.flip()
    defaults = dict(monitor='val_loss', lr_monitor=None, monitor_mode='auto', lr_monitor_mode='auto', patience=None, lr_patience=None, lr_factor=.1, lr_red_factor=None,
                    lr_inc_factor=None, min_delta=1e-4, min_lr=1e-7, save_all_epochs=False, log_append=False)
    if cmd:
        defaults.update(patience=100, lr_patience=10, min_lr=1e-5)
        p = argparse.ArgumentParser()
        F.add_argparse_args(p, pre) if pre else F.add_argparse_args(p)
        args = []
        for k, v in o.items():
            args.append('--' + (pre + '-' if pre else '') + k.replace('_', '-'))
            if v is not True:
                args.append(str(v))
        try:
            ns = vars(p.parse_args(args))
        except SystemExit:
            ctx.fail('options refused', args)
        ns['other'] = 1
        kw = F.filter_args(pre, **ns) if pre else F.filter_args(**ns)
    else:
        kw = dict(o)
    full = dict(defaults, **o)
    d = ctx.path('out')
    rec = Recorder()
    n = ctx.int(1, 15)
    steps = None
    if not cmd and ctx.flip(.3):
        steps = kw['lr_steps'] = {ctx.int(0, n): .7}
    if full['log_append'] and ctx.flip():
        os.makedirs(d)
        with open(d + '/train.log', 'w') as f:
            f.write('epoch,a\n0,1\n')
    old = os.path.exists(d)
    cbs = F.create_callbacks(rec, d, **kw)
    ctx.sample(options=str(full), command_line=cmd, epochs=n)
    M = metrics(ctx, n, ['val_loss', 'val_acc', 'loss', 'acc'])
    start = ctx.pick([0, 3])
    r = training(ctx, cbs, M, start)
    # early stopping
    stop, best, wait = n, None, 0
    if full['patience'] is not None:
        mode, mon = full['monitor_mode'], full['monitor']
        best = worst(mode, mon)
        for i in range(n):
            if better(mode, mon, M[i][mon], best, full['min_delta']):
                best, wait = M[i][mon], 0
            else:
                wait += 1
                if wait >= full['patience']:
                    stop = i + 1
                    break
    ctx.same(len(r), stop, 'epochs until the training stops')
    M = M[:stop]
    # checkpoints
    files, best = [], worst(full['monitor_mode'], full['monitor'])
    for i, m in enumerate(M):
        if full['save_all_epochs']:
            files.append(d + '/model.%04d' % (start + i))
        elif better(full['monitor_mode'], full['monitor'], m[full['monitor']], best, 0):
            best = m[full['monitor']]
            files.append(d + '/model.best')
    ctx.same([os.path.normpath(f) for f in rec.files], [os.path.normpath(f) for f in files], 'files of the checkpoints')
    # rates
    lm = full['lr_monitor'] or full['monitor']
    red = full['lr_factor'] if full['lr_red_factor'] is None else full['lr_red_factor']
    if steps is None:
        if full['lr_patience'] is None:
            want = [1.] * len(M)
        else:
            want = plateau(M, 1., lm, red, full['lr_inc_factor'], full['lr_patience'], full['lr_monitor_mode'], full['min_delta'], 0, full['min_lr'])
        ctx.close(np.array(r), np.array(want), 'rates are those of the options', rtol=1e-5, info=full)
    elif full['lr_patience'] is None:
        k = min(steps)
        ctx.close(np.array(r), np.where(np.arange(start, start + len(r)) >= k, .7, 1. ) if k >= start else np.ones(len(r)), 'rates are those of the steps', rtol=1e-6)
    # table
    with open(d + '/train.log') as f:
        rows = list(csv.reader(f))
    if old:
        ctx.same(rows[:2], [['epoch', 'a'], ['0', '1']], 'the table of the run before is kept')
        rows = rows[2:]
    else:
        ctx.check(rows[0][0] == 'epoch' and set(rows[0]) >= {'val_loss', 'acc'}, 'header of the table', rows[0])
        rows = rows[1:]
    ctx.same([x[0] for x in rows], [str(start + i) for i in range(len(M))], 'one row of the table for each epoch')
    ctx.event('callbacks', len(cbs))
    ctx.sig('factory', cmd, full['save_all_epochs'], full['patience'] is not None and stop < n, full['lr_inc_factor'] is not None, full['lr_patience'], old)


OPT = dict(lr=[.1, .01], momentum=[.3, .8], lr_decay=[1e-3, 1e-5], rho=[.8, .95], epsilon=[1e-5, 1e-7], amsgrad=[True], beta_1=[.8, .5], beta_2=[.99, .9, .3], clipnorm=[3., 7.], clipvalue=[11., 20.])
USES = dict(sgd=('SGD', ['lr', 'momentum', 'decay', 'nesterov']), nsgd=('SGD', ['lr', 'momentum', 'decay', 'nesterov']), rmsprop=('RMSprop', ['lr', 'rho', 'epsilon', 'decay']),
            adam=('Adam', ['lr', 'beta_1', 'beta_2', 'epsilon', 'decay', 'amsgrad']), nadam=('Nadam', ['lr', 'beta_1', 'beta_2', 'epsilon', 'schedule_decay']),
            adamax=('Adamax', ['lr', 'beta_1', 'beta_2', 'epsilon', 'decay']))


@case(quick=40, mult=4)
def optimizers(ctx):
    """optimizers made from options, from the command line or not"""
    from hyperion.keras.helpers import OptimizerFactory as F
    t = ctx.pick(sorted(USES))
    pre = ctx.pick([None, None, 'net'])
    keys = [str(k) for k in ctx.rng.permutation(sorted(OPT))[:ctx.int(0, len(OPT))]]
    o = {k: ctx.pick(OPT[k]) for k in keys}
    o.setdefault('lr', .05)
    cmd = ctx.flip(.6)
    if cmd:
        p = argparse.ArgumentParser()
        F.add_argparse_args(p, pre) if pre else F.add_argparse_args(p)
        args = ['--%soptimizer' % (pre + '-' if pre else ''), ctx.pick([t, t.upper()])]
        for k, v in o.items():
            args.append('--' + (pre + '-' if pre else '') + dict(beta_1='beta1', beta_2='beta2').get(k, k.replace('_', '-')))
            if v is not True:
                args.append(str(v))
        try:
            ns = vars(p.parse_args(args))
        except SystemExit:
            ctx.fail('options refused', args)
        ns['other'] = 1
        kw = F.filter_args(pre, **ns) if pre else F.filter_args(**ns)
    else:
        kw = dict(o, opt_type=t)
    opt = F.create_optimizer(**kw)
    name, uses = USES[t]
    ctx.sample(optimizer=t, options=str(o), command_line=cmd)
    ctx.check(type(opt).__name__ == name, 'class of the optimizer', type(opt), t)
    got = opt.get_config()
    for k in uses + ['clipnorm', 'clipvalue']:
        mine = dict(decay='lr_decay', schedule_decay='lr_decay').get(k, k)
        if k == 'nesterov':
            ctx.same(bool(got[k]), t == 'nsgd', 'Nesterov momentum')
        elif mine in o:
            ctx.close(np.array(float(got[k])), np.array(float(o[mine])), 'option %s of %s' % (k, t), rtol=1e-6)
    ctx.event('optimizers')
    ctx.sig('opt', t, cmd, 'amsgrad' in o, len(o))


# --- what is minimised -----------------------------------------------------------------------------------------------------------------------

def total(model, yt, yp):
    """the loss of each sequence that the compiled model names"""
    import keras
    losses = model.loss if isinstance(model.loss, list) else [model.loss]
    w = model.loss_weights or [1.] * len(losses)
    if not len(losses) == len(w) == len(yt) == len(yp):
        return None
    T = keras.backend.T
    return [float(a) * np.asarray(keras.objectives.get(l)(T(np.asarray(t, dtype=float)), T(np.asarray(p, dtype=float)))) for l, a, t, p in zip(losses, w, yt, yp)]


@case(quick=40, mult=3)
def objectives(ctx):
    """the sum of the losses is that of the model and its weights; what is frozen is not trained; what training is given"""
    keras, A, E, V = mods()
    from keras.optimizers import SGD
    which = ctx.pick(['x', 'q', 'dvae', 'sup', 'sup'])
    B = ctx.int(1, 3)
    opt = SGD(lr=.1)
    if which == 'x':
        m, ref, o = xvector(ctx)
        m.loss = ctx.pick(['categorical_crossentropy', 'categorical_mbr'])
    else:
        m, ref, o = qmodel(ctx, which, context=False)
    r, nout = o['r'], o['nout']
    if which == 'sup':
        while r > 1:
            m, ref, o = qmodel(ctx, which, context=False)
            r, nout = o['r'], o['nout']
        m.px_weight, m.pt_weight, m.kl_qy_weight, m.kl_qz_weight = [ctx.pick([.5, 1., 2.]) for _ in range(4)]
        m.px_form = ctx.pick(['normal_diag_cov', 'bernoulli', 'categorical'])
        if m.px_form != 'normal_diag_cov':
            z = m.z_dim
            m.px_net = A.TDNNV1WithEmbedInputV1(1, 1, m.x_dim, 3, 3, m.y_dim, z, 1, name='px2', output_activation='sigmoid' if m.px_form == 'bernoulli' else 'softmax')
    elif which != 'x':
        m.kl_weight = ctx.pick([.5, 1., 3.])
    fixed = which == 'sup' and ctx.flip()
    if fixed:
        m.qz_fmt, m.qz_min_var = ctx.pick(['nat', 'mean']) + '+' + ctx.pick(['logitvar', 'logprec-1', 'logvar', 'logprec']), ctx.pick([.01, .2])
        for l in m.qz_net.layers:
            w = l.get_weights()
            if len(w) == 2 and w[0].ndim == 2:
                l.set_weights([w[0] * 0, ctx.rng.uniform(-2, 2, w[1].shape)])
    T = r * ctx.int(1, 5)
    m.build(T)
    if which == 'x':
        met = ctx.pick([None, ['accuracy']])
        m.compile(metrics=met, optimizer=opt)
        ctx.same(m.model.metrics, met, 'metrics')
    else:
        m.compile(optimizer=opt)
    ctx.check(m.model.optimizer is opt, 'optimizer of the training')
    x = ctx.rng.standard_normal((B, T, o['d']))
    if which == 'sup' and m.px_form != 'normal_diag_cov':
        x = (x > 0).astype(float)
        x[..., 0] = 1
        if m.px_form == 'categorical':
            x = np.eye(o['d'])[ctx.rng.randint(0, o['d'], (B, T))]
    t = np.eye(nout or 1)[ctx.rng.randint(0, nout or 1, B)]
    ctx.sample(model=m.__class__.__name__, length=T, batch=B, classes=nout)
    yp = m.model.predict(x, batch_size=B)
    yp = [np.asarray(a) for a in (yp if isinstance(yp, list) else [yp])]
    # what fit hands over
    seen = {}
    m.model.fit = lambda *a, **k: seen.update(a=a, k=k)
    m.model.fit_generator = lambda *a, **k: seen.update(ga=a, gk=k)
    if which == 'sup':
        val = ctx.flip()
        xv, tv = x[:1], t[:1]
        a = dict(x_val=xv) if val else {}
        if nout:
            a.update(dict(t=t), **(dict(t_val=tv) if val else {}))
        m.fit(x, epochs=3, **a)
        X, Y = seen['a'][:2]
        v = seen['k'].get('validation_data')
        ctx.check(seen['k'].get('epochs') == 3, 'options of the training')
        ctx.check((v is not None) == val, 'validation data are passed')
        for (u, w, n) in [((X, Y), (x, t), B)] + ([(v, (xv, tv), 1)] if val else []):
            ctx.close(np.asarray(u[0]), w[0], 'input of the training', rtol=1e-6)
            ctx.check(len(u[1]) == len(yp), 'one target for each output', len(u[1]), len(yp))
            ctx.close(np.asarray(u[1][0]), w[0], 'target of the reconstruction', rtol=1e-6)
            if nout:
                ctx.close(np.asarray(u[1][1]), w[1], 'target of the class', rtol=1e-6)
            for k in u[1][-2:]:
                ctx.check(np.asarray(k).shape[0] == n and not np.any(k), 'targets of the divergences')
        yt = [np.asarray(a) for a in Y]
    else:
        yt = [t] + [np.zeros((B, 1))] * (len(yp) - 1)
        if which == 'x':
            m.fit(x, t, epochs=3)
            ctx.check(len(seen['a']) == 2 and seen['a'][0] is x and seen['a'][1] is t and seen['k'].get('epochs') == 3, 'data of the training')
        else:
            m.fit(x=x, y=yt, epochs=3)
            ctx.check(seen['k'].get('x') is x and seen['k'].get('y') is yt and seen['k'].get('epochs') == 3, 'data of the training')
    g = object()
    m.fit_generator(g, 7, epochs=4)
    ctx.check(seen['ga'][0] is g and (seen['ga'][1:] == (7,) or seen['gk'].get('steps_per_epoch') == 7) and seen['gk'].get('epochs') == 4, 'generator of the training')
    got = total(m.model, yt, yp)
    ctx.check(got is not None, 'one loss and weight for each output')
    xent = -np.log(np.maximum((t * yp[1 if which == 'sup' else 0]).sum(-1), 1e-300)) if nout else None
    if which == 'x':
        want = [xent if m.loss != 'categorical_mbr' else 1 - (t * yp[0]).sum(-1)]
    elif which != 'sup':
        h = [np.asarray(a) for a in (m.prepool_net if which == 'q' else m.qy_net).predict(x, batch_size=B)]
        want = [xent, m.kl_weight * np.array([kld(ref(h[0][i], h[1][i])) for i in range(B)])]
    else:
        h = [np.asarray(a) for a in m.qy_net.predict(x, batch_size=B)]
        p = yp[0]
        if m.px_form == 'normal_diag_cov':
            mu, lv = p[..., :o['d']], p[..., o['d']:]
            nl = .5 * (L2PI + lv + (x - mu) ** 2 / np.exp(lv)).sum(-1)
        elif m.px_form == 'bernoulli':
            nl = -(x * np.log(p) + (1 - x) * np.log(1 - p)).sum(-1)
        else:
            nl = -(x * np.log(p)).sum(-1)
        want = [m.px_weight * nl * real(x)] + ([m.pt_weight * xent] if nout else []) + [m.kl_qy_weight * np.array([kld(ref(h[0][i], h[1][i])) for i in range(B)]), m.kl_qz_weight * yp[-1]]
        if fixed:
            # posteriors of the frames that do not depend on the sample of the sequence
            p1, p2 = [np.asarray(a) for a in m.qz_net.predict([x, np.zeros((B, T, m.y_dim))], batch_size=B)]
            mu, v = natural(p1, p2, m.qz_fmt, m.qz_min_var)
            want[-1] = m.kl_qz_weight * T * (expected_log(mu, v, mu, v) - expected_log(mu, v, 0, np.ones_like(v)))
    # probabilities that keras clips are not compared
    pc = yp[1 if which == 'sup' else 0] if nout else None
    ok = [np.ones(np.size(b), bool) for b in want]
    if nout:
        ok[1 if which == 'sup' else 0] = pc.min(-1) > 1e-5
    if which == 'sup' and m.px_form != 'normal_diag_cov':
        ok[0] = ((yp[0].min(-1) > 1e-5) & ((yp[0].max(-1) < 1 - 1e-5) | (m.px_form == 'categorical'))).ravel()
    for i, (a, b) in enumerate(zip(got, want)):
        ctx.check(np.size(a) == np.size(b), 'one value of loss %d of %d for each target' % (i, len(want)))
        ctx.close(np.ravel(a)[ok[i]], np.ravel(b)[ok[i]], 'loss %d of %d' % (i, len(want)), rtol=1e-4, atol=1e-4, info=(which, getattr(m, 'px_form', '')))
    # freezing
    net = m.enc_net if which == 'x' else m.prepool_net if which == 'q' else m.qy_net
    names = [l.name for l in net.layers if l.get_weights()]
    some = [str(s) for s in ctx.rng.permutation(names)[:ctx.int(1, len(names))]]
    ctx.check(all(l.trainable for l in net.layers) and net.trainable, 'everything is trained')
    (m.freeze_enc_net_layers if which == 'x' else m.freeze_embed_layers)(some)
    ctx.same(sorted(l.name for l in net.layers if not l.trainable), sorted(some), 'layers that are frozen')
    if which == 'x':
        m.freeze_pt_net_layers(['fc-0'])
        ctx.same([l.name for l in m.pt_net.layers if not l.trainable], ['fc-0'], 'layers of the classifier that are frozen')
    ctx.check(net.trainable, 'the network is trained')
    (m.freeze_enc_net if which == 'x' else m.freeze_embed)()
    ctx.check(not net.trainable, 'the network is frozen')
    ctx.event('objectives', len(want))
    ctx.sig('objective', which, r, nout, getattr(m, 'px_form', ''), getattr(m, 'loss', ''))


def natural(p1, p2, fmt, mv):
    """mean and variance of posteriors in the format, narrower than the prior"""
    a, b = fmt.split('+', 1)
    if b in ('logitvar', 'logprec-1'):
        v = mv + (1 - mv) / (1 + np.exp(-p2 if b == 'logitvar' else p2))
    else:
        v = np.clip(np.exp(p2 if b == 'logvar' else -p2), mv, 1)
    return (p1 * v if a == 'nat' else p1), v


def kld(q):
    eta, prec = q
    return expected_log(eta / prec, 1 / prec, eta / prec, 1 / prec) - expected_log(eta / prec, 1 / prec, 0, np.ones_like(prec))


def real(x):
    return x.shape[1]
