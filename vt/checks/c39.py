"""C39 learning rate schedules (hyperion/torch/lr_schedulers)"""
import argparse
import copy
import math
import os
import pickle
import sys
import numpy as np

from ..core import case

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'standin'))


def optimizer(ctx, lrs):
    import torch
    ps = [{'params': [torch.nn.Parameter(np.zeros(2))], 'lr': lr} for lr in lrs]
    return torch.optim.SGD(ps, lr=.5)


def lrs(opt):
    return [g['lr'] for g in opt.param_groups]


class Base(object):
    """what the documentation says, event by event"""
    on_batch = False

    def __init__(self, base, mins, o):
        self.base, self.mins, self.o = base, mins, o
        self.lr = list(base)
        self.epoch = self.batch = -1
        self.loose = False

    def each(self, f):
        self.lr = [f(b, m) for b, m in zip(self.base, self.mins)]

    def set(self, step):
        pass

    def begin(self, epoch):
        self.epoch = epoch
        if not self.on_batch:
            self.loose = False
            self.set(epoch)

    def step(self):
        self.batch += 1
        w = self.o['warmup_steps']
        if w and self.batch <= w:
            self.loose = False
            self.each(lambda b, m: m + (b - m) * self.batch / w)
        elif self.on_batch:
            self.loose = False
            self.set(self.batch)

    def end(self, metrics):
        pass


class Exp(Base):
    def __init__(self, base, mins, o):
        Base.__init__(self, base, mins, o)
        self.on_batch = o['update_lr_on_batch']

    def set(self, step):
        o = self.o
        self.each(lambda b, m: b if step < o['hold_steps'] else max(m, b * o['decay_rate'] ** ((step - o['hold_steps']) / o['decay_steps'])))


class Cos(Base):
    def __init__(self, base, mins, o):
        Base.__init__(self, base, mins, o)
        self.on_batch = o['update_lr_on_batch']
        self.T, self.t0, self.n = o['T'], 0, 0

    def set(self, step):
        o, x = self.o, step - self.t0
        if x >= self.T:
            if self.on_batch and o['warm_restarts'] and self.epoch == 0:
                self.loose = True       # the first period is at least an epoch long: where the rate is until then is not said
                return
            if not o['warm_restarts']:
                return self.each(lambda b, m: m)
            self.t0, x, self.T, self.n = step, 0, self.T * o['T_mul'], self.n + 1
        a, c = o['gamma'] ** self.n, (1 + math.cos(math.pi * x / self.T)) / 2
        self.each(lambda b, m: m + (a * b - m) * c)

    def end(self, metrics):
        if self.epoch == 0 and self.on_batch and self.o['warm_restarts']:
            n = self.batch + 1
            self.T = math.ceil(self.T / n) * n


class Plateau(Base):
    def __init__(self, base, mins, o):
        Base.__init__(self, base, mins, o)
        self.best, self.bad, self.cool = None, 0, 0

    def better(self, v):
        o, b = self.o, self.best
        if b is None:
            return True
        d = o['threshold'] * (b if o['threshold_mode'] == 'rel' else 1)
        return v < b - d if o['mode'] == 'min' else v > b + d

    def close(self, v):
        """the value lies at the threshold within rounding"""
        o, b = self.o, self.best
        if b is None or o['threshold'] == 0:
            return False
        d = o['threshold'] * (b if o['threshold_mode'] == 'rel' else 1)
        return abs(v - (b - d if o['mode'] == 'min' else b + d)) < 1e-9 * max(1, abs(v))

    def end(self, metrics):
        o, v = self.o, metrics[self.o['monitor']]
        if self.better(v):
            self.best, self.bad = v, 0
        else:
            self.bad += 1
        if self.cool:
            self.cool -= 1
            self.bad = 0
        if self.bad > o['patience']:
            for i, (l, m) in enumerate(zip(self.lr, self.mins)):
                n = max(l * o['factor'], m)
                if l - n > o['eps']:
                    self.lr[i] = n
            self.cool, self.bad = o['cooldown'], 0


REF = {'exp_lr': Exp, 'cos_lr': Cos, 'adamcos_lr': Cos, 'red_lr_on_plateau': Plateau}


def options(ctx, kind):
    o = dict(warmup_steps=ctx.pick([0, 0, 1, ctx.int(2, 12)]))
    if kind != 'adamcos_lr':
        o['min_lr'] = ctx.pick([0, 1e-3 * ctx.rng.rand()])
    if kind == 'red_lr_on_plateau':
        o.update(monitor=ctx.pick(['val_loss', 'acc']), mode=ctx.pick(['min', 'max']), factor=ctx.pick([.1, .5, ctx.rng.uniform(.05, .95)]),
                 patience=ctx.int(0, 3), threshold=ctx.pick([0, 1e-4, .05, .3]), threshold_mode=ctx.pick(['rel', 'abs']),
                 cooldown=ctx.int(0, 3), eps=ctx.pick([1e-8, 1e-8, 1e-3]))
    else:
        o['update_lr_on_batch'] = ctx.flip()
        if kind == 'exp_lr':
            o.update(decay_rate=ctx.pick([.5, .01, ctx.rng.uniform(.1, .99)]), decay_steps=ctx.int(1, 8), hold_steps=ctx.int(0, 8))
        else:
            o.update(T=ctx.int(1, 12), T_mul=ctx.int(1, 3), warm_restarts=ctx.flip(.7), gamma=ctx.pick([1, .5, ctx.rng.uniform(.3, 1)]))
    return o


def value(ctx, ref, mode):
    """metrics on a coarse grid, so that equal values occur"""
    for _ in range(50):
        v = ctx.pick([ctx.int(1, 12) / 8., ctx.rng.rand() + .1])
        if not (isinstance(ref, Plateau) and ref.close(v)):
            return v
    return 1.0


def make(ctx, kind, o, opt, mins):
    """by the class or by the factory"""
    from hyperion.torch.lr_schedulers import LRSchedulerFactory, ExponentialLR, CosineLR, AdamCosineLR, ReduceLROnPlateau
    how = ctx.pick(['factory', 'class'])
    if how == 'factory':
        # options of the other schedules mean nothing to this one
        p = {}
        for k in REF:
            if k != kind and ctx.flip(.4):
                p.update(options(ctx, k))
        p = {k: v for k, v in p.items() if k not in ('min_lr', 'warmup_steps', 'update_lr_on_batch')}
        p.update(o)
        if isinstance(mins, list):
            p['min_lr'] = mins
        return LRSchedulerFactory.create(opt, kind, **p), how
    c = dict(exp_lr=ExponentialLR, cos_lr=CosineLR, adamcos_lr=AdamCosineLR, red_lr_on_plateau=ReduceLROnPlateau)[kind]
    p = dict(o)
    if isinstance(mins, list):
        p['min_lr'] = mins
    return c(opt, **p), how


def restored(ctx, kind, o, opt, sch, mins, base):
    """a new scheduler of a new optimizer that takes up the states of the old ones"""
    st, so = pickle.loads(pickle.dumps((sch.state_dict(), opt.state_dict())))
    opt2 = optimizer(ctx, [x * 2 + 1 for x in base] if ctx.flip() else base)
    sch2, _ = make(ctx, kind, o, opt2, mins)
    opt2.load_state_dict(so)
    sch2.load_state_dict(st)
    return opt2, sch2


def counted(ctx, kind, o, opt, ref, mins, base):
    """a new scheduler that is told the counts of the old one, and an optimizer that takes up the state of the old one"""
    from hyperion.torch.lr_schedulers import ExponentialLR, CosineLR, AdamCosineLR
    so = pickle.loads(pickle.dumps(opt.state_dict()))
    opt2 = optimizer(ctx, base)
    if ctx.flip(.2):
        ctx.raises(lambda: ExponentialLR(opt2, .5, 1, 0, last_epoch=ref.epoch, last_batch=ref.batch), 'initial rates that are not known taken')
    opt2.load_state_dict(so)
    p = dict(o)
    if isinstance(mins, list):
        p['min_lr'] = mins
    p.update(last_epoch=ref.epoch, last_batch=ref.batch)
    if kind != 'exp_lr':
        p.update(T=ref.T, last_restart=ref.t0, num_restarts=ref.n)
    return opt2, dict(exp_lr=ExponentialLR, cos_lr=CosineLR, adamcos_lr=AdamCosineLR)[kind](opt2, **p)


def observe(ctx, ref, opt, where, o):
    got = lrs(opt)
    ctx.event('rates', len(got))
    if ref.loose:
        for g, b, m in zip(got, ref.base, ref.mins):
            ctx.check(min(b, m) - 1e-12 <= g <= b + 1e-12, 'rate out of bounds', where, got)
        return
    ctx.close(got, ref.lr, 'learning rate after %s' % where, rtol=1e-9, atol=1e-12,
              info='epoch %d batch %d %r' % (ref.epoch, ref.batch, o))


@case(quick=600, mult=15)
def schedules(ctx):
    """the rate of every group after every event of a training, also when it is taken up from a saved state"""
    kind = ctx.pick(sorted(REF))
    o = options(ctx, kind)
    groups = ctx.int(1, 3)
    base = [10 ** ctx.rng.uniform(-2, 0) for _ in range(groups)]
    mins = [1e-3 * ctx.rng.rand() for _ in base] if 'min_lr' in o and ctx.flip(.3) else o.get('min_lr', 0)
    opt = optimizer(ctx, base)
    sch, how = make(ctx, kind, o, opt, mins)
    ref = REF[kind](base, mins if isinstance(mins, list) else [mins] * groups, o)
    observe(ctx, ref, opt, 'creation', o)
    nb, stops = ctx.int(1, 7), 0
    for epoch in range(ctx.int(2, 14)):
        if ctx.flip():
            sch.epoch_begin_step(epoch)
        else:
            sch.epoch_begin_step()
        ref.begin(epoch)
        if not (o['warmup_steps'] and ref.batch < o['warmup_steps']):
            observe(ctx, ref, opt, 'the begin of an epoch', o)
        for _ in range(nb):
            sch.batch_step()
            ref.step()
            observe(ctx, ref, opt, 'a batch', o)
            ctx.same(bool(sch.in_warmup), bool(o['warmup_steps'] and ref.batch <= o['warmup_steps']), 'in warm-up')
        m = {k: value(ctx, ref, k) for k in ('val_loss', 'acc')}
        if kind == 'red_lr_on_plateau' or ctx.flip():
            sch.epoch_end_step(m)
        else:
            sch.epoch_end_step()
        ref.end(m)
        observe(ctx, ref, opt, 'the end of an epoch', o)
        if ctx.flip(.2):
            if kind != 'red_lr_on_plateau' and ctx.flip(.4):
                opt, sch = counted(ctx, kind, o, opt, ref, mins, base)
            else:
                opt, sch = restored(ctx, kind, o, opt, sch, mins, base)
            stops += 1
            observe(ctx, ref, opt, 'restoring', o)
    ctx.event('epochs', epoch + 1)
    ctx.sig(kind, how, o['warmup_steps'] > 0, o.get('update_lr_on_batch'), o.get('warm_restarts'), nb, stops, getattr(ref, 'n', 0))
    ctx.sample(kind=kind, batches=nb, epochs=epoch + 1, restored=stops)


@case(quick=150, mult=15)
def made_from_options(ctx):
    """the factory makes what the command line names, and wrong settings are refused"""
    from hyperion.torch.lr_schedulers import LRSchedulerFactory as F, ExponentialLR, CosineLR, AdamCosineLR, ReduceLROnPlateau
    cls = dict(exp_lr=ExponentialLR, cos_lr=CosineLR, adamcos_lr=AdamCosineLR, red_lr_on_plateau=ReduceLROnPlateau)
    prefix = ctx.pick([None, 'lrsch', 'opt'])
    p = argparse.ArgumentParser()
    F.add_argparse_args(p, prefix)
    p.add_argument('--other', default=3)
    if prefix and ctx.flip():
        F.add_argparse_args(p, 'second')
    kind = ctx.pick(sorted(REF) + ['none'])
    o = options(ctx, kind) if kind != 'none' else {}
    line = []
    for k, v in o.items():
        name = '--' + ('' if prefix is None else prefix + '-') + ('threshold_mode' if k == 'threshold_mode' else k.lower().replace('_', '-'))
        if isinstance(v, bool):
            line += [name] if v else []
        else:
            line += [name, repr(v) if not isinstance(v, str) else v]
    line += ['--' + ('' if prefix is None else prefix + '-') + 'lrsch-type', kind]
    a = F.filter_args(prefix, **vars(p.parse_args(line)))
    ctx.check('other' not in a and not any('second' in k for k in a), 'options of others were taken', sorted(a))
    for k, v in o.items():
        ctx.same(a[k], v, 'option ' + k)
    ctx.same(a['lrsch_type'], kind, 'kind of schedule')
    base = [10 ** ctx.rng.uniform(-2, 0)]
    opt = optimizer(ctx, base)
    sch = F.create(opt, **a)
    if kind == 'none':
        ctx.check(sch is None, 'a schedule although none was asked for', sch)
    else:
        ctx.check(type(sch) is cls[kind], 'another schedule was made', type(sch).__name__, kind)
        ctx.check(sch.optimizer is opt, 'the optimizer')
        ref = REF[kind](base, [o.get('min_lr', 0)], dict({k: v for k, v in a.items()}, **o))
        for e in range(3):
            sch.epoch_begin_step(e)
            ref.begin(e)
            for _ in range(2):
                sch.batch_step()
                ref.step()
            observe(ctx, ref, opt, 'a batch', o)
            m = dict(val_loss=1., acc=1.)
            sch.epoch_end_step(m)
            ref.end(m)
    ctx.raises(lambda: CosineLR('no optimizer', 3), 'something that is no optimizer')
    ctx.raises(lambda: CosineLR(optimizer(ctx, [.1, .2]), 3, min_lr=[.01] * ctx.pick([1, 3])), 'a wrong number of minima')
    ctx.raises(lambda: ReduceLROnPlateau(opt, factor=ctx.pick([1., 1.5])), 'a factor that does not reduce')
    ctx.raises(lambda: ReduceLROnPlateau(opt, mode='mean'), 'an unknown mode')
    ctx.raises(lambda: ReduceLROnPlateau(opt, threshold_mode='mean'), 'an unknown mode of the threshold')
    ctx.sig(kind, prefix, tuple(sorted(o)))
