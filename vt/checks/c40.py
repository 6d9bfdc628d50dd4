"""C40 training loop, metrics and logs (hyperion/torch)"""
import csv
import logging
import os
import re
import sys
import time
from collections import OrderedDict
import numpy as np

from ..core import case

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'standin'))


class Stop(Exception):
    """the process dies here"""


class Data(object):
    """batches of one data set; the order depends on nothing but the epoch, and it can die at a given batch"""
    def __init__(self, batches, die=None):
        self.batches, self.die, self.epoch = batches, die, 0
        self.dataset = np.concatenate([b[0] for b in batches])
        self.seen = []

    def __iter__(self):
        import torch
        for i, (x, y) in enumerate(self.batches):
            if self.die == (self.epoch, i):
                raise Stop()
            self.seen.append((self.epoch, i))
            yield torch.tensor(x), torch.tensor(y)
        self.epoch += 1

    def __len__(self):
        return len(self.batches)


def parts(ctx, dim, out):
    """a linear model with state of its own (like batch normalization), its loss and its optimizer"""
    import torch
    import torch.nn as nn

    class Model(nn.Module):
        def __init__(self, w):
            super(Model, self).__init__()
            self.w = nn.Parameter(w)
            self.register_buffer('seen', torch.tensor(np.zeros(1)))
            self.modes = []

        def forward(self, x):
            self.modes.append((self.training, torch.is_grad_enabled()))
            if self.training:
                self.seen.add_(x.size(0))
            y = torch.tensor(np.asarray(x) @ np.asarray(self.w))
            y._x, y._w = np.asarray(x), self.w
            return y

    class Loss(nn.Module):
        def __init__(self):
            super(Loss, self).__init__()
            self.register_buffer('calls', torch.tensor(np.zeros(1)))

        def forward(self, output, target):
            if torch.is_grad_enabled():
                self.calls.add_(1)
            d = np.asarray(output) - np.asarray(target)
            l = torch.tensor(np.mean(d ** 2))

            def back():
                g = output._x.T @ (2 * d / d.size)
                p = output._w
                p.grad = torch.tensor(g) if p.grad is None else p.grad + torch.tensor(g)
            if torch.is_grad_enabled():
                l._backward = back
            return l
    return Model, Loss


def sgd(w, batches, lr, mom, buf, sched, epoch, metric):
    """one epoch of the reference; returns what the log has to say"""
    acc, n, w = {}, 0, w.copy()
    sched and sched.begin(epoch)
    for x, y in batches:
        if sched:
            sched.step()
            lr = sched.lr[0]
        d = x @ w - y
        m = dict(loss=np.mean(d ** 2), **{k: f(x @ w, y) for k, f in metric.items()})
        g = x.T @ (2 * d / d.size)
        buf = g if buf is None else mom * buf + g
        w = w - lr * (buf if mom else g)
        n += len(x)
        for k, v in m.items():
            acc[k] = acc.get(k, 0) + v * len(x)
    return w, lr, buf, {k: v / n for k, v in acc.items()}


def evaluate(w, batches, metric):
    acc, n = {}, 0
    for x, y in batches:
        m = dict(loss=np.mean((x @ w - y) ** 2), **{k: f(x @ w, y) for k, f in metric.items()})
        n += len(x)
        for k, v in m.items():
            acc[k] = acc.get(k, 0) + v * len(x)
    return {k: v / n for k, v in acc.items()}


def recorder():
    from hyperion.torch.loggers import Logger

    class Recorder(Logger):
        def __init__(self):
            super(Recorder, self).__init__()
            self.log = []

        def on_train_begin(self, logs=None, **kw):
            self.log.append(('train', kw.get('epochs')))

        def on_epoch_begin(self, epoch, logs=None, **kw):
            super(Recorder, self).on_epoch_begin(epoch, logs, **kw)
            self.log.append(('epoch', epoch, kw.get('samples')))

        def on_batch_begin(self, batch, logs=None, **kw):
            super(Recorder, self).on_batch_begin(batch, logs, **kw)
            self.log.append(('batch', batch))

        def on_batch_end(self, logs=None, **kw):
            self.log.append(('batch end', self.cur_batch, dict(logs), kw.get('batch_size')))

        def on_epoch_end(self, logs=None, **kw):
            self.log.append(('epoch end', self.cur_epoch, dict(logs)))

        def on_train_end(self, logs=None, **kw):
            self.log.append(('end',))
    return Recorder()


def batches_of(ctx, dim, out, w):
    n = ctx.int(1, 5)
    size = ctx.int(2, 6)
    l = []
    for i in range(n):
        k = size if i < n - 1 else ctx.int(1, size)
        x = ctx.rng.randn(k, dim)
        l.append((x, x @ w + .1 * ctx.rng.randn(k, out)))
    return l


@case(quick=150, mult=15)
def training(ctx):
    """epochs, events, logs, checkpoints; a training that died goes on from its last checkpoint to the same end"""
    import torch
    from hyperion.torch.torch_trainer import TorchTrainer
    from hyperion.torch.loggers import LoggerList, CSVLogger
    from . import c39
    dim, out = ctx.int(1, 4), ctx.int(1, 3)
    Model, Loss = parts(ctx, dim, out)
    w0, wt = ctx.rng.randn(dim, out), ctx.rng.randn(dim, out)
    tr = batches_of(ctx, dim, out, wt)
    val = batches_of(ctx, dim, out, wt) if ctx.flip(.7) else None
    epochs = ctx.int(1, 6)
    start = ctx.pick([0, 0, 0, 0, ctx.int(0, epochs - 1)])      # a training may be told to begin at a later epoch
    lr0, mom = ctx.rng.uniform(.01, .1), ctx.pick([0, .5])
    kind = ctx.pick([None] + sorted(c39.REF))
    o = c39.options(ctx, kind) if kind else {}
    if kind == 'red_lr_on_plateau':
        o.update(monitor=ctx.pick(['loss'] + (['val_loss'] if val else [])), mode='min', threshold=.3)
    mae = lambda p, y: np.mean(np.abs(np.asarray(p) - np.asarray(y)))
    metric = OrderedDict([('mae', mae)] + ([('bias', lambda p, y: np.mean(np.asarray(p) - np.asarray(y)))] if ctx.flip() else []))
    if ctx.flip(.2):
        metric = OrderedDict()
    exp = ctx.path('exp/run')

    def trainer(ep, how, data=None, cur=0):
        m = Model(w0)
        opt = torch.optim.SGD(m.parameters(), lr0, momentum=mom)
        sch = c39.make(ctx, kind, o, opt, o.get('min_lr', 0))[0] if kind else None
        r = recorder()
        lg = {'list': [r], 'loggers': LoggerList([r]), 'default': None, 'csv': [r, CSVLogger(exp + '/log.csv', append=cur > 0)]}[how]
        kw = dict(metrics=dict(metric)) if metric or ctx.flip() else {}
        t = TorchTrainer(m, opt, Loss(), ep, exp, cur_epoch=cur, device=ctx.pick([None, torch.device('cpu')]), lr_scheduler=sch, loggers=lg, **kw)
        if how == 'default':
            t.loggers.append(r)
        return t, m, opt, r

    # the reference
    ref = c39.REF[kind]([lr0], [o.get('min_lr', 0)], o) if kind else None
    w, lr, buf, logs, ws, lrs = w0, lr0, None, [None] * start, [w0] * start, [lr0] * start
    for e in range(start, epochs):
        w, lr, buf, l = sgd(w, tr, lr, mom, buf, ref, e, metric)
        l['lr'] = lr
        if val:
            l.update({'val_' + k: v for k, v in evaluate(w, val, metric).items()})
        if ref:
            if kind == 'red_lr_on_plateau' and ref.close(l[o['monitor']]):
                return
            ref.end(l)
            if ref.loose:
                return      # where the rate is then is not said
            lr = ref.lr[0]
        logs.append(l)
        ws.append(w)
        lrs.append(lr)
    if not np.all(np.isfinite(w)) or np.max(np.abs(w)) > 1e6:
        return

    how = ctx.pick(['list', 'loggers', 'default', 'csv'])
    crash = (ctx.int(start, epochs - 1), ctx.int(0, len(tr) - 1)) if ctx.flip(.6) else None
    goals = [epochs] * 3
    if not crash and ctx.flip(.5):
        goals[0] = ctx.int(start, epochs)       # trained longer later on
    done = start
    for attempt in range(3):
        data, vdata = Data(tr, crash if attempt == 0 else None), Data(val) if val else None
        data.epoch = done
        goal = goals[attempt]
        t, m, opt, r = trainer(goal, how, cur=done)
        if attempt:
            got = t.load_last_checkpoint()
            if done == start:
                ctx.check(got is None, 'a checkpoint that nobody wrote', got)
            else:
                ctx.same(t.cur_epoch, done, 'epoch of the last checkpoint')
                if ctx.flip(.5):
                    k = ctx.int(start + 1, done)
                    got = t.load_checkpoint('%s/model_ep%04d.pth' % (exp, k))
                    ctx.same(t.cur_epoch, k, 'epoch of a checkpoint')
                    if k != done:
                        t.load_last_checkpoint()
                        got = t.load_checkpoint('%s/model_ep%04d.pth' % (exp, done))
                look_logs(ctx, got, logs[done - 1], 'logs of the checkpoint')
                ctx.close(np.asarray(m.w), ws[done - 1], 'weights of the checkpoint', rtol=1e-9, atol=1e-11)
                ctx.close(opt.param_groups[0]['lr'], lrs[done - 1], 'learning rate of the checkpoint', rtol=1e-9, atol=1e-12)
                ctx.same(float(np.asarray(m.seen)[0]), float((done - start) * sum(len(b[0]) for b in tr)), 'state of the model')
                ctx.same(float(np.asarray(t.loss.calls)[0]), float((done - start) * len(tr)), 'state of the loss')
        root = logging.getLogger()
        level = root.level
        lines, hand = [], None
        if how == 'default':
            hand = logging.Handler()
            hand.emit = lambda rec: lines.append(rec.getMessage())
            root.addHandler(hand)
            root.setLevel(logging.INFO)
        try:
            if attempt == 0 and crash:
                try:
                    t.fit(data, vdata)
                    ctx.fail('a training that dies returned')
                except Stop:
                    pass
            else:
                t.fit(data, vdata) if val or ctx.flip() else t.fit(data)
        finally:
            if hand:
                root.removeHandler(hand)
                root.setLevel(level)
        first, last = done, crash[0] if attempt == 0 and crash else goal
        stop = crash[1] if attempt == 0 and crash else None
        look_events(ctx, r.log, first, last, stop, tr, val, logs, goal, list(metric))
        nv = len(val) if val else 0
        want = ([(True, True)] * len(tr) + [(False, False)] * nv) * (last - first) + [(True, True)] * (stop or 0)
        ctx.same(m.modes, want, 'training and evaluation of the model')
        done = last
        files = sorted(os.listdir(exp)) if os.path.isdir(exp) else []
        ctx.same([f for f in files if f.endswith('.pth')], ['model_ep%04d.pth' % (i + 1) for i in range(start, done)], 'checkpoints')
        if how in ('default', 'csv') and done > start:
            f = exp + ('/train.log' if how == 'default' else '/log.csv')
            look_csv(ctx, f, logs[start:done], range(start + 1, done + 1))
        if how == 'default' and done > first:
            for e in range(first, last):
                ctx.check(any(x.startswith('epoch: %d/%d ' % (e + 1, goal)) and ' loss: %.6f' % 0 not in x for x in lines), 'progress of an epoch', e)
        if done == epochs and ctx.flip(.7):
            break
    ctx.close(np.asarray(m.w), ws[-1], 'weights at the end', rtol=1e-9, atol=1e-11)
    ctx.event('epochs trained', epochs)
    ctx.sig(kind, how, crash is not None, goals[0] < epochs, start > 0, val is not None, len(tr), epochs)
    ctx.sample(schedule=str(kind), epochs=epochs, batches=len(tr), died=str(crash))


def look_logs(ctx, got, want, label):
    ctx.same(sorted(got), sorted(want), 'names in ' + label)
    for k, v in want.items():
        ctx.close(float(got[k]), v, label + ': ' + k, rtol=1e-7, atol=1e-9)


def look_events(ctx, log, first, last, stop, tr, val, logs, epochs, names):
    """the trace is that of whole epochs, one after the other, each of its batches once"""
    ctx.event('events', len(log))
    ns = sum(len(b[0]) for b in tr)
    want = [('train', epochs)]
    for e in range(first, last + (stop is not None)):
        want.append(('epoch', e, ns))
        for b in range(len(tr)):
            if stop is not None and e == last and b == stop:
                break
            want += [('batch', b), ('batch end', b, len(tr[b][0]))]
        if e < last:
            want.append(('epoch end', e))
    if stop is None:
        want.append(('end',))
    got = [x[:2] + x[3:] if x[0] == 'batch end' else x[:2] if x[0] == 'epoch end' else x for x in log]
    ctx.same(got, want, 'order of events')
    for x in log:
        if x[0] == 'epoch end':
            look_logs(ctx, x[2], logs[x[1]], 'logs of an epoch')
        if x[0] == 'batch end':
            ctx.same(sorted(x[2]), sorted(['loss', 'lr'] + names), 'names in the logs of a batch')
    # the logs after the last batch of an epoch are those of the epoch
    e = first
    for a, b in zip(log, log[1:]):
        if a[0] == 'batch end' and b[0] == 'epoch end':
            for k, v in a[2].items():
                ctx.close(float(v), logs[b[1]][k], 'logs after the last batch: ' + k, rtol=1e-7, atol=1e-9)


def look_csv(ctx, f, logs, nums, sep=','):
    with open(f, newline='') as g:
        rows = list(csv.reader(g, delimiter=sep))
    ctx.same(rows[0][0], 'epoch', 'header of the table')
    ctx.same(sorted(rows[0][1:]), sorted(logs[0]), 'columns of the table')
    ctx.same([r[0] for r in rows[1:]], [str(i) for i in nums], 'rows of the table', f)
    for r, l in zip(rows[1:], logs):
        ctx.same(len(r), len(rows[0]), 'length of a row')
        for k, v in zip(rows[0][1:], r[1:]):
            ctx.close(float(v), l[k], 'table: ' + k, rtol=1e-7, atol=1e-9)


@case(quick=250, mult=15)
def averages(ctx):
    """accumulated metrics are the averages over all samples"""
    from hyperion.torch.utils import MetricAcc
    m = MetricAcc()
    names = ['m%d' % i for i in range(ctx.int(1, 4))]
    for rnd in range(ctx.int(1, 3)):
        vals, ns = [], []
        for _ in range(ctx.int(1, 12)):
            v = OrderedDict((k, ctx.rng.randn() * 10 ** ctx.int(-2, 2)) for k in ctx.rng.permutation(names))
            if not vals and not rnd:
                v = OrderedDict((k, v[k]) for k in names)
            n = ctx.int(1, 64)
            if ctx.flip(.2):
                n = 1
                m.update(v)
            else:
                m.update(v, n)
            vals.append(v)
            ns.append(n)
            g = m.metrics
            ctx.same(list(g), names, 'names of the metrics')
            for k in names:
                ctx.close(g[k], np.average([x[k] for x in vals], weights=ns), 'average', rtol=1e-8, atol=1e-8)
        before = dict(g)
        m.reset()
        ctx.check(all(g[k] == before[k] for k in names), 'averages handed out changed')
    ctx.sig(len(names), len(vals), rnd)


@case(quick=300, mult=15)
def accuracies(ctx):
    """accuracy with weights and reductions"""
    import torch
    from hyperion.torch.metrics import CategoricalAccuracy, BinaryAccuracy, BinaryAccuracyWithLogits
    from hyperion.torch.metrics.accuracy_functional import categorical_accuracy, binary_accuracy, binary_accuracy_with_logits
    n, c = ctx.int(1, 12), ctx.int(1, 5)
    w = ctx.rng.rand(n) + .1 if ctx.flip() else None
    red = ctx.pick(['mean', 'sum', 'none'])
    tw = None if w is None else torch.tensor(w)
    what = ctx.pick(['categorical', 'binary', 'logits'])
    x = ctx.rng.randn(n, c)
    if what == 'categorical':
        y = ctx.rng.randint(0, c, n)
        if ctx.flip(.5):
            y = np.where(ctx.rng.rand(n) < .5, x.argmax(1), y)
        ty = torch.tensor(np.eye(c)[y]) if ctx.flip(.3) and c > 1 else torch.tensor(y)
        ok = (x.argmax(1) == y).astype(float)
        f = (lambda a, b: categorical_accuracy(a, b, weight=tw, reduction=red)) if ctx.flip() else CategoricalAccuracy(tw, red)
        W = w
    else:
        thr = ctx.pick([.5, .3, 0.])
        x = x if what == 'logits' else ctx.rng.rand(n, c)
        y = (ctx.rng.rand(n, c) < .5).astype(float)
        ty = torch.tensor(y)
        F, C = (binary_accuracy, BinaryAccuracy) if what == 'binary' else (binary_accuracy_with_logits, BinaryAccuracyWithLogits)
        h = ctx.int(0, 2)
        if h == 0:
            thr = .5 if what == 'binary' else 0
            f = lambda a, b: F(a, b, weight=tw, reduction=red)
        elif h == 1:
            f = lambda a, b: F(a, b, weight=tw, reduction=red, thr=thr)
        else:
            f = C(tw, red, thr)
        ok = ((x > thr) == (y > .5)).astype(float)
        W = w
        if w is not None and ctx.flip(.3):
            W = ctx.rng.rand(n, c) + .1
            tw2 = torch.tensor(W)
            f = lambda a, b: F(a, b, weight=tw2, reduction=red, thr=thr)
    tx = torch.tensor(x)
    got = f(tx, ty)
    ctx.same(np.asarray(tx), x, 'the scores changed')
    if red == 'none':
        ctx.same(np.asarray(got), ok, 'right decisions')
    else:
        ww = np.ones(ok.shape) if W is None else np.broadcast_to(W.reshape(W.shape + (1,) * (ok.ndim - W.ndim)), ok.shape)
        want = np.sum(ok * ww) / (np.sum(ww) if red == 'mean' else 1)
        ctx.check(isinstance(got, float), 'the accuracy is no number', type(got))
        ctx.close(got, want, 'accuracy', rtol=1e-5, atol=1e-6)
    if W is not None:
        ctx.same(np.asarray(tw), w, 'the weights changed')
    bad = torch.tensor(x[:-1]) if n > 1 else torch.tensor(np.concatenate((x, x)))
    ctx.raises(lambda: f(bad, ty), 'a wrong number of scores', what)
    ctx.raises(lambda: f(torch.tensor(x[:, 0]), torch.tensor(y[:1] if n > 1 else y)), 'scores of one dimension', what)
    ctx.sig(what, red, w is not None, n > 1, c > 1)


@case(quick=150, mult=15)
def progress(ctx):
    """lines of the progress logger and rows of the table of the csv logger, driven by any sequence of events"""
    from hyperion.torch.loggers import ProgLogger, CSVLogger, LoggerList
    interval = ctx.int(1, 4)
    shown = ctx.pick([None, ['a'], ['a', 'c']])
    prog = ProgLogger(metrics=shown, interval=interval)
    sep = ctx.pick([',', '\t', ' '])
    sub = ctx.pick(['', 'new/', 'x/y/'])
    f = ctx.path(sub + 'log.csv')
    rows, nums, keys = [], [], ['a', 'b', 'c'][:ctx.int(1, 3)]
    old = ctx.pick([None, 'empty', 'run'])
    app = ctx.flip()
    here = os.getcwd()
    if old and sub:
        os.makedirs(os.path.dirname(f))
    if old == 'empty':
        open(f, 'w').close()
    lines = []
    root = logging.getLogger()
    level = root.level
    hand = logging.Handler()
    hand.emit = lambda rec: lines.append(rec.getMessage())
    root.addHandler(hand)
    root.setLevel(logging.INFO)
    os.chdir(ctx.tmp)
    try:
        if old == 'run':
            c = CSVLogger(f, sep=sep)
            c.on_train_begin()
            c.on_epoch_begin(0, {})
            l = {k: ctx.rng.randn() for k in keys}
            c.on_epoch_end(l)
            c.on_train_end()
            if app:
                rows.append(l)
                nums.append(1)
        c = CSVLogger(f if sub or ctx.flip() else 'log.csv', sep=sep, append=app)
        L = LoggerList([c])
        L.append(prog)
        ctx.check([x for x in L] == [c, prog], 'loggers in the list')
        E = ctx.int(1, 4)
        L.on_train_begin(epochs=E)
        for e in range(E):
            nb, samples, known = ctx.int(1, 8), 0, ctx.pick(['samples', 'batches', 'both', None])
            sizes = [ctx.int(1, 9) for _ in range(nb)]
            give = ctx.flip(.8)
            kw = {}
            if known in ('samples', 'both'):
                kw['samples'] = sum(sizes)
            if known in ('batches', 'both'):
                kw['batches'] = nb
            L.on_epoch_begin(e, **kw)
            for b in range(nb):
                L.on_batch_begin(b)
                l = OrderedDict((k, ctx.rng.randn()) for k in keys)
                del lines[:]
                L.on_batch_end(l, **(dict(batch_size=sizes[b]) if give else {}))
                samples += sizes[b] if give else 0
                ctx.same(len(lines), int(b % interval == 0), 'lines about a batch', b, interval)
                if lines:
                    x = lines[0]
                    ctx.check(x.startswith('epoch: %d/%d ' % (e + 1, E)), 'epoch in the line', x)
                    g = re.search(r'batches: (\d+)', x)
                    ctx.check(g and int(g.group(1)) in (b, b + 1), 'batch in the line', x, b)
                    g = re.search(r'samples: (\d+)(?:/(\d+)\((\d+)%\))?', x)
                    ctx.check(bool(g) == bool(samples), 'samples in the line', x)
                    if g:
                        ctx.same(int(g.group(1)), samples, 'samples in the line', x)
                        if 'samples' in kw:
                            ctx.same(g.groups()[1:], (str(sum(sizes)), str(int(100 * samples / sum(sizes)))), 'share of the samples', x)
                    metrics_in(ctx, x, l, shown)
            l = OrderedDict((k, ctx.rng.randn()) for k in keys)
            del lines[:]
            L.on_epoch_end(l)
            ctx.same(len(lines), 1, 'lines about an epoch')
            metrics_in(ctx, lines[0], l, shown)
            ctx.check(lines[0].startswith('epoch: %d/%d ' % (e + 1, E)), 'epoch in the line', lines[0])
            rows.append(l)
            nums.append(e + 1)
            # what was logged is on disk even if the process dies now
            look_csv(ctx, f, rows, nums, sep)
        L.on_train_end()
        look_csv(ctx, f, rows, nums, sep)
    finally:
        os.chdir(here)
        root.removeHandler(hand)
        root.setLevel(level)
    for t in (0, 59, 60, 3599, 3600, 86399, 86400, ctx.int(0, 10 ** 6)):
        s = ProgLogger.sec2str(t)
        p = [int(x) for x in s.rstrip('s').split(':')]
        ctx.same(sum(a * b for a, b in zip(p[::-1], (1, 60, 3600, 86400))), t, 'time as text', s)
    ctx.event('epochs logged', E)
    ctx.sig(interval, str(shown), sep, sub, old, app)


def metrics_in(ctx, line, logs, shown):
    g = dict(re.findall(r' (\w+): (-?\d+\.\d{6})(?=\s|$)', line))
    ctx.same(g, {k: '%.6f' % v for k, v in logs.items() if shown is None or k in shown}, 'metrics in the line', line)
