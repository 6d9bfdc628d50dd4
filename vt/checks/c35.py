"""C35 batch generators draw their batches from the listed sequences as configured"""
import numpy as np

from ..core import case
from .c33 import parse, write_list


def corpus(ctx, maxlen=None):
    """sequences whose rows tell their sequence and frame"""
    from hyperion.io import DataWriterFactory as DWF
    n = ctx.size(2, 12, 150)
    maxlen = ctx.pick([4, 12, 30]) if maxlen is None else maxlen
    L = [ctx.int(1, maxlen) for _ in range(n)]
    if ctx.flip(.2):
        L = [maxlen] * n
    names = ['%s%d' % (ctx.pick(['utt', 'a-', 'z_']), i) for i in ctx.rng.permutation(50 + n)[:n]]
    dim = ctx.int(2, 4)
    X = []
    for i in range(n):
        x = ctx.rng.randn(L[i], dim).astype('float32')
        x[:, 0], x[:, 1] = i, np.arange(L[i])
        X.append(x)
    kind = ctx.pick(['h5', 'ark', 'scp'])
    sep = ctx.pick([' ', ','])
    a, s = ctx.path('x.' + ('h5' if kind == 'h5' else 'ark')), ctx.path('x.scp')
    with DWF.create('%s,scp:%s,%s' % ('h5' if kind == 'h5' else 'ark', a, s), scp_sep=sep) as w:
        w.write(names, X)
    K = ctx.int(1, 4)
    cn = ['c%d' % i for i in ctx.rng.permutation(9)[:K]]
    cls = [cn[i] if i < K else ctx.pick(cn) for i in range(n)]
    cls = [cls[int(i)] for i in ctx.rng.permutation(n)]
    clist = None
    order = sorted(set(cls))
    if ctx.flip():
        order = sorted(set(cls)) + ['x%d' % i for i in range(ctx.int(0, 2))]
        order = [order[int(i)] for i in ctx.rng.permutation(len(order))]
        clist = write_list(ctx.path('cl'), [(c, 'q')[:ctx.int(1, 2)] for c in order])
    lst = write_list(ctx.path('l'), list(zip(names, cls)), sep)
    return dict(n=n, L=L, names=names, X=X, spec='h5:' + a if kind == 'h5' else 'scp:' + s, cls=cls, order=order, clist=clist, lst=lst, sep=sep)


def unpack(ctx, c, b, squeeze, mx, when, utt=False, with_class=True):
    """a batch as [(sequence, first frame, frames)] after judging everything in it"""
    b = list(b)
    z = b.pop() if utt else None
    y = b.pop() if with_class else None
    keys = [str(k) for k in b[0]]
    if squeeze:
        x, w = b[1], b[2]
        ctx.check(len(b) == 3 and x.ndim == 3 and x.shape[:2] == w.shape and x.shape[1] == mx, 'shape of the batch ' + when, x.shape, mx)
        cnt = [int(v) for v in w.sum(axis=1)]
        for i, v in enumerate(cnt):
            ctx.check(np.all(w[i, :v] == 1) and np.all(x[i, v:] == 0), 'padding ' + when)
        x = [x[i, :v] for i, v in enumerate(cnt)]
    else:
        x = b[1]
        ctx.check(len(b) == 2, 'parts of the batch ' + when)
    out = []
    ctx.check(len(x) == len(keys), 'names and sequences of the batch ' + when)
    for j, k in enumerate(keys):
        ctx.check(k in c['names'], 'unknown sequence ' + when, k)
        i = c['names'].index(k)
        ctx.check(len(x[j]) > 0, 'empty sequence ' + when)
        t = np.round(np.asarray(x[j])[:, 1]).astype(int)
        ctx.check(t[0] >= 0 and t[-1] < c['L'][i] and np.array_equal(t, np.arange(t[0], t[0] + len(t))), 'contiguous frames of the sequence ' + when, k, t)
        ctx.close(np.asarray(x[j], dtype='float64'), c['X'][i][t].astype('float64'), 'frames of the sequence ' + when, rtol=1e-6, atol=1e-6)
        if y is not None:
            ctx.check(y.shape == (len(keys), len(c['order'])) and y[j].sum() == 1 and int(np.argmax(y[j])) == c['order'].index(c['cls'][i]), 'class of the sequence ' + when, k)
        if z is not None:
            ctx.check(z.shape[0] == len(keys) and z[j].sum() == 1 and z[j].max() == 1, 'utterance label ' + when)
        out.append((i, int(t[0]), len(t)))
    if z is not None:
        for p in range(len(out)):
            for q in range(p):
                ctx.check((out[p][0] == out[q][0]) == (int(np.argmax(z[p])) == int(np.argmax(z[q]))), 'utterance labels of two sequences ' + when)
    ctx.event('sequences', len(keys))
    return out


def lengths(ctx, c):
    """options of the length of the pieces"""
    mn = ctx.pick([None, ctx.int(1, max(c['L']) + 2)])
    lo = min(c['L']) if mn is None else mn
    mx = ctx.pick([None, lo + ctx.int(0, 6)])
    if ctx.flip(.25):                          # one length: positions can be told to be out of reach
        mn = mx = ctx.int(1, max(1, max(c['L']) - 1))
    return mn, mx


def common(ctx, c, o):
    bs = ctx.int(1, min(6, c['n']))
    o.update({'scp-sep': c['sep'], 'batch-size': bs, 'sg-seed': ctx.int(0, 1000)})
    if c['clist']:
        o['class-list'] = c['clist']
    return bs


def spread(ctx, offsets, room, when):
    """random positions reach the whole sequence, when enough of them were seen"""
    for i, seen in offsets.items():
        p, d = room[i], len(seen)
        if p * (1 - 1. / p) ** d < 1e-9 if p > 1 else False:
            ctx.check(set(seen) == set(range(p)), 'positions that are never drawn ' + when, sorted(set(range(p)) - set(seen)))
            ctx.event('positions', p)


@case(quick=200, mult=12)
def v1(ctx):
    """generator by sequences: whole, random and consecutive pieces, epochs, pruning, balancing, parts"""
    from hyperion.generators import SequenceBatchGeneratorV1 as G
    c = corpus(ctx)
    o = {}
    bs = common(ctx, c, o)
    method = ctx.pick(['full_seqs', 'random', 'random', 'sequential', 'sequential'])
    o['gen-method'] = method
    mn, mx = (None, None) if method == 'full_seqs' else lengths(ctx, c)
    if mn is not None:
        o['min-seq-length'] = mn
    if mx is not None:
        o['max-seq-length'] = mx
    prune = ctx.pick([0, 0, ctx.int(1, max(c['L']))])
    keep = [i for i in range(c['n']) if c['L'][i] >= prune]
    if prune:
        o['prune-min-length'] = prune
        if c['clist'] is None:
            c['order'] = sorted({c['cls'][i] for i in keep})
    parts = ctx.pick([1, 1, 1, 2, 3])
    parts = min(parts, c['n'])
    if parts > 1:
        prune = 0
        o.pop('prune-min-length', None)
        keep = list(range(c['n']))
        if c['clist'] is None:
            c['order'] = sorted(set(c['cls']))
            c['clist'] = o['class-list'] = write_list(ctx.path('cl2'), [(k,) for k in c['order']])
        o['num-parts'] = parts
    bal = ctx.flip(.3)
    if bal:
        o['class-weight'] = 'balanced'
    imb = ctx.pick([1, 2, 3])
    sw = ctx.pick(['balanced', 'unbalanced'])
    if method == 'sequential':
        o['seq-weight'] = sw
        if mn is not None and mn > 1 and ctx.flip():
            o['seq-overlap'] = ctx.int(0, mn - 1)
    ov = o.get('seq-overlap', 0)
    iters = ctx.pick(['auto', 1, 2, 3])
    if iters != 'auto' or ctx.flip():
        o['iters-per-epoch'] = iters
    init = ctx.pick([0, 0, 3])
    more = dict(shuffle_seqs=ctx.flip(), reset_rng=ctx.flip(.3))
    if bal:
        more['max_class_imbalance'] = imb
    with_class = ctx.flip(.8)
    if not with_class:
        more['return_class'] = False
    covered = []
    for part in range(1, parts + 1):
        oo = dict(o)
        if parts > 1:
            oo['part-idx'] = part
        if ctx.flip():
            oo['prefix'] = 'tr'

        def make(epoch, bsz):
            q = dict(oo, **{'init-epoch': epoch, 'batch-size': bsz})
            return G(c['spec'], c['lst'], **dict(parse(G, q), **more))

        g = make(init, 1 if parts > 1 else bs)
        mine = sorted({c['names'].index(str(k)) for k in g.u2c.key})
        if parts == 1:
            ctx.check(mine == keep, 'sequences left', mine, keep)
        covered += mine
        entries = [c['names'].index(str(k)) for k in g.init_u2c.key]     # with repetitions of balancing
        num = {}
        for i in entries:
            num[c['cls'][i]] = num.get(c['cls'][i], 0) + 1
        if bal:
            big = max(num.values())
            ctx.check(all(num[k] * imb >= big for k in num), 'balance of the classes', num, imb)
            for k in num:
                reps = [entries.count(i) for i in mine if c['cls'][i] == k]
                ctx.check(max(reps) - min(reps) <= 1, 'repetitions within a class', k, reps)
        else:
            ctx.check(len(set(entries)) == len(entries), 'repeated sequences')
        N = len(entries)
        b = 1 if parts > 1 else min(bs, N)
        if b != g.batch_size:
            g = make(init, b)
        ctx.check(g.num_seqs == N, 'number of sequences')
        ctx.check([int(v) for v in g.seq_lengths] == [c['L'][c['names'].index(str(k))] for k in g.u2c.key], 'lengths go with the names')
        ctx.check(int(g.total_length) == sum(c['L'][i] for i in entries), 'total length')
        Lm = [c['L'][i] for i in entries]
        lo = min(Lm) if mn is None else mn
        hi = max(Lm) if mx is None else mx
        ctx.check(int(g.min_seq_length) == lo and int(g.max_seq_length) == hi, 'limits of the lengths', g.min_seq_length, g.max_seq_length, lo, hi)
        if hi < lo:
            return
        steps = int(g.steps_per_epoch)
        if steps == 0:
            return
        avg = int((lo + hi) / 2)
        if iters == 'auto':
            it = int(np.ceil(np.mean(Lm) / avg)) if method == 'random' else 1
        else:
            it = iters
        if method == 'sequential':
            if avg - ov <= 0:
                return
            ns = {i: int(np.ceil(c['L'][i] / float(avg - ov))) for i in mine}
            per = N * max(ns.values()) if sw == 'balanced' else sum(ns[i] for i in entries)
        else:
            per = N
        ctx.check(steps == it * per // b, 'steps of an epoch', steps, it, per, b)
        ctx.check(int(g.num_total_subseqs) == steps * b, 'sub-sequences of an epoch')
        if steps > 400:
            return
        epochs = []
        offs, room = {}, {}
        for e in range(ctx.int(1, 4)):
            got = []
            for s in range(steps):
                sq = ctx.flip(.7)
                ml = ctx.pick([None, hi + 3]) if sq else None
                bt = g.read(squeeze=sq, max_seq_length=ml)
                u = unpack(ctx, c, bt, sq, hi if ml is None else ml, method, with_class=with_class)
                ctx.check(len(u) == b, 'size of the batch', len(u), b)
                got += u
            epochs.append(got)
            cnt = [0] * c['n']
            for i, a, l in got:
                cnt[i] += 1
                ctx.check(i in mine, 'a sequence that is not of the list')
                if method == 'full_seqs':
                    ctx.check(a == 0 and l == c['L'][i], 'whole sequences', i, a, l)
                elif method == 'random':
                    ctx.check(min(lo, c['L'][i]) <= l <= min(hi, c['L'][i]), 'length of a random piece', i, l)
                    if lo == hi and l < c['L'][i] and (e == 0 or not more['reset_rng']):
                        offs.setdefault(i, []).append(a)
                        room[i] = c['L'][i] - l + 1
                else:
                    ctx.check(l <= hi, 'length of a piece', i, l)
            rep = {i: entries.count(i) for i in mine}
            if method != 'sequential':             # round robin
                for i in mine:
                    q, rr = divmod(len(got), N)
                    ctx.check(q * rep[i] <= cnt[i] <= (q + (rr > 0)) * rep[i], 'visits to a sequence', i, cnt[i], q)
                if not more['shuffle_seqs']:
                    ctx.check([i for i, a, l in got] == [entries[k % N] for k in range(len(got))], 'order of the list')
            else:
                for i in mine:
                    if rep[i] == 1:
                        seq = [(a, l) for j, a, l in got if j == i]
                        for k, (a, l) in enumerate(seq):
                            if k % ns[i] == 0:
                                ctx.check(a == 0, 'first piece starts at the first frame', i, k, seq, ns[i])
                            else:
                                pa, pl = seq[k - 1]
                                want = max(0, min(c['L'][i] - lo, pa + pl - ov))
                                ctx.check(a == want, 'pieces follow each other', i, k, seq, want)
                            last = k % ns[i] == ns[i] - 1
                            if last:
                                ctx.check(l == min(c['L'][i] - a, hi), 'last piece reaches the end or the maximum', i, a, l)
                            else:
                                ctx.check(min(lo, c['L'][i]) <= l, 'minimum length of a piece', i, a, l)
                    if sw != 'balanced':
                        ctx.check(cnt[i] <= it * ns[i] * rep[i], 'pieces of a sequence', i, cnt[i], ns[i])
                if sw == 'balanced':
                    v = [cnt[i] / float(rep[i]) for i in mine]
                    ctx.check(max(v) - min(v) <= 1, 'all sequences the same number of pieces', v)
        spread(ctx, offs, room, 'by random pieces')
        for e, got in enumerate(epochs):
            if more['reset_rng']:
                ctx.check(got == epochs[0], 'epochs with the same seed')
            if e == len(epochs) - 1 and not more['reset_rng']:
                h = make(init + e, b)
                again = []
                for s in range(steps):
                    again += unpack(ctx, c, h.read(squeeze=False), False, None, method, with_class=with_class)
                ctx.check(again == got, 'a generator started at that epoch continues the same', e, again[:8], got[:8])
    if parts > 1:
        ctx.check(sorted(covered) == list(range(c['n'])), 'parts cover the list once', covered)
    ctx.sig(method, c['n'], mn, mx, prune, parts, bal, sw, ov, iters, tuple(sorted(more.items())))
    ctx.sample(method=method, n=c['n'], min=mn, max=mx, prune=prune, parts=parts, balanced=bal)


@case(quick=200, mult=12)
def v2(ctx):
    """generator by classes: examples per class and utterance, labels, epochs, pruning, parts"""
    from hyperion.generators import SequenceBatchGeneratorV2 as G
    c = corpus(ctx)
    o = {}
    bs = common(ctx, c, o)
    bs = o['batch-size'] = ctx.int(1, 10)
    mn, mx = lengths(ctx, c)
    if mn is not None:
        o['min-seq-length'] = mn
    if mx is not None:
        o['max-seq-length'] = mx
    ec, eu = ctx.pick([1, 1, 2, 3]), ctx.pick([1, 1, 2, 3])
    if ec > 1 or ctx.flip():
        o['num-egs-per-class'] = ec
    if eu > 1 or ctx.flip():
        o['num-egs-per-utt'] = eu
    prune = ctx.pick([0, 0, ctx.int(1, max(c['L']))])
    parts = min(ctx.pick([1, 1, 1, 2]), c['n'])
    if parts > 1:
        prune = 0
        if c['clist'] is None:
            c['clist'] = o['class-list'] = write_list(ctx.path('cl2'), [(k,) for k in c['order']])
        o['num-parts'] = parts
    keep = [i for i in range(c['n']) if c['L'][i] >= prune]
    if prune:
        o['prune-min-length'] = prune
        if c['clist'] is None:
            c['order'] = sorted({c['cls'][i] for i in keep})
    iters = ctx.pick(['auto', 1, 2, 5]) if mn is None or mn != mx or ctx.flip() else 30
    o['iters-per-epoch'] = iters
    utt = ctx.flip(.4)
    with_class = ctx.flip(.8)
    more = dict(reset_rng=ctx.flip(.3), return_utt1hot=utt, return_class=with_class)
    init = ctx.pick([0, 0, 3])
    covered = []
    for part in range(1, parts + 1):
        oo = dict(o)
        if parts > 1:
            oo['part-idx'] = part
        if ctx.flip():
            oo['prefix'] = 'tr'
        make = lambda epoch: G(c['spec'], c['lst'], **dict(parse(G, dict(oo, **{'init-epoch': epoch})), **more))
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            g = make(init)
            mine = [c['names'].index(str(k)) for k in g.u2c.key]
            covered += mine
            if parts == 1:
                ctx.check(mine == keep, 'sequences left', mine, keep)
            ctx.check([int(v) for v in g.seq_lengths] == [c['L'][i] for i in mine], 'lengths go with the names')
            Lm = [c['L'][i] for i in mine]
            lo = min(Lm) if mn is None else mn
            hi = max(Lm) if mx is None else mx
            if hi < lo:
                return
            ctx.check(int(g.min_seq_length) == lo and int(g.max_seq_length) == hi, 'limits of the lengths', g.min_seq_length, g.max_seq_length, lo, hi)
            avg = int((lo + hi) / 2)
            it = int(np.ceil(np.mean(Lm) / avg)) if iters == 'auto' else iters
            steps = int(g.steps_per_epoch)
            ctx.check(steps == -(-it * len(mine) // bs), 'steps of an epoch', steps, it, len(mine), bs)
            ctx.check(int(g.num_total_subseqs) == steps * bs, 'sub-sequences of an epoch')
            epochs, draws, offs, room = [], [], {}, {}
            for e in range(ctx.int(1, 5)):
                got = []
                for s in range(steps):
                    sq = ctx.flip(.7)
                    ml = ctx.pick([None, hi + 3]) if sq else None
                    u = unpack(ctx, c, g.read(squeeze=sq, max_seq_length=ml), sq, hi if ml is None else ml, '', utt=utt, with_class=with_class)
                    ctx.check(len(u) == bs, 'size of the batch', len(u), bs)
                    for k in range(0, bs, eu):
                        ctx.check(len({i for i, a, l in u[k:k + eu]}) == 1, 'examples of one utterance', [i for i, a, l in u], eu)
                        if e == 0 or not more['reset_rng']:
                            draws.append(u[k][0])
                    for k in range(0, bs, eu * ec):
                        ctx.check(len({c['cls'][i] for i, a, l in u[k:k + eu * ec]}) == 1, 'examples of one class', [c['cls'][i] for i, a, l in u], eu, ec)
                    for i, a, l in u:
                        ctx.check(i in mine, 'a sequence that is not of the list', i)
                        ctx.check(min(lo, c['L'][i]) <= l <= min(hi, c['L'][i]), 'length of a random piece', i, l)
                        if lo == hi and l < c['L'][i] and (e == 0 or not more['reset_rng']):
                            offs.setdefault(i, []).append(a)
                            room[i] = c['L'][i] - l + 1
                    got += u
                epochs.append(got)
            spread(ctx, offs, room, 'by random pieces')
            for e, got in enumerate(epochs):
                if more['reset_rng']:
                    ctx.check(got == epochs[0], 'epochs with the same seed')
                if e == len(epochs) - 1 and not more['reset_rng']:
                    h = make(init + e)
                    again = []
                    for s in range(steps):
                        again += unpack(ctx, c, h.read(squeeze=False), False, None, '', utt=utt, with_class=with_class)
                    ctx.check(again == got, 'a generator started at that epoch continues the same', e)
            # all classes and utterances can be drawn
            if ec == 1:
                K = sorted({c['cls'][i] for i in mine})
                if len(K) * (1 - 1. / len(K)) ** len(draws) < 1e-9:
                    ctx.check({c['cls'][i] for i in draws} == set(K), 'classes that are never drawn')
                p = min(1. / (len(K) * sum(c['cls'][j] == c['cls'][i] for j in mine)) for i in mine)
                if len(mine) * (1 - p) ** len(draws) < 1e-9:
                    ctx.check(set(draws) == set(mine), 'utterances that are never drawn')
                    ctx.event('utterances', len(mine))
    if parts > 1:
        ctx.check(sorted(covered) == list(range(c['n'])), 'parts cover the list once', covered)
    ctx.sig(c['n'], mn, mx, prune, parts, ec, eu, bs, iters, tuple(sorted(more.items())))
    ctx.sample(n=c['n'], min=mn, max=mx, per_class=ec, per_utt=eu, batch=bs, iters=iters)
