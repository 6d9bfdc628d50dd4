"""C34 sequence readers serve each sequence as often as announced, with frames, class and posteriors of its own"""
import h5py
import numpy as np

from ..core import case
from .c33 import parse, write_list

MODES = ['full', 'full', 'sequential', 'random_slice', 'random_samples', 'random_slice_1seq', 'random_samples_1seq']


def data(ctx, mode):
    """sequences whose rows can all be told apart: first column = sequence, second = frame"""
    n = ctx.size(1, 10, 150)
    maxlen = ctx.pick([3, 12, 40])
    L = [ctx.int(1, maxlen) for _ in range(n)]
    if ctx.flip(.2):
        L = [1 if ctx.flip(.7) else v for v in L]
    names = ['%s%d' % (ctx.pick(['utt', 'a-', 'z_']), i) for i in ctx.rng.permutation(50 + n)[:n]]
    dim = ctx.int(2, 4)
    X = []
    for i in range(n):
        x = ctx.rng.randn(L[i], dim).astype('float32')
        x[:, 0] = i
        x[:, 1] = np.arange(L[i])
        X.append(x)
    return n, L, names, X


def pieces(L, m, ov, mn):
    """the announced pieces of a sequence of L frames cut in order"""
    shift, out, a = m - ov, [], 0
    while a + m <= L:
        out.append((a, a + m))
        a += shift
    if L - a >= mn and L > a:
        out.append((a, L))
    return out


def build(ctx, post):
    from hyperion.helpers import SequenceClassReader, SequencePostClassReader, SequencePostReader, SequenceReader
    from hyperion.io import HypDataWriter
    mode = ctx.pick(MODES if not post else [m for m in MODES if 'samples' not in m])
    n, L, names, X = data(ctx, mode)
    field = ctx.pick(['', '', '/mfcc', '.f'])
    path = ctx.path('x.h5')
    w = HypDataWriter(path)
    for k, x in zip(names, X):
        w.write(k, field, x)
    del w
    ppath, R, C = None, None, 0
    if post:
        ppath = ctx.path('r.h5')
        C = ctx.int(2, 9)
        K = ctx.int(1, min(3, C))
        R = []
        w = HypDataWriter(ppath)
        for k, x in zip(names, X):
            idx = np.array([ctx.rng.permutation(C)[:K] for _ in x]).reshape(len(x), K)
            r = ctx.rng.rand(len(x), K).astype('float32')
            d = np.zeros((len(x), C))
            for t in range(len(x)):
                d[t, idx[t]] = r[t]
            R.append(d)
            w.write(k, '.r', r)
            w.write(k, '.index', idx)
        del w
    sep = ctx.pick(['=', ' ', ','])
    classes = ['c%d' % i for i in range(ctx.int(1, 4))]
    cls = [ctx.pick(classes) for _ in names]
    with_class = ctx.flip(.5)
    lst = write_list(ctx.path('l'), [(c, k) for c, k in zip(cls, names)], sep)
    clst = write_list(ctx.path('cl'), [(c, 'x')[:ctx.int(1, 2)] for c in classes])
    mn, mx, ov = 1, None, 0
    if mode == 'full':
        mn = ctx.pick([0, 1, 1, 2, 5, max(L)])
        if mn > max(L):
            mn = 1
    else:
        mx = ctx.int(1, max(L) + 3)
        mn = ctx.int(1, min(mx, max(L)))
        if ctx.flip(.4):
            mn = mx if mx <= max(L) else 1
        if mode in ('sequential', 'random_slice', 'random_samples') and ctx.flip():
            ov = ctx.int(0, mx - 1)
    if mode == 'full' or '1seq' in mode:
        P = [[(0, v)] if v >= mn else [] for v in L]
    else:
        P = [pieces(v, mx, ov, mn) for v in L]
    total = sum(len(p) for p in P)
    bs = ctx.int(1, max(1, min(5, total)))
    shuffle = ctx.flip()
    seed = ctx.int(0, 99)
    o = {'scp-sep': sep, 'seqr-seed': seed, 'seq-field': field}
    if not shuffle:
        o['no-shuffle-seqs'] = None
    if mn != 1 or ctx.flip():
        o['min-seq-length'] = mn
    if mx is not None:
        o.update({'max-seq-length': mx, 'seq-split-mode': mode})
    if ov:
        o['seq-split-overlap'] = ov
    if post:
        o['num-comp'] = C
    if ctx.flip():
        o['prefix'] = 'tr'
    cl = (SequencePostReader if post else SequenceReader)
    kw = parse(cl, dict(o))
    if ctx.flip():
        kw['reset_rng'] = ctx.flip()
    cl = (SequencePostClassReader if with_class else cl) if post else (SequenceClassReader if with_class else cl)
    args = (path, lst) + ((ppath,) if post else ()) + ((clst,) if with_class else ())
    mk = lambda **more: cl(*args, batch_size=bs, **dict(kw, **more))
    return dict(reset=kw.get('reset_rng', False), mode=mode, n=n, L=L, names=names, X=X, R=R, C=C, cls=cls, classes=classes, with_class=with_class, mn=mn, mx=mx, ov=ov, P=P, total=total, bs=bs,
                shuffle=shuffle, mk=mk)


def rows_of(ctx, c, x, key, when):
    """which rows of the sequence the answer has"""
    x = np.asarray(x)
    i = c['names'].index(key)
    ctx.check(len(x) > 0, 'empty sequence ' + when, key)
    t = np.round(x[:, 1]).astype(int)
    ctx.check(np.all((t >= 0) & (t < c['L'][i])), 'frames of another sequence ' + when, key, t)
    ctx.close(x, c['X'][i][t], 'frames of the sequence ' + when, rtol=1e-6, atol=1e-6)
    return i, t


def epoch(ctx, c, r, threed, when):
    """reads one epoch; returns its pieces in order"""
    out = []
    for b in range(int(r.num_batches)):
        a = r.read(return_3d=True, max_seq_length=ctx.pick([0, max(c['L']) + 2])) if threed else r.read()
        a = list(a)
        y = a.pop() if c['with_class'] else None
        keys = [str(k) for k in a.pop()]
        ctx.check(len(keys) == c['bs'], 'size of the batch ' + when, len(keys), c['bs'])
        if threed:
            w = a.pop()
            cnt = [int(v) for v in w.sum(axis=1)]
            for i, v in enumerate(cnt):
                ctx.check(np.all(w[i, :v] == 1) and all(np.all(q[i, v:] == 0) for q in a), 'padding ' + when)
            a = [[q[i, :v] for i, v in enumerate(cnt)] for q in a]
        x = a[0]
        ctx.check(len(x) == c['bs'], 'sequences of the batch ' + when)
        for j, k in enumerate(keys):
            ctx.check(k in c['names'], 'unknown sequence ' + when, k)
            i, t = rows_of(ctx, c, x[j], k, when)
            if c['R'] is not None:
                ctx.close(a[1][j], c['R'][i][t], 'posteriors of the same frames ' + when, rtol=1e-6, atol=1e-6)
            if y is not None:
                ctx.check([int(v) for v in np.where(y[j] == 1)[0]] == [c['classes'].index(c['cls'][i])] and np.sum(y[j]) == 1 and y.shape == (c['bs'], len(c['classes'])),
                          'class of the sequence ' + when, k)
            out.append((i, [int(v) for v in t]))
        ctx.event('sequences', len(keys))
    return out


def judge(ctx, c, got, when):
    mode = c['mode']
    count = {}
    for i, t in got:
        count.setdefault(i, []).append(t)
    for i, ts in count.items():
        ctx.check(len(ts) <= len(c['P'][i]), 'a sequence more often than announced ' + when, i, len(ts), c['P'][i])
        for k, t in enumerate(ts):
            if mode == 'full':
                ctx.check(t == list(range(c['L'][i])), 'a whole sequence ' + when, i, t)
            elif mode == 'sequential':
                a, b = c['P'][i][k]
                ctx.check(t == list(range(a, b)), 'pieces in order ' + when, i, k, t, c['P'][i])
            else:
                ctx.check(len(t) == min(c['mx'], c['L'][i]), 'length of a piece ' + when, i, len(t))
                if 'slice' in mode:
                    ctx.check(t == list(range(t[0], t[0] + len(t))), 'contiguous piece ' + when, i, t)
                else:
                    ctx.check(t == sorted(t), 'samples in order ' + when, i, t)
    left = c['total'] - len(got)
    ctx.check(0 <= left < c['bs'], 'pieces not served in the epoch ' + when, left, c['bs'])
    if not c['shuffle']:
        if mode == 'full' or '1seq' in mode:
            want = [i for i in range(c['n']) if c['P'][i]][:len(got)]
        else:                                  # round robin
            want, k = [], 0
            while len(want) < len(got):
                want += [i for i in range(c['n']) if len(c['P'][i]) > k]
                k += 1
            want = want[:len(got)]
        ctx.check([i for i, t in got] == want, 'order of the list ' + when, [i for i, t in got], want)


def run(ctx, post):
    c = build(ctx, post)
    if c['total'] == 0:
        return
    r, r2 = c['mk'](), c['mk']()
    if ctx.flip():
        ctx.check([int(v) for v in r.seq_length] == c['L'] and int(r.total_length) == sum(c['L']), 'lengths')
        ctx.check([int(v) for v in r.num_subseqs] == [len(p) for p in c['P']], 'numbers of sub-sequences', r.num_subseqs, c['P'])
    ctx.check(r.num_seqs == c['n'], 'number of sequences')
    ctx.check(int(r.num_total_subseqs) == c['total'], 'total of sub-sequences', r.num_total_subseqs, c['total'])
    ctx.check(int(r.num_batches) == c['total'] // c['bs'], 'number of batches')
    ctx.check(int(r.max_batch_seq_length) == (c['mx'] if c['mx'] is not None else max(c['L'])), 'longest sequence')
    r2.num_subseqs
    seen, drawn = [], {}
    for e in range(ctx.int(1, 3) if not c['mode'].startswith('random') or c['reset'] or ctx.flip(.6) else 25):
        threed = ctx.flip(.3)
        g = epoch(ctx, c, r, threed, 'in epoch %d' % (e + 1) if e < 1 else 'in later epochs')
        judge(ctx, c, g, 'in the first epoch' if e == 0 else 'in later epochs')
        g2 = epoch(ctx, c, r2, threed, 'of the second reader')
        ctx.check(g == g2, 'two readers with one seed')
        seen.append([i for i, t in g])
        for i, t in g:
            drawn.setdefault(i, []).append(t)
        ctx.check(sorted(zip([c['names'].index(str(k)) for k in r.scp.file_path], [int(v) for v in r.seq_length])) == sorted(enumerate(c['L'])), 'lengths go with the shuffled names')
        if ctx.flip(.2):                       # leave an epoch in the middle
            r.reset()
            r2.reset()
    if c['mode'].startswith('random') and not c['reset']:
        for i, ts in drawn.items():            # no position is out of reach
            p = c['L'][i] - len(ts[0]) + 1
            if 'slice' in c['mode'] and p > 1 and p * (1 - 1. / p) ** len(ts) < 1e-9:
                ctx.check({t[0] for t in ts} == set(range(p)), 'positions that are never drawn', sorted({t[0] for t in ts}), p)
                ctx.event('positions', p)
            n = c['L'][i]
            if 'samples' in c['mode'] and n > 1 and n * (1 - 1. / n) ** sum(len(t) for t in ts) < 1e-9:
                ctx.check({a for t in ts for a in t} == set(range(n)), 'frames that are never drawn', n)
                ctx.event('positions', n)
    ctx.sig(post, c['mode'], c['n'], c['mn'], c['mx'], c['ov'], c['bs'], c['shuffle'], c['with_class'], len(seen))
    ctx.sample(mode=c['mode'], n=c['n'], min=c['mn'], max=c['mx'], overlap=c['ov'], batch=c['bs'], total=c['total'])


@case(quick=250, mult=12)
def sequences(ctx):
    """batches of whole sequences, consecutive pieces and random pieces"""
    run(ctx, False)


@case(quick=150, mult=12)
def posteriors(ctx):
    """the same with the posteriors of each frame"""
    run(ctx, True)


@case(quick=80, mult=12)
def evaluation(ctx):
    """sequences one by one; parts of the list"""
    from hyperion.helpers import SequencePostReader, SequenceReader
    from hyperion.io import HypDataWriter
    post = ctx.flip(.4)
    n, L, names, X = data(ctx, 'full')
    path, ppath = ctx.path('x.h5'), ctx.path('r.h5')
    w, v = HypDataWriter(path), HypDataWriter(ppath)
    for k, x in zip(names, X):
        w.write(k, '', x)
        v.write(k, '.r', x[:, :1] + 1)
        v.write(k, '.index', (x[:, 1:2] % 3).astype(int))
    del w, v
    lst = write_list(ctx.path('l'), [(k, k) for k in names], '=')
    parts = ctx.int(1, min(4, n))
    got = []
    cls = SequencePostReader if post else SequenceReader
    for j in range(1, parts + 1):
        o = ['--part-idx', str(j), '--num-parts', str(parts)] if parts > 1 or ctx.flip() else []
        o += ['--num-comp', '3'] if post else []
        prefix = ctx.pick([None, 'ev'])
        import argparse
        p = argparse.ArgumentParser()
        cls.add_argparse_eval_args(p, prefix)
        ns = p.parse_args([a.replace('--', '--ev-') if prefix else a for a in o])
        r = cls(*((path, lst) + ((ppath,) if post else ())), shuffle_seqs=False, **cls.filter_eval_args(prefix, **vars(ns)))
        for _ in range(r.num_seqs):
            a = r.read_next_seq()
            key = str(a[-1])
            i = names.index(key)
            ctx.close(a[0], X[i].astype('float64'), 'the sequence of the name', rtol=0, atol=0)
            if post:
                d = np.zeros((L[i], 3))
                d[np.arange(L[i]), np.arange(L[i]) % 3] = i + 1
                ctx.close(a[1], d, 'posteriors of the sequence', rtol=0, atol=0)
            got.append(key)
    ctx.check(sorted(got) == sorted(names) and (parts > 1 or got == names), 'parts cover the list', got, names)
    ctx.event('sequences', len(got))
    ctx.sig(post, n, parts)
    ctx.sample(n=n, parts=parts)
