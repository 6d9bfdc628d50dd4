"""C33 readers of labelled vectors and trials pair each vector with its own class, model or trial"""
import argparse

import h5py
import numpy as np

from ..core import case
from ..iolib import gen_keys

CM = ('first', 'last', 'random')


def table(ctx, n, h5=False):
    """n named vectors, all different"""
    keys = gen_keys(ctx, n, h5=True)
    dim = ctx.int(1, 4)
    x = (ctx.rng.permutation(n)[:, None] * 8. + ctx.rng.randint(0, 8, size=(n, dim))).astype('float32')
    return keys, x


def store(ctx, keys, x):
    """write the table; the way of naming it to a reader is drawn"""
    from hyperion.io import DataWriterFactory as DWF
    kind = ctx.pick(['h5', 'ark', 'h5scp'])
    a, s = ctx.path('v.' + ('ark' if kind == 'ark' else 'h5')), ctx.path('v.scp')
    with DWF.create('%s,scp:%s,%s' % ('ark' if kind == 'ark' else 'h5', a, s)) as w:
        w.write(keys, [v for v in x])
    ctx.event('vectors', len(keys))
    return 'h5:' + a if kind == 'h5' else 'scp:' + s


def preproc(ctx, dim):
    from hyperion.transforms import CentWhiten, TransformList
    if ctx.flip(.5):
        return None, lambda v: v
    mu = ctx.rng.randn(dim)
    T = np.eye(dim) * 2 + ctx.rng.rand(dim, dim) * .5
    p = TransformList(CentWhiten(mu, T, name='cw'))
    return p, lambda v: (v - mu).dot(T)


def parse(cls, opts, **kw):
    """the arguments as the command-line tools get them"""
    prefix = opts.pop('prefix', None)
    p = argparse.ArgumentParser()
    cls.add_argparse_args(p, **({} if prefix is None else dict(prefix=prefix)))
    argv = []
    for k, v in opts.items():
        argv.append('--' + ('' if prefix is None else prefix + '-') + k)
        if v is not None:
            argv.append(str(v))
    return cls.filter_args(prefix, **vars(p.parse_args(argv)))


def write_list(path, rows, sep=' '):
    with open(path, 'w') as f:
        for r in rows:
            f.write(sep.join(r) + '\n')
    return path


@case(quick=60, mult=12)
def vectors(ctx):
    """the plain reader: the vectors of the listed keys, in the order of the list"""
    from hyperion.helpers import VectorReader
    n = ctx.size(1, 15, 300)
    keys, x = table(ctx, n)
    spec = store(ctx, keys, x)
    idx = [int(i) for i in ctx.rng.permutation(n)[:ctx.int(1, n)]]
    sep = ctx.pick([' ', ',', '\t']) if not any(',' in k for k in keys) else ' '
    lst = write_list(ctx.path('l'), [(keys[i], 'file%d' % i) for i in idx], sep)
    p, f = preproc(ctx, x.shape[1])
    opts = parse(VectorReader, dict(**{'vlist-sep': sep}, **(dict(prefix='vr') if ctx.flip() else {})))
    ctx.check(opts == {'vlist_sep': sep}, 'options of the vector reader', opts)
    r = VectorReader(spec, lst, p, **opts)
    for _ in range(2):
        ctx.close(r.read(), f(x[idx]), 'listed vectors', rtol=1e-5, atol=1e-4)
    ctx.sig(n, len(idx), sep)
    ctx.sample(n=n, read=len(idx), sep=sep)


def runs(n, m, shift):
    """the pieces of a class of n samples split in order"""
    if n <= m:
        return [list(range(n))]
    out, i = [], 0
    while True:
        out.append(list(range(i, min(i + m, n))))
        if i + m >= n:
            return out
        i += shift


@case(quick=250, mult=12)
def classes(ctx):
    """the class reader: pruning, splitting, numbering, three-dimensional form"""
    from hyperion.helpers import VectorClassReader as VCR
    n = ctx.size(1, 40, 500)
    keys, x = table(ctx, n)
    spec = store(ctx, keys, x)
    nc = ctx.int(1, 6)
    names = [ctx.pick(['c', 'spk', '', 'B', 'a']) + str(i) for i in ctx.rng.permutation(12)[:nc]]
    order = [int(i) for i in ctx.rng.permutation(n)[:ctx.int(1, n)]]
    cls = [names[int(ctx.int(0, nc - 1) * (ctx.rng.rand() if ctx.flip() else 1))] for _ in order]
    if ctx.flip(.3):
        j = sorted(range(len(order)), key=lambda a: cls[a])
        order, cls = [order[a] for a in j], [cls[a] for a in j]
    members = {c: [i for i, b in zip(order, cls) if b == c] for c in set(cls)}
    sep = ctx.pick([' ', ',']) if not any(',' in k for k in keys) else ' '
    lst = write_list(ctx.path('u2c'), [(keys[i], c) for i, c in zip(order, cls)], sep)
    p, f = preproc(ctx, x.shape[1])
    o = {'vlist-sep': sep}
    min_spc = ctx.pick([1, 1, 1, 2, 3])
    max_spc = ctx.pick([None, None, 1, 2, 4, 8])
    mode = ctx.pick(CM)
    split = ctx.flip(.5)
    c2i = not split and ctx.flip(.4)
    if min_spc > max([len(v) for v in members.values()]):
        min_spc = 1
    if max_spc is not None and max_spc < min_spc:
        max_spc = None
    seed = ctx.int(0, 1000)
    o.update({'min-spc': min_spc, 'spc-pruning-mode': mode, 'vcr-seed': seed})
    if max_spc is not None:
        o['max-spc'] = max_spc
    left = {c: list(v) for c, v in members.items() if len(v) >= min_spc}
    free = {}                                  # classes pruned at random: how many stay
    for c, v in left.items():
        if max_spc is not None and len(v) > max_spc:
            if mode == 'first':
                left[c] = v[-max_spc:]
            elif mode == 'last':
                left[c] = v[:max_spc]
            else:
                free[c] = max_spc
    size = {c: min(len(v), free.get(c, len(v))) for c, v in left.items()}
    once, m, cmode, over, cmin = True, None, None, 0, 1
    if split:
        m = ctx.pick([1, 2, 3, 5, 9])
        cmode = ctx.pick(['sequential', 'random', 'random_1part'])
        over = ctx.int(0, m - 1) if cmode != 'random_1part' else 0
        cmin = ctx.pick([1, 1, 1, 2])
        once = ctx.flip(.6)
        if cmin > m or max(size.values()) < cmin:
            cmin = 1
        o.update({'csplit-max-spc': m, 'csplit-mode': cmode, 'csplit-overlap': over})
        if cmin > 1 or ctx.flip():
            o['csplit-min-spc'] = cmin
        if not once:
            o['no-csplit-once'] = None
    if c2i:
        pos = [int(i) for i in ctx.rng.permutation(nc)]
        o['class2int-file'] = write_list(ctx.path('c2i'), [(c, str(i)) for c, i in ctx.pick([list(zip(names, pos)), sorted(zip(names, pos))])])
    if ctx.flip():
        o['prefix'] = 'tr'
    kw = parse(VCR, dict(o))
    if ctx.flip(.3):
        kw.pop('csplit_overlap' if not over else 'nothing', None)
    r = VCR(spec, lst, p, **kw)
    r2 = VCR(spec, lst, p, **kw)
    early = ctx.flip(.3)
    if early:
        r.samples_per_class, r2.samples_per_class
    code = {tuple(np.round(f(x[i].astype('float64')), 3)): i for i in range(n)}
    whose = {i: c for c, v in members.items() for i in v}

    def find(row):
        t = tuple(np.round(row, 3))
        if t in code:
            return code[t]
        d = np.max(np.abs(f(x.astype('float64')) - row), axis=1)
        i = int(np.argmin(d))
        ctx.check(d[i] < 1e-3, 'row that is no vector of the table', row)
        return i

    def judge(xr, ids, when):
        rows = [find(v) for v in np.asarray(xr)]
        ids = [int(i) for i in ids]
        ctx.check(len(rows) == len(ids), 'as many classes as vectors ' + when)
        ctx.event('vectors judged', len(rows))
        groups = {}
        for i, c in zip(rows, ids):
            groups.setdefault(c, []).append(i)
        for c, v in groups.items():
            ctx.check(len(set(v)) == len(v), 'a vector twice in a class ' + when, c, v)
            ctx.check(len({whose[i] for i in v}) == 1, 'a class of vectors of several classes ' + when, c, v)
            ctx.check(set(v) <= set(left.get(whose[v[0]], [])), 'vectors that had been pruned ' + when, c)
        by = {}
        for c, v in groups.items():
            by.setdefault(whose[v[0]], []).append(v)
        if not split:
            ctx.check({c: len(v[0]) for c, v in by.items()} == size, 'samples of each class ' + when, {c: len(v[0]) for c, v in by.items()}, size)
            ctx.check(all(len(v) == 1 for v in by.values()), 'a class with several numbers ' + when)
            for c in set(by) - set(free):
                ctx.check(sorted(by[c][0]) == sorted(left[c]), 'samples kept ' + when, c)
            pos_of = {a: b for b, a in enumerate(order)}
            ctx.check([pos_of[a] for a in rows] == sorted(pos_of[a] for a in rows), 'order of the list ' + when)
            cn = [str(a) for a in r.class_names]
            for c in groups:
                ctx.check(cn[c] == whose[groups[c][0]], 'name of the class number ' + when, c, cn)
            if c2i:
                for c, v in by.items():
                    ctx.check(whose[v[0][0]] == c and c in names and [k for k in groups if groups[k] == v[0]] == [dict(zip(names, pos))[c]], 'number of the class in the file ' + when, c)
        elif cmode == 'random_1part':
            want = {c: min(m, s) for c, s in size.items() if min(m, s) >= cmin}
            ctx.check({c: len(v[0]) for c, v in by.items()} == want and all(len(v) == 1 for v in by.values()), 'one part of each class ' + when, by, want)
        else:
            for c, s in size.items():
                pieces = [q for q in runs(s, m, m - over)]
                want = sorted(len(q) if cmode == 'sequential' or s <= m else m for q in pieces)
                want = [a for a in want if a >= cmin]
                ctx.check(sorted(len(v) for v in by.get(c, [])) == want, 'sizes of the subclasses ' + when, c, [len(v) for v in by.get(c, [])], want)
                if cmode == 'sequential' and c not in free:
                    w = sorted(sorted(left[c][a] for a in q) for q in pieces if len(q) >= cmin)
                    ctx.check(sorted(sorted(v) for v in by.get(c, [])) == w, 'members of the subclasses ' + when, c)
        if not c2i:
            ctx.check(set(ids) == set(range(len(groups))), 'class numbers ' + when, sorted(set(ids)))
        return rows, ids, groups

    got = []
    for k in range(ctx.int(1, 3)):
        threed = ctx.flip(.35)
        extra = ctx.int(0, 3)
        if threed and not (c2i and set(left) != set(names)):
            big = max(size.values()) if not split else min(m, max(size.values()))
            ml = big + extra if ctx.flip() else 0
            x3, w = r.read(return_3d=True, max_length=ml)
            x3b, wb = r2.read(return_3d=True, max_length=ml)
            ctx.check(np.array_equal(x3, x3b) and np.array_equal(w, wb), 'two readers with one seed (3d)')
            ctx.check(x3.ndim == 3 and w.shape == x3.shape[:2], 'shape of the 3d form', x3.shape, w.shape)
            ctx.check(set(np.unique(w)) <= {0., 1.}, 'weights of the 3d form')
            cnt = w.sum(axis=1).astype(int)
            ctx.check(x3.shape[1] == (ml if ml else max(cnt)), 'length of the 3d form', x3.shape, ml)
            for i in range(len(x3)):
                ctx.check(np.all(w[i, :cnt[i]] == 1) and np.all(x3[i, cnt[i]:] == 0), 'padding of the 3d form', i)
            xr = np.concatenate([x3[i, :cnt[i]] for i in range(len(x3))])
            ids = np.repeat(np.arange(len(x3)), cnt)
            if not split:                       # 3d form sorts by class: undo, to judge the order of the list
                pos_of = {a: b for b, a in enumerate(order)}
                j = sorted(range(len(xr)), key=lambda a: pos_of[find(xr[a])])
                xr, ids = xr[j], ids[j]
            judge(xr, ids, '(3d)')
        else:
            xr, ids = r.read()
            xb, ib = r2.read()
            ctx.check(np.array_equal(xr, xb) and np.array_equal(ids, ib), 'two readers with one seed')
            rows, ids, groups = judge(xr, ids, '')
            got.append(rows)
            if not c2i:
                spc = [int(a) for a in r.samples_per_class]
                r2.samples_per_class
                if not split:
                    ctx.check(spc == [len(groups[i]) for i in range(len(groups))], 'samples per class', spc)
                ctx.check(sorted(spc) == sorted(len(v) for v in groups.values()), 'samples of the classes', spc)
            ctx.check(int(r.max_samples_per_class) == max(len(v) for v in groups.values()), 'maximum of samples per class')
            r2.max_samples_per_class
    if split and not once and cmode != 'sequential':
        # at each reading: six draws of the members
        from math import comb
        ways = sum(np.log(comb(s, m)) for s in size.values() if s > m)
        if ways > np.log(30):
            rr = [tuple(sorted(tuple(sorted(find(v) for v, k in zip(*b) if k == c)) for c in set(b[1])))
                  for b in ((np.asarray(a[0]), [int(i) for i in a[1]]) for a in (r.read() for _ in range(6)))]
            ctx.check(len(set(rr)) > 1, 'splitting at each reading gives the same classes every time')
            ctx.event('repeated splits')
    if once and len(got) > 1:
        ctx.check(all(g == got[0] for g in got), 'splitting once: the same vectors in each reading')
    ctx.sig(len(order), len(members), mode if free or max_spc else '', (cmode, m, over, once) if split else '', c2i)
    ctx.sample(n=len(order), classes=len(members), pruned=mode if free or max_spc else '', split=(cmode, m, over, once) if split else '', c2i=c2i)


@case(quick=150, mult=12)
def trials(ctx):
    """the trial readers: evaluation sets and their division in parts"""
    from hyperion.helpers import TrialDataReader as TDR
    from hyperion.helpers.multi_test_trial_data_reader import MultiTestTrialDataReader as MTDR
    from hyperion.utils import TrialNdx
    multi = ctx.flip(.35)
    n = ctx.int(6, 30)
    keys, x = table(ctx, n)
    spec = store(ctx, keys, x)
    row = {k: v for k, v in zip(keys, x)}
    p, f = preproc(ctx, x.shape[1])
    ev = ctx.pick(['enroll-test', 'enroll-test', 'enroll-coh', 'coh-test', 'coh-coh']) if not multi else 'enroll-test'
    pool = [keys[int(i)] for i in ctx.rng.permutation(n)]
    half = ctx.int(2, n - 2)
    E, T = pool[:half], pool[half:]
    if ev.startswith('coh'):
        enroll = [(k, k) for k in E]
        models = list(E)
    else:
        nm = ctx.int(1, len(E))
        names = ['m%d' % i for i in ctx.rng.permutation(40)[:nm]] if ctx.flip() else gen_keys(ctx, nm)
        enroll = [(k, names[i] if i < nm else ctx.pick(names)) for i, k in enumerate(E)]
        if ctx.flip():
            enroll = [enroll[int(i)] for i in ctx.rng.permutation(len(enroll))]
        models = [names[int(i)] for i in ctx.rng.permutation(nm)[:ctx.int(1, nm)]]
    sub = None
    if multi:                                   # test segments cut in sub-segments
        no = ctx.int(1, len(T))
        orig = ['o%d' % i for i in range(no)]
        sub = [(k, orig[i] if i < no else ctx.pick(orig)) for i, k in enumerate(T)]
        segs = list(orig)
    else:
        segs = list(T)
    enr_file = write_list(ctx.path('enroll'), enroll)
    test_file = write_list(ctx.path('test'), [(k, 'x') for k in segs])
    ndx_file = None
    mask = None
    if ev != 'coh-coh' or ctx.flip(.3):
        a, b = (models, segs)
        if ev == 'enroll-coh':
            b = ['t%d' % i for i in range(ctx.int(1, 4))]
        if ev in ('coh-test', 'coh-coh'):
            a = ['q%d' % i for i in range(ctx.int(1, 4))]
        mk = ctx.rng.rand(len(a), len(b)) < ctx.pick([.3, 1.])
        mk[ctx.rng.randint(0, len(a), len(b)), np.arange(len(b))] = True
        mk[np.arange(len(a)), ctx.rng.randint(0, len(b), len(a))] = True
        nd = TrialNdx(a, b, mk)
        ndx_file = ctx.path('ndx.' + ctx.pick(['h5', 'txt']))
        nd.save(ndx_file)
        back = TrialNdx.load(ndx_file)
        if ev == 'enroll-test':
            models, segs = [str(s) for s in back.model_set], [str(s) for s in back.seg_set]
            mask = {(str(s), str(t)): bool(back.trial_mask[i, j]) for i, s in enumerate(back.model_set) for j, t in enumerate(back.seg_set)}
        elif ev == 'enroll-coh':
            models = [str(s) for s in back.model_set]
        elif ev == 'coh-test':
            segs = [str(s) for s in back.seg_set]
    if mask is None:
        mask = {(a, b): True for a in models for b in segs}
    mp, sp = ctx.int(1, min(4, len(models))), ctx.int(1, min(4, len(segs)))
    seen, seen_e = {}, []
    cls = MTDR if multi else TDR
    for i in range(1, mp + 1):
        for j in range(1, sp + 1):
            o = {'eval-set': ev}
            if mp > 1 or ctx.flip():
                o.update({'model-part-idx': i, 'num-model-parts': mp})
            if sp > 1 or ctx.flip():
                o.update({'seg-part-idx': j, 'num-seg-parts': sp})
            if ctx.flip():
                o['prefix'] = 'x'
            kw = parse(cls, o)
            args = (spec, ndx_file, enr_file, test_file if ev in ('enroll-coh', 'coh-coh') or ctx.flip() else None)
            r = cls(*(args + ((write_list(ctx.path('sub'), sub),) if multi else ()) + (p,)), **kw)
            out = r.read()
            xe, xt, en, ndx = out[:4]
            ctx.check(isinstance(xe, np.ndarray) and isinstance(xt, np.ndarray), "the vectors are the rows of matrices", (type(xe), type(xt)))
            M, S = [str(s) for s in ndx.model_set], [str(s) for s in ndx.seg_set]
            en = [str(s) for s in en]
            ek = [k for k, mod in enroll if mod in set(M)]
            ctx.check(en == [mod for k, mod in enroll if mod in set(M)], 'models of the enrollment vectors', en, M)
            ctx.close(xe, f(np.array([row[k] for k in ek])), 'enrollment vectors', rtol=1e-5, atol=1e-4)
            if multi:
                info = [str(s) for s in out[4]]
                tk = [k for k, s in sub if s in set(S)]
                ctx.check(info == [s for k, s in sub if s in set(S)], 'test segments of the sub-segments')
                ctx.close(xt, f(np.array([row[k] for k in tk])), 'vectors of the sub-segments', rtol=1e-5, atol=1e-4)
            else:
                ctx.close(xt, f(np.array([row[k] for k in S])), 'test vectors', rtol=1e-5, atol=1e-4)
            for a, m_ in enumerate(M):
                for b, s_ in enumerate(S):
                    ctx.check((m_, s_) not in seen, 'a trial in two parts', m_, s_)
                    seen[m_, s_] = bool(ndx.trial_mask[a, b])
    ctx.same(seen, mask, 'trials of all parts')
    ctx.event('trials', len(seen))
    ctx.sig(ev, multi, len(models), len(segs), (mp, sp))
    ctx.sample(ev=ev, multi=multi, models=len(models), segs=len(segs), parts=(mp, sp))


@case(quick=80, mult=12)
def classification(ctx):
    """the reader for classifiers: one test vector per segment, in order; plus the archive below it"""
    from hyperion.helpers import ClassifTrialDataReader as CTDR
    from hyperion.io import HypDataReader, HypDataWriter
    n = ctx.size(1, 15, 300)
    keys, x = table(ctx, n)
    field = ctx.pick(['', '/ivec', '.x'])
    other = x[::-1] + 1000
    path = ctx.path('v.h5')
    w = HypDataWriter(path)
    if ctx.flip():
        w.write(keys if ctx.flip() else np.array(keys), field, x)
    else:
        for k, v in zip(keys, x):
            w.write(k, field, v)
    if field:
        w.write(keys, field + '2', other)
    del w
    h = HypDataReader(path)
    q = [int(i) for i in ctx.rng.randint(0, n, size=ctx.int(1, 2 * n))]
    kk = [keys[i] for i in q]
    kk = kk if ctx.flip() else np.array(kk)
    ctx.close(h.read(kk, field, return_tensor=True), x[q].astype('float64'), 'stacked answers', rtol=0, atol=0)
    for a, b in zip(h.read(kk, field), q):
        ctx.close(a, x[b].astype('float64'), 'answers by key', rtol=0, atol=0)
    ctx.check([int(a) for a in h.get_num_rows(kk, field)] == [x.shape[1]] * len(q), 'numbers of rows')
    i, lo = q[0], ctx.int(0, x.shape[1] - 1)
    num = ctx.int(1, x.shape[1] - lo)
    ctx.close(h.read_slice(keys[i], lo, num, field), x[i][lo:lo + num], 'slice', rtol=0, atol=0)
    seed = ctx.seedint()
    s, at = h.read_random_slice(keys[i], num, np.random.RandomState(seed), field)
    ctx.check(0 <= at <= x.shape[1] - num, 'position of a random slice')
    ctx.close(s, x[i][at:at + num], 'random slice', rtol=0, atol=0)
    s, at = h.read_random_samples(keys[i], num, np.random.RandomState(seed), field, replace=ctx.flip())
    ctx.check(len(s) == num and set(s.tolist()) <= set(x[i].tolist()), 'random samples')
    ctx.close(s, x[i][at + int(np.where(x[i] == s[0])[0][0]) - at[0]] if len(set(x[i].tolist())) == x.shape[1] else s, 'positions of random samples', rtol=0, atol=0)

    nc = ctx.int(1, 5)
    names = ['c%d' % i for i in ctx.rng.permutation(12)[:nc]]
    c2i = write_list(ctx.path('c2i'), [(c, str(i)) for i, c in enumerate(names)])
    segs = [int(i) for i in ctx.rng.permutation(n)[:ctx.int(1, n)]]
    tf = write_list(ctx.path('t'), [(keys[i], 'zz')[:ctx.int(1, 2)] for i in segs])
    p, f = preproc(ctx, x.shape[1])
    sp = ctx.int(1, min(4, len(segs)))
    seen = []
    for j in range(1, sp + 1):
        o = {'v-field': field} if field or ctx.flip() else {}
        if sp > 1 or ctx.flip():
            o.update({'seg-part-idx': j, 'num-seg-parts': sp})
        r = CTDR(path, c2i, tf, p, **parse(CTDR, o))
        xt, ndx = r.read()
        ctx.check([str(s) for s in ndx.model_set] == names, 'classes of the file', ndx.model_set)
        S = [str(s) for s in ndx.seg_set]
        seen += S
        ctx.check(isinstance(xt, np.ndarray), 'the vectors are the rows of a matrix', type(xt))
        ctx.close(xt, f(np.array([x[keys.index(k)] for k in S])), 'test vectors', rtol=1e-5, atol=1e-4)
        ctx.check(np.all(ndx.trial_mask) and ndx.trial_mask.shape == (nc, len(S)), 'trials of a classifier')
    ctx.check(seen == [keys[i] for i in segs], 'segments of all parts', seen)
    ctx.sig(n, field, sp)
    ctx.sample(n=n, field=field, parts=sp)
