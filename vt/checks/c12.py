"""C12 trial lists, keys and scores keep every (model, segment) entry in its place"""
import numpy as np

from ..core import case
from ..iolib import gen_keys

# model of a table: (models in order, segments in order, {(m, s): value}); the value is
# True/False for lists, 1/0/-1 for keys, None or a number for scores


def ids(ctx, n, pre, pool=None):
    if pool is None:
        pool = ['%s%d' % (pre, i) for i in range(14)] + [pre + 'x-%d' % i for i in range(4)]
        if ctx.flip(.15):
            pool += [pre + x for x in ('Ñ-1', 'é', '日本', 'NA')]
    return [pool[int(i)] for i in ctx.rng.permutation(len(pool))[:n]]


class NdxKind(object):
    name = 'ndx'

    def value(self, ctx):
        return ctx.flip(.6)

    def build(self, ctx, t):
        from hyperion.utils import TrialNdx
        M, S, d = t
        mask = np.array([[d[m, s] for s in S] for m in M], dtype='bool').reshape(len(M), len(S))
        if ctx.flip(.3) and mask.all():
            mask = None
        return TrialNdx(arr(ctx, M), arr(ctx, S), mask)

    def read(self, o):
        return {(str(m), str(s)): bool(o.trial_mask[i, j]) for i, m in enumerate(o.model_set) for j, s in enumerate(o.seg_set)}

    none = False

    def join(self, a, b):
        return a or b

    def text(self, t):
        return ['%s %s' % k for k, v in t[2].items() if v]


class KeyKind(object):
    name = 'key'
    none = 0

    def value(self, ctx):
        return ctx.int(-1, 1)

    def build(self, ctx, t):
        from hyperion.utils import TrialKey
        M, S, d = t
        v = np.array([[d[m, s] for s in S] for m in M]).reshape(len(M), len(S))
        return TrialKey(arr(ctx, M), arr(ctx, S), v > 0, v < 0)

    def read(self, o):
        out = {}
        for i, m in enumerate(o.model_set):
            for j, s in enumerate(o.seg_set):
                out[str(m), str(s)] = int(bool(o.tar[i, j])) - int(bool(o.non[i, j]))
        return out

    def text(self, t):
        return ['%s %s %s' % (k + ('target' if v > 0 else 'nontarget',)) for k, v in t[2].items() if v]


class ScoreKind(object):
    name = 'scores'
    none = None

    def value(self, ctx):
        return None if ctx.flip(.3) else float(np.round(ctx.rng.randn() * 10, 4))

    def build(self, ctx, t):
        from hyperion.utils import TrialScores
        M, S, d = t
        mask = np.array([[d[m, s] is not None for s in S] for m in M], dtype='bool').reshape(len(M), len(S))
        sc = np.array([[d[m, s] if d[m, s] is not None else ctx.pick([0., 55.]) for s in S] for m in M],
                      dtype=float).reshape(len(M), len(S))
        if mask.all() and ctx.flip(.3):
            mask = None
        return TrialScores(arr(ctx, M), arr(ctx, S), sc, mask)

    def read(self, o):
        return {(str(m), str(s)): (float(o.scores[i, j]) if o.score_mask[i, j] else None)
                for i, m in enumerate(o.model_set) for j, s in enumerate(o.seg_set)}

    def text(self, t):
        return ['%s %s %f' % (k + (v,)) for k, v in t[2].items() if v is not None]


KINDS = [NdxKind(), KeyKind(), ScoreKind()]


def arr(ctx, x):
    return list(x) if ctx.flip() else np.array(x)


def gen(ctx, K, M=None, S=None):
    M = ids(ctx, ctx.size(1, 6, 80), 'm') if M is None else M
    S = ids(ctx, ctx.size(1, 7, 120), 's') if S is None else S
    return M, S, {(m, s): K.value(ctx) for m in M for s in S}


def sub(t, M, S):
    return list(M), list(S), {(m, s): t[2][m, s] for m in M for s in S}


def look(ctx, K, o, t, when):
    ctx.same([str(x) for x in o.model_set], list(t[0]), '%s: models after %s' % (K.name, when))
    ctx.same([str(x) for x in o.seg_set], list(t[1]), '%s: segments after %s' % (K.name, when))
    ctx.same((o.num_models, o.num_tests), (len(t[0]), len(t[1])), '%s: sizes after %s' % (K.name, when))
    g = K.read(o)
    if K.name == 'scores':
        ctx.same({k for k in g if g[k] is None}, {k for k in g if t[2][k] is None}, 'scores: trials without score after ' + when)
        ks = [k for k in g if g[k] is not None]
        ctx.close([g[k] for k in ks], [t[2][k] for k in ks], 'scores: values after ' + when, rtol=1e-6, atol=1e-6)
    else:
        ctx.same(g, t[2], '%s: entries after %s' % (K.name, when))


def settle(K, o, t):
    """the model with the order of rows and columns the operation chose"""
    return [str(x) for x in o.model_set], [str(x) for x in o.seg_set], t[2]


@case(quick=400, mult=12)
def history(ctx):
    """any history of operations on one of the three tables"""
    K = ctx.pick(KINDS)
    t = gen(ctx, K)
    o = K.build(ctx, t)
    cls = type(o)
    ops = []
    for _ in range(ctx.int(1, 6)):
        op = ctx.pick(['sort', 'h5', 'txt', 'merge', 'filter', 'filter-out', 'split', 'copy'])
        ops.append(op)
        o0, t0 = o, t
        if op == 'sort':
            o = o.copy()
            o.sort()
            t = sub(t, sorted(t[0]), sorted(t[1]))
        elif op == 'h5':
            p = ctx.path(ctx.pick(['a.h5', 'a.hdf5']))
            o.save(p)
            o = cls.load(p)
            ctx.check(o == o0 and not (o != o0), 'loaded table is not equal to the saved one')
        elif op == 'txt':
            p = ctx.path('a.txt')
            o.save(p)
            want = K.text(t)
            ctx.same(sorted(open(p).read().splitlines()), sorted(want), 'lines of the text file')
            if not want:
                continue
            o = cls.load(p)
            used = [k for k, v in t[2].items() if v != K.none]
            M, S = sorted({m for m, _ in used}), sorted({s for _, s in used})
            t = sub(t, M, S)
        elif op == 'merge':
            n = ctx.int(1, 3)
            ts = [t]
            for _ in range(n):
                M = ids(ctx, ctx.int(1, 5), 'm')
                S = ids(ctx, ctx.int(1, 5), 's')
                x = gen(ctx, K, M, S)
                taken = {k for y in ts for k, v in y[2].items() if v != K.none}
                if K.name != 'ndx':     # one table has each trial
                    x = (x[0], x[1], {k: (K.none if k in taken else v) for k, v in x[2].items()})
                ts.append(x)
            objs = [o] + [K.build(ctx, x) for x in ts[1:]]
            o = cls.merge(objs)
            M, S = sorted({m for x in ts for m in x[0]}), sorted({s for x in ts for s in x[1]})
            d = {}
            for m in M:
                for s in S:
                    v = [x[2][m, s] for x in ts if (m, s) in x[2] and x[2][m, s] != K.none]
                    d[m, s] = v[0] if v else K.none
            ctx.same(sorted(str(x) for x in o.model_set), M, 'models of the merge')
            ctx.same(sorted(str(x) for x in o.seg_set), S, 'segments of the merge')
            t = settle(K, o, (M, S, d))
            for a, b in zip(objs, ts):
                look(ctx, K, a, b, 'merging (an input)')
        elif op in ('filter', 'filter-out'):
            M = [m for m in ids(ctx, len(t[0]), 'm', list(t[0])) if ctx.flip(.7)] or [t[0][0]]
            S = [s for s in ids(ctx, len(t[1]), 's', list(t[1])) if ctx.flip(.7)] or [t[1][0]]
            if op == 'filter':
                o = o.filter(np.array(M), np.array(S))
                t = sub(t, M, S)
                ctx.raises(lambda: o0.filter(np.array(M + ['absent']), np.array(S)), 'filtering by a model that is not there')
                ctx.raises(lambda: o0.filter(np.array(M), np.array(S + ['absent'])), 'filtering by a segment that is not there')
            else:
                if len(M) == len(t[0]) or len(S) == len(t[1]):
                    continue
                o = o.filter(np.array(M), np.array(S), keep=False)
                M, S = [m for m in t[0] if m not in M], [s for s in t[1] if s not in S]
                ctx.same(sorted(str(x) for x in o.model_set), sorted(M), 'models left')
                ctx.same(sorted(str(x) for x in o.seg_set), sorted(S), 'segments left')
                t = settle(K, o, sub(t, M, S))
        elif op == 'split':
            P, Q = ctx.int(1, min(12, len(t[0]))), ctx.int(1, min(12, len(t[1])))
            seen = set()
            parts = {}
            for i in range(1, P + 1):
                for j in range(1, Q + 1):
                    q = o.split(i, P, j, Q)
                    g = sub(t, [str(x) for x in q.model_set], [str(x) for x in q.seg_set])
                    look(ctx, K, q, g, 'splitting')
                    ctx.check(len(g[2]) > 0, 'empty part')
                    ctx.check(not (seen & set(g[2])), 'trial in two parts')
                    seen |= set(g[2])
                    parts[i, j] = (q, g)
            ctx.same(seen, set(t[2]), 'parts do not make up the table')
            if ctx.flip(.4):
                whole = cls.merge([q for q, _ in parts.values()])
                look(ctx, K, whole, settle(K, whole, t), 'splitting and merging')
            o, t = ctx.pick(list(parts.values()))
        else:
            o = o.copy()
        look(ctx, K, o, t, op)
        if o is not o0:
            look(ctx, K, o0, t0, op + ' (the original)')
        # equality tells tables apart
        k = ctx.pick(sorted(t[2]))
        v = t[2][k]
        d = dict(t[2])
        d[k] = {'ndx': not v, 'key': {1: -1, -1: 0, 0: 1}.get(v), 'scores': 1. if v is None else v + 1}[K.name]
        a, b = K.build(ctx, t), K.build(ctx, (t[0], t[1], d))
        ctx.check(not (a == b) and a != b, '%s: different tables compare equal' % K.name, k)
        i = int(ctx.flip())
        j = ctx.int(0, len(t[i]) - 1)
        ren = {t[i][j]: t[i][j] + '~'}
        b = K.build(ctx, ([ren.get(m, m) for m in t[0]], [ren.get(s, s) for s in t[1]],
                          {(ren.get(m, m) if i == 0 else m, ren.get(s, s) if i else s): v for (m, s), v in t[2].items()}))
        ctx.check(not (a == b) and a != b, '%s: tables of other names compare equal' % K.name, ren)
        if K.name != 'scores':
            ctx.check(a == o, '%s: equal tables compare different' % K.name)
    ctx.event('operations:' + K.name, len(ops))
    ctx.sig(K.name, tuple(ops[:3]))
    ctx.sample(kind=K.name, ops=' '.join(ops))


@case(quick=300, mult=12)
def conditions(ctx):
    """conditions of models, segments and trials follow them through the operations of the key"""
    from hyperion.utils import TrialKey
    K = KINDS[1]
    PRE = ('mc', 'sc', 'tc')
    C = [['%s%d' % (p, i) for i in range(ctx.int(0, 2))] for p in PRE]     # names of the conditions of each kind
    named = ctx.flip(.8)

    def make(M, S, C):
        t = gen(ctx, K, M, S)
        mc = {(c, m): ctx.flip() for c in C[0] for m in M}
        sc = {(c, s): ctx.flip() for c in C[1] for s in S}
        tc = {(c, m, s): ctx.flip() for c in C[2] for m in M for s in S}
        o = K.build(ctx, t)
        nm = lambda C: arr(ctx, C) if C and named else None
        o = TrialKey(o.model_set, o.seg_set, o.tar, o.non,
                     np.array([[mc[c, m] for m in M] for c in C[0]]) if C[0] else None,
                     np.array([[sc[c, s] for s in S] for c in C[1]]) if C[1] else None,
                     np.array([[[tc[c, m, s] for s in S] for m in M] for c in C[2]]) if C[2] else None,
                     nm(C[0]), nm(C[1]), nm(C[2]))
        return o, t, [mc, sc, tc]

    def conds(o):
        mc = {(c, str(m)): bool(o.model_cond[k, i]) for k, c in enumerate(C[0]) for i, m in enumerate(o.model_set)}
        sc = {(c, str(m)): bool(o.seg_cond[k, i]) for k, c in enumerate(C[1]) for i, m in enumerate(o.seg_set)}
        tc = {(c, str(m), str(s)): bool(o.trial_cond[k, i, j]) for k, c in enumerate(C[2]) for i, m in enumerate(o.model_set)
              for j, s in enumerate(o.seg_set)}
        return [mc, sc, tc]
    o, t, cv = make(ids(ctx, ctx.size(1, 5, 50), 'm'), ids(ctx, ctx.size(1, 5, 70), 's'), C)
    ops = []
    for _ in range(ctx.int(1, 4)):
        op = ctx.pick(['sort', 'file', 'filter', 'split', 'merge'])
        ops.append(op)
        M, S = t[0], t[1]
        if op == 'sort':
            o.sort()
            t = sub(t, sorted(M), sorted(S))
        elif op == 'file':
            o0 = o
            o.save(ctx.path('k.h5'))
            o = TrialKey.load(ctx.path('k.h5'))
            ctx.check(o == o0, 'loaded key is not equal to the saved one')
        elif op == 'filter':
            M = [m for m in ids(ctx, len(M), 'm', list(M)) if ctx.flip(.7)] or [M[0]]
            S = [s for s in ids(ctx, len(S), 's', list(S)) if ctx.flip(.7)] or [S[0]]
            if len(M) < len(t[0]) and len(S) < len(t[1]) and ctx.flip():
                o = o.filter(np.array(M), np.array(S), keep=False)
                M, S = [str(x) for x in o.model_set], [str(x) for x in o.seg_set]
            else:
                o = o.filter(np.array(M), np.array(S))
            t = sub(t, M, S)
        elif op == 'split':
            P, Q = ctx.int(1, len(M)), ctx.int(1, len(S))
            o = o.split(ctx.int(1, P), P, ctx.int(1, Q), Q)
            t = sub(t, [str(x) for x in o.model_set], [str(x) for x in o.seg_set])
        else:
            M2 = [ctx.pick(['new', 'a', 'm1']) + '%d%d' % (len(ops), i) for i in range(ctx.int(1, 3))]
            S2 = ids(ctx, ctx.int(1, 3), 's')
            if ctx.flip(.4):
                M2 = M2 + [ctx.pick(list(M))]       # a model that both have, with other segments
                S2 = ['%s-%d' % (s_, len(ops)) for s_ in S2]
            M2 = [M2[int(i)] for i in ctx.rng.permutation(len(M2))]
            C2 = [list(x) for x in C]
            if named:           # the other key may have other conditions, or the same in another order
                C2 = [[x for x in ['%s%d' % (p, i) for i in ctx.rng.permutation(3)] if ctx.flip(.6)] if ctx.flip() else x
                      for p, x in zip(PRE, C2)]
            elif ctx.flip(.2):  # the other may have none
                C2[ctx.int(0, 2)] = []
            o2, t2, cv2 = make(list(dict.fromkeys(M2)), S2, C2)
            both = [o, o2] if ctx.flip() else [o2, o]
            o = TrialKey.merge(both)
            M, S = sorted(set(t[0]) | set(t2[0])), sorted(set(t[1]) | set(t2[1]))
            d = {(m, s): t[2].get((m, s), 0) or t2[2].get((m, s), 0) for m in M for s in S}
            t = settle(K, o, (M, S, d))
            ctx.same((sorted(t[0]), sorted(t[1])), (M, S), 'sets of the merge')
            cv = [{k: x.get(k, False) or y.get(k, False) for k in set(x) | set(y)} for x, y in zip(cv, cv2)]
            have = [sorted(set(x) | set(y)) for x, y in zip(C, C2)]
            if named:           # in whichever order
                C = [[] if a is None else [str(x) for x in a] for a in (o.model_cond_name, o.seg_cond_name, o.trial_cond_name)]
                ctx.same([sorted(c) for c in C], have, 'names of the conditions of the merge')
            else:
                C = have
        look(ctx, K, o, t, op)
        M, S = t[0], t[1]
        want = [{(c, m): cv[0].get((c, m), False) for c in C[0] for m in M},
                {(c, s): cv[1].get((c, s), False) for c in C[1] for s in S},
                {(c, m, s): cv[2].get((c, m, s), False) for c in C[2] for m in M for s in S}]
        cv = want
        for a, c, w in zip((o.model_cond, o.seg_cond, o.trial_cond), C, ('model', 'segment', 'trial')):
            ctx.same(0 if a is None else len(a), len(c), 'number of %s conditions after %s' % (w, op))
        g = conds(o)
        ctx.same(g[0], want[0], 'model conditions after ' + op)
        ctx.same(g[1], want[1], 'segment conditions after ' + op)
        ctx.same(g[2], want[2], 'trial conditions after ' + op)
        for a, c in zip((o.model_cond_name, o.seg_cond_name, o.trial_cond_name), C):
            ctx.same(None if a is None else [str(x) for x in a], c if c and named else None,
                     'names of the conditions after ' + op)
    if ctx.flip(.3):    # conditions without a name can not be told apart
        c1 = [x[:1] for x in C]
        k = ctx.int(0, 2)
        c1[k] = ['a', 'b', 'c'][:len(C[k]) + 1 if len(C[k]) < 3 else 2]
        if C[k]:
            named = False
            a, b = make(['x', 'y'], ['u'], [C[i] if i == k else [] for i in range(3)])[0], \
                make(['z'], ['v'], [c1[i] if i == k else [] for i in range(3)])[0]
            ctx.raises(lambda: TrialKey.merge([a, b]), 'merging different numbers of conditions without names')
    ctx.event('operations', len(ops))
    ctx.sig(tuple(ops), tuple(map(len, C)), named)


@case(quick=300, mult=12)
def scoring(ctx):
    """aligning scores with a list or key, target/non-target scores, filling of missing trials, transforming"""
    from hyperion.utils import TrialNdx, TrialKey
    KS = KINDS[2]
    t = gen(ctx, KS)
    o = KS.build(ctx, t)
    KN = KINDS[ctx.int(0, 1)]
    pm, ps = list(t[0]), list(t[1])
    if ctx.flip(.4):
        pm += ['newm%d' % i for i in range(ctx.int(1, 2))]
    if ctx.flip(.4):
        ps += ['news%d' % i for i in range(ctx.int(1, 2))]
    M = [m for m in ids(ctx, len(pm), 'm', pm) if ctx.flip(.8)] or pm[:1]
    S = [s for s in ids(ctx, len(ps), 's', ps) if ctx.flip(.8)] or ps[:1]
    n = gen(ctx, KN, M, S)
    if ctx.flip(.5):      # only ask for trials with scores
        n = (M, S, {k: (v if t[2].get(k) is not None else KN.none) for k, v in n[2].items()})
    ndx = KN.build(ctx, n)
    asked = {k for k, v in n[2].items() if v != KN.none}
    have = {k for k in asked if t[2].get(k) is not None}
    known = set(M) <= set(t[0]) and set(S) <= set(t[1])
    want = (M, S, {k: (t[2][k] if k in have else None) for k in n[2]})
    if have == asked and known:
        look(ctx, KS, o.align_with_ndx(ndx), want, 'aligning')
        if KN.name == 'key':
            tar, non = o.get_tar_non(ndx)
            ctx.close(np.sort(tar), sorted(t[2][k] for k in asked if n[2][k] > 0), 'target scores', atol=1e-6)
            ctx.close(np.sort(non), sorted(t[2][k] for k in asked if n[2][k] < 0), 'non-target scores', atol=1e-6)
    else:
        ctx.raises(lambda: o.align_with_ndx(ndx), 'missing scores are not reported')
        if KN.name == 'key':
            ctx.raises(lambda: o.get_tar_non(ndx), 'missing scores are not reported')
    a = o.align_with_ndx(ndx, raise_missing=False)
    look(ctx, KS, a, want, 'aligning with missing trials')
    v = float(ctx.int(-20, 20))
    f = o.set_missing_to_value(ndx, v)
    look(ctx, KS, f, (M, S, {k: (want[2][k] if k in have else v if k in asked else None) for k in n[2]}), 'filling')
    look(ctx, KS, o, t, 'aligning and filling (the original)')
    f = o.filter(np.array(M), np.array(S), raise_missing=False)
    look(ctx, KS, f, (M, S, {k: t[2].get(k) for k in n[2]}), 'filtering with missing')
    o.transform(lambda x: 2 * x + 1)
    look(ctx, KS, o, (t[0], t[1], {k: None if x is None else 2 * x + 1 for k, x in t[2].items()}), 'transforming')
    if KN.name == 'key':
        look(ctx, KINDS[0], ndx.to_ndx(), (M, S, {k: k in asked for k in n[2]}), 'turning the key into a list')
    ctx.event('trials', len(asked))
    ctx.sig(KN.name, have == asked, known, len(asked) > 0, len(M), len(S))
    ctx.sample(kind=KN.name, asked=len(asked), have=len(have))


@case(quick=80, mult=12)
def checks_and_eval_sets(ctx):
    """repeated names and wrong sizes are refused; cohort lists; segmentation of the tests"""
    from hyperion.utils import TrialNdx, TrialKey, TrialScores, Utt2Info, ExtSegmentList
    M, S = ids(ctx, ctx.int(2, 5), 'm'), ids(ctx, ctx.int(2, 5), 's')
    R, C = len(M), len(S)
    z = np.zeros((R, C))
    ctx.raises(lambda: TrialNdx(M[:-1] + [M[0]], S), 'repeated model taken')
    ctx.raises(lambda: TrialNdx(M, S[:-1] + [S[0]]), 'repeated segment taken')
    ctx.raises(lambda: TrialKey(M, S[:-1] + [S[0]], z > 0, z > 0), 'repeated segment taken')
    ctx.raises(lambda: TrialScores(M[:-1] + [M[0]], S, z), 'repeated model taken')
    bad = np.zeros((R + 1, C)) if ctx.flip() else np.zeros((R, C + 1))
    ctx.raises(lambda: TrialNdx(M, S, bad > 0), 'mask of another size taken')
    ctx.raises(lambda: TrialKey(M, S, bad > 0, bad > 0), 'key of another size taken')
    ctx.raises(lambda: TrialScores(M, S, bad), 'scores of another size taken')
    y = z.copy()
    y[ctx.int(0, R - 1), ctx.int(0, C - 1)] = ctx.pick([np.nan, np.inf, -np.inf])
    ctx.raises(lambda: TrialScores(M, S, y), 'non-finite score taken')
    d = TrialScores(M, S)
    ctx.check(np.all(d.scores == 0) and d.scores.shape == (R, C) and np.all(d.score_mask), 'default scores')
    ctx.check(np.all(TrialNdx(M, S).trial_mask), 'default mask is every trial')
    # evaluation sets
    t = gen(ctx, KINDS[0], M, S)
    ndx = KINDS[0].build(ctx, t)
    en = [('%s-e%d' % (m, i), m) for m in M + ['other'] for i in range(ctx.int(1, 2))]
    coh = [('c%d' % i, 'cc') for i in range(ctx.int(1, 4))]
    ti = [('t%d' % i, 'x') for i in range(ctx.int(1, 4))]
    enroll = Utt2Info.create([a for a, _ in en], [b for _, b in en])
    cohort = Utt2Info.create([a for a, _ in coh], [b for _, b in coh])
    test = Utt2Info.create([a for a, _ in ti], [b for _, b in ti])
    n2, e2 = TrialNdx.parse_eval_set(ndx, enroll, test, 'enroll-test')
    look(ctx, KINDS[0], n2, t, 'parsing enroll-test')
    ctx.same([str(k) for k in e2.key], [a for a, b in en if b in M], 'enrolled keys')
    full = lambda A, B: (A, B, {(a, b): True for a in A for b in B})
    n2, e2 = TrialNdx.parse_eval_set(ndx, enroll, test, 'enroll-coh')
    look(ctx, KINDS[0], n2, full(M, [a for a, _ in ti]), 'parsing enroll-coh')
    n2, e2 = TrialNdx.parse_eval_set(ndx, cohort, test, 'coh-test')
    look(ctx, KINDS[0], n2, full([a for a, _ in coh], S), 'parsing coh-test')
    n2, e2 = TrialNdx.parse_eval_set(ndx, cohort, test, 'coh-coh')
    look(ctx, KINDS[0], n2, full([a for a, _ in coh], [a for a, _ in ti]), 'parsing coh-coh')
    ctx.event('refusals', 9)
    ctx.sig(R, C, bad.shape)
