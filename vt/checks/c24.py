"""C24 linear and normalising transforms have the statistics they promise, alone, in lists and after loading"""
import numpy as np
import scipy.linalg as sla
from scipy.special import ndtri

from ..core import case


def data(ctx, n=None, d=None):
    d = ctx.int(1, 7) if d is None else d
    n = ctx.size(d + 2, 60, 3000) if n is None else n
    A = ctx.rng.randn(d, d) + 1.5 * np.eye(d)
    return ctx.rng.randn(n, d).dot(A) * ctx.pick([.1, 1., 10.]) + ctx.rng.randn(d) * ctx.pick([0., 1., 20.])


def wmoments(x, w=None):
    w = np.ones(len(x)) if w is None else w
    m = w.dot(x) / w.sum()
    return m, ((x - m) * w[:, None]).T.dot(x - m) / w.sum()


def directions(ctx, T, what):
    ctx.check(np.all(T[0] >= -1e-9), what + ': sign of the directions', T[0])


def const(ctx, got, value, label, **kw):
    ctx.close(got, np.full(np.shape(got), float(value)), label, **kw)


def posdef(ctx, d):
    A = ctx.rng.randn(d, d + 3)
    return A.dot(A.T) + .3 * np.eye(d)


@case(quick=150, mult=12)
def whitening(ctx):
    """centring, whitening, length normalisation, and the same with variances of the embeddings"""
    from hyperion.transforms import CentWhiten, CentWhitenUP, LNorm, LNormUP
    x = data(ctx)
    n, d = x.shape
    w = ctx.rng.rand(n) + .1 if ctx.flip() else None
    m, C = wmoments(x, w)
    e = np.linalg.eigvalsh(C)
    if e[0] <= 1e-7 * e[-1]:
        return ctx.check(True, 'ill conditioned')
    up = ctx.flip(.4)
    ln = ctx.flip(.4)
    cls = ((LNormUP if ln else CentWhitenUP) if up else (LNorm if ln else CentWhiten))
    v = ctx.rng.rand(n, d) + .05
    full = np.hstack((x, v)) if up else x
    t = cls()
    t.fit(full, sample_weight=w)
    tol = dict(rtol=1e-6, atol=1e-6 * max(1., np.sqrt(e[-1] / e[0])))
    ctx.close(t.mu, m, 'mean', info=cls.__name__, rtol=1e-7, atol=1e-7 * (1 + np.max(np.abs(m))))
    T = t.T
    ctx.close(T.T.dot(C).dot(T), np.eye(d), 'whitened covariance', **tol)
    ctx.close(T.T.dot(T), np.diag(1 / e[::-1]), 'principal directions in order', rtol=1e-5, atol=1e-6 / e[0])
    directions(ctx, T, 'whitening')
    mu = t.mu
    flags = ctx.int(0, 3)
    z = data(ctx, ctx.int(1, 9), d)
    vz = ctx.rng.rand(len(z), d) + .05
    if flags == 1:      # only one of both
        t = cls(mu=mu)
    elif flags == 2 and not up:
        t = cls(T=T)
        mu = np.zeros(d)
    if flags == 1 and not up:
        T = np.eye(d)
    elif flags == 1:
        t.T = T
    zin = np.hstack((z, vz)) if up else z
    got = ctx.pure(t.predict, zin)
    y = (z - mu).dot(T)
    s = vz.dot(T ** 2)
    ok = np.sum(y ** 2, 1) > 1e-2       # the length of the others is not judged
    if ln and not np.all(ok):
        y, s, z, vz, got = y[ok], s[ok], z[ok], vz[ok], got[ok]
        if not len(y):
            return ctx.check(True, 'no vector with a length')
    if ln and up:
        r = np.sqrt(np.sum(y ** 2, 1, keepdims=True))
        y, s = y / r, s / r ** 2
    elif ln:
        y = np.sqrt(d) * y / np.sqrt(np.sum(y ** 2, 1, keepdims=True))
    ctx.close(got, np.hstack((y, s)) if up else y, 'transformed: ' + cls.__name__, rtol=1e-5, atol=1e-6)
    if ln:
        const(ctx, np.sqrt(np.sum(got[:, :d] ** 2, 1)), 1 if up else np.sqrt(d), 'length', rtol=1e-5)
    ctx.event('vectors', n + len(z))
    ctx.sig(cls.__name__, d, w is None, flags)
    ctx.sample(kind=cls.__name__, dim=d, n=n)


@case(quick=80, mult=12)
def whitening_options(ctx):
    """fitting from moments, with few vectors, and keeping the mean or the matrix"""
    from hyperion.transforms import CentWhiten, LNorm
    d = ctx.int(1, 6)
    um, ut = ctx.flip(), ctx.flip()
    m0, T0 = ctx.rng.randn(d), ctx.rng.randn(d, d)
    cls = ctx.pick([CentWhiten, LNorm])
    t = cls(m0.copy(), T0.copy(), update_mu=um, update_T=ut)
    kind = ctx.int(0, 1)
    if kind == 0:
        m, C = ctx.rng.randn(d), posdef(ctx, d)
        ctx.pure(lambda a, b: t.fit(mu=a, C=b), m, C)
    else:
        x = data(ctx, ctx.int(1, d), d)      # not enough vectors for the covariance: only centred
        ctx.pure(lambda a: t.fit(a), x)
        m, C = x.mean(0), np.eye(d)
    ctx.close(t.mu, m if um else m0, 'mean with options', rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(m))), info=(um, kind))
    if ut:
        ctx.close(t.T.T.dot(C).dot(t.T), np.eye(d), 'whitening with options', atol=1e-7)
    else:
        ctx.close(t.T, T0, 'matrix that is not updated', atol=0)
    ctx.event('fits')
    ctx.sig(um, ut, kind, d, cls.__name__)


@case(quick=150, mult=12)
def projections(ctx):
    """PCA, LDA, NDA, NAP and MVN"""
    from hyperion.transforms import PCA, LDA, NDA, NAP, MVN
    kind = ctx.pick(['PCA', 'PCA', 'LDA', 'LDA', 'NDA', 'NAP', 'MVN'])
    d = ctx.int(1, 6)
    x = data(ctx, ctx.size(3 * d + 6, 70, 2000), d)
    n = len(x)
    k = ctx.int(1, d)
    dim = k if ctx.flip(.7) else None
    K = d if dim is None else k
    z = data(ctx, ctx.int(1, 8), d)
    sc = max(1., np.max(np.abs(x)))
    nc = ctx.int(2, 5)
    y = ctx.rng.permutation(np.arange(n) % nc)
    if ctx.flip(.3):
        y = np.array(['c%d' % i for i in y])
    um, ut = True, True
    if kind == 'PCA':
        m, C = wmoments(x)
        t = PCA(pca_dim=dim)
        if ctx.flip(.3):
            ctx.pure(lambda a, b: t.fit(mu=a, C=b), m, C)
        else:
            ctx.pure(lambda a: t.fit(a), x)
        T = t.T
        e = np.linalg.eigvalsh(C)[::-1]
        ctx.same(T.shape, (d, K), 'PCA dimension')
        ctx.close(T.T.dot(T), np.eye(K), 'PCA: orthonormal', atol=1e-8)
        ctx.close(T.T.dot(C).dot(T), np.diag(e[:K]), 'PCA: variances in decreasing order', rtol=1e-6, atol=1e-7 * e[0])
        directions(ctx, T, 'PCA')
        ctx.close(t.mu, m, 'PCA mean', atol=1e-8 * sc)
        want = (z - m).dot(T)
    elif kind in ('LDA', 'NDA'):
        if kind == 'LDA' and ctx.flip():
            t = LDA(lda_dim=dim)
            ctx.pure(lambda a, b: t.fit(a, b), x, y)
            ms = np.array([x[y == c].mean(0) for c in np.unique(y)])
            m = ms.mean(0)
            Sb = (ms - m).T.dot(ms - m) / nc
            Sw = sum(wmoments(x[y == c])[1] for c in np.unique(y)) / nc
        else:
            m, Sb, Sw = ctx.rng.randn(d), posdef(ctx, d), posdef(ctx, d)
            if kind == 'LDA':
                um, ut = ctx.flip(.7), ctx.flip(.7)
                m0, T0 = ctx.rng.randn(d), ctx.rng.randn(d, K)
                t = LDA(m0.copy(), T0.copy() if not ut else None, lda_dim=dim, update_mu=um, update_T=ut)
                ctx.pure(lambda a, b, c: t.fit(None, None, mu=a, Sb=b, Sw=c), m, Sb, Sw)
                if not um:
                    m = m0
                if not ut:
                    ctx.close(t.T, T0, 'matrix that is not updated', atol=0)
            else:
                t = NDA()
                ctx.pure(lambda a, b, c: t.fit(a, b, c, dim), m, Sb, Sw)
        T = t.T
        if ut:
            ev = np.linalg.eigvalsh(Sw)
            if ev[0] < 1e-6 * ev[-1]:
                return ctx.check(True, 'ill conditioned')
            r = sla.eigh(Sb, Sw, eigvals_only=True)[::-1]
            ctx.same(T.shape, (d, K), kind + ' dimension')
            ctx.close(T.T.dot(Sw).dot(T), np.eye(K), kind + ': within covariance', atol=1e-6)
            ctx.close(T.T.dot(Sb).dot(T), np.diag(r[:K]), kind + ': ratios in decreasing order', rtol=1e-5, atol=1e-6 * max(1, abs(r[0])))
            directions(ctx, T, kind)
        ctx.close(t.mu, m, kind + ' mean', atol=1e-8 * sc)
        want = (z - m).dot(T)
    elif kind == 'NAP':
        t = NAP()
        ctx.pure(lambda a, b: t.fit(a, k, b), x, y)
        U = t.U
        ctx.same(U.shape, (k, d), 'NAP dimension')
        ctx.close(U.dot(U.T), np.eye(k), 'NAP: orthonormal', atol=1e-7)
        W = sum(wmoments(x[y == c])[1] for c in np.unique(y)) / len(np.unique(y))
        e = np.linalg.eigvalsh(W)[::-1]
        ctx.close(np.trace(U.dot(W).dot(U.T)), np.sum(e[:k]), 'NAP: directions of most variation within classes', rtol=1e-6, atol=1e-9 * e[0])
        want = z - z.dot(U.T).dot(U)
        ctx.close(t.predict(want), want, 'NAP twice', atol=1e-7 * sc)
        const(ctx, want.dot(U.T), 0, 'NAP leaves the directions', atol=1e-6 * max(1, np.max(np.abs(z))))
    else:
        t = MVN()
        ctx.pure(lambda a: t.fit(a), x)
        want = (z - x.mean(0)) / x.std(0)
        g = t.predict(x)
        const(ctx, g.mean(0), 0, 'MVN mean', atol=1e-8 * sc)
        const(ctx, g.std(0), 1, 'MVN deviation', atol=1e-8)
    ctx.close(ctx.pure(t.predict, z), want, 'transformed: ' + kind, rtol=1e-6, atol=1e-7 * max(1, np.max(np.abs(want))))
    ctx.event('vectors', n)
    ctx.sig(kind, d, k, dim is None, um, ut)
    ctx.sample(kind=kind, dim=d, n=n, out=K)


@case(quick=100, mult=12)
def scatter(ctx):
    """between and within class scatter, whole or accumulated from parts of the classes; nearest-neighbour version"""
    from hyperion.transforms.sb_sw import SbSw, NSbSw
    d, nc = ctx.int(1, 5), ctx.int(2, 6)
    near = ctx.flip(.35)
    K = ctx.int(1, 4)
    sizes = [ctx.int(max(2, K), 8) for _ in range(nc)]
    y = ctx.rng.permutation(np.repeat(np.arange(nc), sizes))
    x = ctx.rng.randn(len(y), d) * ctx.pick([.5, 3.]) + ctx.rng.randn(nc, d)[y] * 2
    ms = np.array([x[y == c].mean(0) for c in range(nc)])
    m = ms.mean(0)
    if not near:
        lab = y if ctx.flip() else np.array([3, 8, 1, 40, 12, 7])[y]
        if ctx.flip(.3):
            lab = np.array(['s%d' % i for i in lab])
        Sb = (ms - m).T.dot(ms - m) / nc
        Sw = sum(wmoments(x[y == c])[1] for c in range(nc)) / nc
        s = SbSw()
        ctx.pure(lambda a, b: s.fit(a, b), x, lab)
        parts = []
        cut = ctx.int(1, nc - 1)
        for sel in (y < cut, y >= cut):
            q = SbSw()
            q.fit(x[sel], lab[sel], normalize=False)
            parts.append(q)
        keep = [(q.mu.copy(), q.Sb.copy(), q.Sw.copy(), q.num_classes) for q in parts]
        tot = SbSw.accum_stats(parts)
        if ctx.flip():
            tot.save(ctx.path('s.h5'))
            tot = SbSw.load(ctx.path('s.h5'))
        tot.normalize()
        for q, k in zip(parts, keep):
            ctx.check(all(np.array_equal(a, b) for a, b in zip((q.mu, q.Sb, q.Sw), k)) and q.num_classes == k[3], 'accumulating changes the parts')
        for o, t in ((s, 1e-9), (tot, 2e-5)):
            ctx.same(int(o.num_classes), nc, 'number of classes')
            big = max(1, np.max(np.abs(ms)) ** 2)
            ctx.close(o.mu, m, 'mean of the classes', atol=t * big)
            ctx.close(o.Sb, Sb, 'between class scatter', atol=t * big)
            ctx.close(o.Sw, Sw, 'within class scatter', atol=t * big * 10)
        ctx.sig('plain', d, nc, cut)
    else:
        alpha = ctx.pick([1, 1, 2])
        s = NSbSw(K=K, alpha=alpha)
        ctx.pure(lambda a, b: s.fit(a, b), x, y)
        dist = [np.sqrt(np.sum((x[:, None] - x[y == c][None]) ** 2, -1)) for c in range(nc)]
        D = np.zeros((nc, len(y)))
        delta = np.zeros((nc,) + x.shape)
        for c in range(nc):
            o = np.argsort(dist[c], axis=1)[:, :K]
            D[c] = np.take_along_axis(dist[c], o, 1)[:, -1]
            delta[c] = x - x[y == c][o].mean(1)
        D = D ** alpha
        Sb, Sw = np.zeros((d, d)), np.zeros((d, d))
        for i in range(nc):
            acc, wt = np.zeros((d, d)), 0.
            for l in np.nonzero(y == i)[0]:
                for j in range(nc):
                    S = np.outer(delta[j, l], delta[j, l])
                    if i == j:
                        Sw += S / sizes[i]
                    else:
                        w = min(D[i, l], D[j, l]) / (D[i, l] + D[j, l])
                        acc += w * S
                        wt += w
            if wt < 1e-9:
                return ctx.check(True, 'no weight')
            Sb += acc / wt
        ctx.close(s.mu, m, 'mean of the classes (neighbours)', atol=1e-8)
        ctx.close(s.Sw, Sw / nc, 'within class scatter (neighbours)', rtol=1e-6, atol=1e-7)
        ctx.close(s.Sb, Sb / nc, 'between class scatter (neighbours)', rtol=1e-6, atol=1e-7)
        ctx.sig('near', d, nc, K, alpha)
    ctx.event('vectors', len(y))


@case(quick=60, mult=12)
def gaussianization(ctx):
    """values become the normal quantiles of their rank among the training values"""
    from hyperion.transforms import Gaussianizer
    d, n = ctx.int(1, 5), ctx.int(1, 60)
    x = np.round(ctx.rng.randn(n, d) * 5, ctx.pick([0, 2, 6]))
    mv = None if ctx.flip() else ctx.int(2, 70)
    g = Gaussianizer(max_vectors=mv)
    ctx.pure(lambda a: g.fit(a), x)
    z = np.vstack((x[ctx.rng.permutation(n)[:ctx.int(1, n)]], ctx.rng.randn(ctx.int(1, 6), d) * 6))
    got = ctx.pure(g.predict, z)
    if mv is None or n <= mv:
        r = np.sort(x, 0)
    else:
        r = np.sort(x, 0)[np.round(np.linspace(0, n - 1, mv)).astype(int)]
    c = np.array([[np.sum(r[:, j] < z[i, j]) for j in range(d)] for i in range(len(z))])
    ctx.close(got, ndtri((c + 1.) / (len(r) + 2)), 'gaussianized', atol=1e-7)
    ctx.event('values', z.size)
    ctx.sig(d, mv is None, n <= (mv or n))


def make(ctx, d):
    """a fitted transform of d-dimensional vectors and its output dimension"""
    from hyperion import transforms as tr
    kind = ctx.pick(['CentWhiten', 'LNorm', 'PCA', 'LDA', 'NDA', 'NAP', 'MVN', 'Gaussianizer'])
    x = ctx.rng.randn(4 * d + 8, d).dot(np.eye(d) + .3 * ctx.rng.randn(d, d)) + ctx.rng.randn(d)
    y = np.arange(len(x)) % 3
    k = d
    um, ut = ctx.flip(.8), ctx.flip(.8)
    if kind in ('CentWhiten', 'LNorm'):
        t = getattr(tr, kind)(ctx.rng.randn(d), np.eye(d) + .1 * ctx.rng.randn(d, d), update_mu=um, update_T=ut)
        t.fit(x)
        if ctx.flip(.2):
            t.mu = None
    elif kind == 'PCA':
        k = ctx.int(1, d)
        t = tr.PCA(pca_dim=k, update_mu=um)
        t.fit(x)
    elif kind == 'LDA':
        k = ctx.int(1, d)
        t = tr.LDA(ctx.rng.randn(d), lda_dim=k, update_mu=um)
        t.fit(x, y)
    elif kind == 'NDA':
        k = ctx.int(1, d)
        t = tr.NDA()
        t.fit(ctx.rng.randn(d), posdef(ctx, d), posdef(ctx, d), k)
    elif kind == 'NAP':
        t = tr.NAP()
        t.fit(x, ctx.int(1, d), y)
    elif kind == 'MVN':
        t = tr.MVN()
        t.fit(x)
    else:
        t = tr.Gaussianizer(max_vectors=ctx.pick([None, 7]))
        t.fit(x)
    return kind, t, k


@case(quick=120, mult=12)
def lists_and_files(ctx):
    """a list applies its transforms in order; saved and loaded (alone, in a list, as matrices) they are the same"""
    from hyperion import transforms as tr
    d = ctx.int(1, 5)
    z = ctx.rng.randn(ctx.int(1, 6), d) * 2
    n = ctx.int(1, 4) if ctx.flip(.85) else ctx.int(9, 13)
    ts, kinds, k = [], [], d
    for i in range(n):
        kind, t, k2 = make(ctx, k)
        t.name = 't%d%s' % (i, ctx.pick(['', '-x']))
        ts.append(t)
        kinds.append(kind)
        k = k2
    steps = [z]
    for t in ts:
        steps.append(t.predict(steps[-1].copy()))
    # alone
    names = [t.name for t in ts]
    for i, t in enumerate(ts):
        if ctx.flip(.3):
            t.name = None
        p = ctx.path('t%d.h5' % i)
        t.save(p)
        q = type(t).load(p)
        look(ctx, t, q, kinds[i])
        zz = np.round(ctx.rng.randn(5, steps[i].shape[1]) * 3, 1) + .05
        ctx.close(q.predict(zz), t.predict(zz), 'loaded ' + kinds[i], rtol=1e-4, atol=1e-3)
        if hasattr(t, 'save_mat') and getattr(t, 'mu', 0) is not None and ctx.flip():
            t.save_mat(p)
            q = type(t).load_mat(p)
            ctx.close(q.predict(zz), t.predict(zz), 'matrices of ' + kinds[i], rtol=1e-4, atol=1e-3)
        t.name = names[i]
    # list
    nm = ctx.pick([None, 'all'])
    from hyperion.pipeline.pipeline import Pipeline
    TL = ctx.pick([tr.TransformList, tr.TransformList, Pipeline])
    if n > 1 and ctx.flip():
        L = TL(list(ts[:1]), name=nm)
        for t in ts[1:]:
            L.append(t)
    elif n == 1 and ctx.flip():
        L = TL(ts[0], name=nm)
    else:
        L = TL(list(ts), name=nm)
    ctx.close(ctx.pure(L.predict, z), steps[-1], 'list of transforms', rtol=1e-9, atol=1e-9, info=kinds)
    p = ctx.path('dir/list.h5')
    for rep in range(2):
        L.save(p)
        M = TL.load(p)
        ctx.same([type(t).__name__ for t in M.transforms], kinds, 'transforms of the loaded list')
        for a, b in zip(ts, M.transforms):
            look(ctx, a, b, 'list')
        ctx.same(M.name, nm, 'name of the loaded list')
        x = z
        for a, b in zip(ts, M.transforms):
            v = np.round(ctx.rng.randn(5, x.shape[1]) * 3, 1) + .05
            if type(a).__name__ != 'Gaussianizer':
                ctx.close(b.predict(v), a.predict(v), 'member of the loaded list', rtol=1e-3, atol=5e-3, info=kinds)
            x = b.predict(x)
        ctx.close(M.predict(z), x, 'loaded list', rtol=1e-9, atol=1e-9, info=kinds)
        L = M
    ctx.event('transforms', n)
    ctx.sig(tuple(kinds), nm, TL.__name__)
    ctx.sample(kinds=' '.join(kinds), name=nm)


def look(ctx, a, b, when):
    ctx.same(b.name, a.name, 'name after loading (%s)' % when)
    for k in ('mu', 'T', 'U', 's', 'r'):
        if hasattr(a, k):
            u, v = getattr(a, k), getattr(b, k)
            ctx.same(v is None, u is None, '%s after loading (%s)' % (k, when))
            if u is not None:
                ctx.close(v, u, '%s after loading (%s)' % (k, when), rtol=1e-6, atol=1e-6 * max(1e-3, np.max(np.abs(u))))
    for k in ('update_mu', 'update_T', 'pca_dim', 'lda_dim', 'max_vectors'):
        if hasattr(a, k):
            ctx.same(getattr(b, k), getattr(a, k), '%s after loading (%s)' % (k, when))
