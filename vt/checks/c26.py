"""C26 mixtures of Gaussians: densities, posteriors, statistics, EM, splitting, samples and files"""
import numpy as np
from scipy.special import logsumexp
from scipy.stats import multivariate_normal, norm

from ..core import case

KINDS = ['full', 'diag', 'tied']


def cls_of(kind):
    from hyperion.pdfs.mixtures import GMM, GMMDiagCov, GMMTiedDiagCov
    return dict(full=GMM, diag=GMMDiagCov, tied=GMMTiedDiagCov)[kind]


def params(ctx, kind, K=None, d=None):
    K = ctx.size(1, 5, 70) if K is None else K
    d = ctx.int(1, 4) if d is None else d
    pi = ctx.rng.rand(K) + .1
    pi /= pi.sum()
    mu = ctx.rng.randn(K, d) * ctx.pick([.5, 3.])
    if kind == 'full':
        L = np.zeros((K, d, d))
        for k in range(K):
            A = ctx.rng.randn(d, d + 2)
            L[k] = A.dot(A.T) / d + .3 * np.eye(d)
    else:
        L = ctx.rng.rand(*((K, d) if kind == 'diag' else (d,))) * 2 + .2
    return K, d, pi, mu, L


def prec(kind, L, K):
    """K precision matrices"""
    if kind == 'full':
        return L
    if kind == 'diag':
        return np.array([np.diag(a) for a in L])
    return np.array([np.diag(L)] * K)


def joint(x, kind, pi, mu, L):
    P = prec(kind, L, len(pi))
    with np.errstate(divide='ignore'):
        lp = np.log(pi)
    return np.array([np.atleast_1d(multivariate_normal(mu[k], np.linalg.inv(P[k])).logpdf(x).reshape(-1)) + lp[k]
                     for k in range(len(pi))]).T


def posteriors(x, *a):
    j = joint(x, *a)
    return np.exp(j - logsumexp(j, axis=1)[:, None])


def stats(x, z, kind):
    """zero, first and second order (matrices) per component"""
    N = z.sum(0)
    F = z.T.dot(x)
    S = np.einsum('nk,ni,nj->kij', z, x, x)
    if kind != 'full':
        S = np.array([np.diag(s) for s in S])
    return N, F, S


def pack(N, F, S, kind):
    if kind != 'full':
        return np.hstack((F, S))
    i, j = np.triu_indices(F.shape[1])
    return np.hstack((F, S[:, i, j]))


def scale(L, *xs):
    return 1 + np.max(np.abs(L)) * sum(np.max(np.abs(x)) ** 2 for x in xs)


def agree(ctx, g, kind, pi, mu, L, x, when, tol=1e-7):
    """parameters and densities of the mixture are those of (pi, mu, L)"""
    K, d = mu.shape
    P = prec(kind, L, K)
    sc = scale(L, x, mu)
    ctx.close(g.pi, pi, 'weights ' + when, rtol=tol, atol=tol)
    ctx.close(np.exp(g.log_pi), pi, 'log-weights ' + when, rtol=tol * 10, atol=tol)
    ctx.close(g.mu, mu, 'means ' + when, rtol=tol, atol=tol * (1 + np.max(np.abs(mu))))
    ctx.close(g.Lambda, L, 'precisions ' + when, rtol=tol * 10, atol=tol * np.max(np.abs(L)))
    C = np.array([np.linalg.inv(p) for p in P])
    Cw = dict(full=C, diag=np.array([np.diag(c) for c in C]), tied=np.diag(C[0]))[kind]
    ctx.close(g.Sigma, Cw, 'covariances ' + when, rtol=tol * 100, atol=tol * 10 * np.max(np.abs(C)))
    ld = np.array([np.linalg.slogdet(p)[1] for p in P])
    ctx.close(g.logLambda, ld[0] if kind == 'tied' else ld, 'log-determinants ' + when, rtol=tol, atol=tol * 100)
    ch = np.asarray(g.cholLambda)
    if kind == 'full':
        ctx.close(np.einsum('kij,klj->kil', ch, ch), P, 'factors of the precisions ' + when, rtol=tol * 10, atol=tol * np.max(np.abs(L)))
    else:
        ctx.close(ch ** 2, L, 'factors of the precisions ' + when, rtol=tol * 10, atol=tol)
    # densities: those of these parameters, strictly
    pi, mu, L, tol = np.asarray(g.pi), np.asarray(g.mu), np.asarray(g.Lambda), 1e-7
    j = joint(x, kind, np.maximum(pi, 1e-15), mu, L)
    want = logsumexp(j, axis=1)
    ok = want > -600        # the others would underflow in a product form
    x, j, want = x[ok], j[ok], want[ok]
    if not len(x):
        return
    t = dict(rtol=tol, atol=tol * sc)
    ctx.close(ctx.pure(g.log_prob, x), want, 'log-density (natural) ' + when, **t)
    ctx.close(ctx.pure(lambda a: g.log_prob(a, mode='std'), x), want, 'log-density (standard) ' + when, **t)
    z = ctx.pure(g.compute_pz, x)
    ctx.close(z, np.exp(j - want[:, None]), 'posteriors ' + when, rtol=tol, atol=tol * 10 * sc)
    ctx.close(z.sum(1), np.ones(len(x)), 'posteriors do not add to one ' + when, atol=1e-9)
    ctx.close(g.compute_pz(x, mode='std'), z, 'posteriors (standard) ' + when, atol=tol * sc)


def unsaid(ctx, **kw):
    """options; one that has its usual value may be left out"""
    return {k: v for k, (v, usual) in kw.items() if v != usual or ctx.flip()}


@case(quick=300, mult=12)
def densities(ctx):
    """densities, posteriors and derived parameters, by standard and natural parameters"""
    kind = ctx.pick(KINDS)
    cls = cls_of(kind)
    K, d, pi, mu, L = params(ctx, kind)
    x = mu[ctx.int(0, K - 1)] + ctx.rng.randn(ctx.size(1, 8, 2000), d) * ctx.pick([.3, 1., 4.])
    g = cls(x_dim=d, pi=pi.copy(), mu=mu.copy(), Lambda=L.copy())
    eta = ctx.pure(cls.compute_eta, mu, L)
    h = cls(x_dim=d, pi=pi.copy(), eta=eta.copy())
    ctx.check(g.is_init and h.is_init, 'initialised')
    for o, when in ((g, 'from standard parameters'), (h, 'from natural parameters')):
        agree(ctx, o, kind, pi, mu, L, x, when)
        ctx.close(o.eta, eta, 'natural parameters ' + when, rtol=1e-9, atol=1e-9)
    m2, L2 = ctx.pure(cls.compute_std, eta)
    ctx.close(m2, mu, 'means of natural parameters', rtol=1e-7, atol=1e-7)
    ctx.close(L2, L, 'precisions of natural parameters', rtol=1e-9, atol=1e-9)
    if kind == 'full' or ctx.flip():
        P = prec(kind, L, K)
        A = .5 * d * np.log(2 * np.pi) - .5 * np.array([np.linalg.slogdet(p)[1] for p in P]) + .5 * np.einsum('ki,kij,kj->k', mu, P, mu)
        ctx.close(g.A, A, 'log-partitions', rtol=1e-7, atol=1e-8 * scale(L, mu))
        if kind != 'tied':
            ctx.close(cls.compute_A_std(mu, L), A, 'log-partitions of standard parameters', rtol=1e-7, atol=1e-8 * scale(L, mu))
    # n-best
    j = joint(x, kind, pi, mu, L)
    n = ctx.int(1, K)
    ctx.close(g.log_prob_nbest(x, nbest=n), logsumexp(np.sort(j, 1)[:, K - n:], axis=1), 'density of the best components', rtol=1e-7, atol=1e-8 * scale(L, x, mu))
    sel = [int(a) for a in ctx.rng.permutation(K)[:n]]
    r = logsumexp(j[:, sel], axis=1)
    ctx.close(g.log_prob_nbest(x, nbest_mode='ubm', nbest=sel), r, 'density of given components', rtol=1e-7, atol=1e-8 * scale(L, x, mu))
    if kind != 'full':
        P = np.array([np.diag(p) for p in prec(kind, L, K)])
        c = np.array([[np.log(pi[k]) + np.sum(np.log(norm.cdf((a - mu[k]) * np.sqrt(P[k])) + 1e-20)) for k in range(K)] for a in x])
        c = logsumexp(c, axis=1)
        ctx.close(ctx.pure(g.log_cdf, x)[c > -18], c[c > -18], 'log cumulative distribution', rtol=1e-6, atol=1e-6)
    ctx.event('densities', len(x))
    ctx.sig(kind, K, d, len(x), n)
    ctx.sample(kind=kind, comps=K, dim=d, points=len(x))


@case(quick=300, mult=12)
def statistics(ctx):
    """sufficient statistics: whole, batches, weights, segments, windows, normalised"""
    kind = ctx.pick(KINDS)
    cls = cls_of(kind)
    K, d, pi, mu, L = params(ctx, kind)
    g = cls(x_dim=d, pi=pi.copy(), mu=mu.copy(), Lambda=L.copy())
    n = ctx.size(1, 30, 600)
    x = mu[ctx.rng.randint(0, K, n)] + ctx.rng.randn(n, d)
    w = ctx.rng.rand(n) if ctx.flip() else None
    bs = ctx.pick([None, 1, 4, n, 50])
    u = cls.compute_suff_stats(x)
    ctx.close(u, pack(*stats1(x, kind), kind=kind), 'statistics of a vector', rtol=1e-12, atol=1e-12)
    z = posteriors(x, kind, pi, mu, L)
    zw = z if w is None else z * w[:, None]
    sc = scale(L, x, mu)
    t = dict(rtol=1e-6, atol=1e-7 * n * sc)
    given = ctx.flip(.3)
    kw = dict(sample_weight=w)
    if given:
        kw['u_x'] = u
    else:
        kw['batch_size'] = bs
    keep = [None if a is None else a.copy() for a in (w, u)]

    def one(got, zz, label):
        N, F, S = stats(x, zz, kind)
        ctx.close(got[0], N, 'count: ' + label, **t)
        ctx.close(got[1], pack(N, F, S, kind), 'statistics: ' + label, **t)

    def many(got, zs, label):
        ctx.same((np.shape(got[0])[0], np.shape(got[1])[0]), (len(zs), len(zs)), 'number of segments: ' + label)
        for a, b, zz in zip(got[0], got[1], zs):
            one((a, b), zz, label)

    st = ctx.pure(lambda a: g.accum_suff_stats(a, **kw), x)
    one(st, zw, 'whole')
    one(g.Estep(x, **kw), zw, 'E step')
    # parts add up
    cut = ctx.int(0, n - 1) + 1
    parts = [g.accum_suff_stats(x[s], sample_weight=None if w is None else w[s]) for s in (slice(0, cut), slice(cut, n)) if s.start < n]
    kp = [b.copy() for _, b in parts]
    one(g.sum_suff_stats([a for a, _ in parts], [b for _, b in parts]), zw, 'added')
    ctx.check(all(np.array_equal(a, b) for a, (_, b) in zip(kp, parts)), 'adding statistics changes them')
    # segments, with both ends
    segs = [sorted((ctx.int(0, n - 1), ctx.int(0, n - 1))) for _ in range(ctx.int(1, 5))]
    zs = []
    for a, b in segs:
        m = np.zeros((n, 1))
        m[a: b + 1] = 1
        zs.append(zw * m)
    many(g.accum_suff_stats_segments(x, np.array(segs) if ctx.flip() else segs, **kw), zs, 'segments')
    p = ctx.rng.rand(n, ctx.int(1, 4))
    many(ctx.pure(lambda a, b: g.accum_suff_stats_segments_prob(a, b, **kw), x, p), [zw * p[:, i][:, None] for i in range(p.shape[1])], 'soft segments')
    # windows
    fl = ctx.int(1, n)
    fs = ctx.int(1, 8)
    zs = []
    for s in range(0, n - fl + 1, fs):
        m = np.zeros((n, 1))
        m[s: s + fl] = 1
        zs.append(zw * m)
    many(ctx.pure(lambda a: g.accum_suff_stats_sorttime(a, fl, fs, **kw), x), zs, 'windows')
    ctx.check(all(a is None or np.array_equal(a, b) for a, b in zip(keep, (w, u))), 'weights or statistics modified')
    # objective: expected log-density of data and components
    lp = np.where(z > 1e-300, zw * joint(x, kind, pi, mu, L), 0)
    ctx.close(g.elbo(x, sample_weight=w, batch_size=bs), lp.sum(), 'objective', rtol=1e-6, atol=1e-6 * n * sc)
    # normalised
    P = prec(kind, L, K)
    Ch = [np.asarray(g.cholLambda[k]) if kind == 'full' else np.sqrt(P[k]) for k in range(K)]
    N, U = g.Estep(x, sample_weight=w)
    o2 = ctx.flip()
    N2, V = ctx.pure(lambda a: g.norm_suff_stats(N, a, o2), U)
    ctx.close(N2, N, 'count of normalised statistics', rtol=1e-9)
    want = []
    for k in range(K):
        y = (x - mu[k]).dot(Ch[k])
        a, F, S = stats(y, zw[:, k][:, None], kind)
        want.append(pack(a, F, S, kind)[0] if o2 else F[0])
    big = 1 + max(np.max(np.abs((x - mu[k]).dot(Ch[k]))) ** 2 for k in range(K))
    ctx.close(V, np.array(want), 'normalised statistics', rtol=1e-6, atol=1e-7 * n * (big + sc), info=o2)
    ctx.event('vectors', n)
    ctx.sig(kind, K, d, w is None, given, bs, fl == n, fs > fl)


def stats1(x, kind):
    S = np.einsum('ni,nj->nij', x, x)
    if kind != 'full':
        S = np.array([np.diag(s) for s in S])
    return np.ones(len(x)), x, S


def mstep(N, F, S, kind, pi, mu, L, um, ul, up, floor, min_N):
    """maximum of the objective, with floors; None when ill conditioned"""
    K, d = mu.shape
    few = (N < min_N) | (N == 0)
    Ns = np.where(few, 1, N)
    if um:
        mu = F / Ns[:, None]
        mu[few] = 0
    if ul:
        if kind == 'full':
            Fm = np.einsum('ki,kj->kij', F / Ns[:, None], mu)
            C = S / Ns[:, None, None] - Fm - np.swapaxes(Fm, 1, 2) + np.einsum('ki,kj->kij', mu, mu)
            C[few] = np.eye(d)
            fl = floor * C[~few].mean(0)
            c = np.linalg.cholesky(fl)
            ci = np.linalg.inv(c)
            L = np.zeros_like(C)
            for k in range(K):
                e, v = np.linalg.eigh(ci.dot(C[k]).dot(ci.T))
                if np.min(np.abs(e - 1)) < 1e-6:
                    return None
                M = c.dot((v * np.maximum(e, 1)).dot(v.T)).dot(c.T)
                L[k] = np.linalg.inv(M)
        else:
            C = (S - 2 * mu * F) / Ns[:, None] + mu ** 2
            C[few] = 1
            C = np.maximum(C, floor * C[~few].mean(0))
            if kind == 'tied':
                C = N[~few].dot(C[~few]) / N[~few].sum()
            L = 1 / C
    if up:
        pi = np.where(few, 0, N)
        pi = pi / pi.sum()
    return pi, mu, L


@case(quick=300, mult=12)
def estimation(ctx):
    """any history of EM steps and fits"""
    kind = ctx.pick(KINDS)
    cls = cls_of(kind)
    K, d, pi, mu, L = params(ctx, kind, K=ctx.int(1, 4), d=ctx.int(1, 3))
    um, ul, up = ctx.flip(.8), ctx.flip(.8), ctx.flip(.8)
    floor = ctx.pick([1e-3, 1e-3, 1e-3, .3])
    min_N = ctx.pick([0, 0, 0, 3])
    g = cls(x_dim=d, pi=pi.copy(), mu=mu.copy(), Lambda=L.copy(), **unsaid(ctx, update_mu=(um, True), update_Lambda=(ul, True), update_pi=(up, True), var_floor=(floor, 1e-3), min_N=(min_N, 0)))
    given = g.pi, g.mu, g.Lambda
    first = pi.copy(), mu.copy(), L.copy()
    n = ctx.int(25, 80) * K
    x = mu[ctx.rng.choice(K, n, p=pi)] + ctx.rng.randn(n, d).dot(np.eye(d) + .3 * ctx.rng.randn(d, d)) * .8
    if K > 1 and ctx.flip(.15):     # a component far from all data
        mu = mu.copy()
        mu[0] += 1e3
        g.mu = mu.copy()
        g.initialize()
        given, first = (g.pi, g.mu, g.Lambda), (pi.copy(), mu.copy(), L.copy())
    n_steps = 0
    for rep in range(ctx.int(1, 3)):
        w = ctx.pick([None, ctx.rng.rand(n) + .05])
        ww = np.ones(n) if w is None else w
        bs = ctx.pick([None, None, 7, n])
        val = ctx.flip(.4)
        y = x[: ctx.int(1, n)] + .1
        wy = ctx.rng.rand(len(y)) + .1 if ctx.flip() else None
        epochs = ctx.int(1, 4) if np.all(pi > 0) else 0     # a component without weight keeps a tiny one in the logarithm
        if not epochs:
            break
        obj, objv, want = [], [], (pi, mu, L)
        for e in range(epochs):
            a = (kind,) + want
            if not np.all(want[0] > 0):
                return ctx.check(True, 'component without weight')
            z = posteriors(x, *a) * ww[:, None]
            lj = joint(x, *a)
            obj.append(np.sum(np.where(z > 1e-300, z * lj, 0)))
            N, F, S = stats(x, z, kind)
            few = (N < min_N) | (N == 0)
            amb = np.abs(N - min_N) < 1e-4 if min_N else (N > 0) & (N < 1e-9)
            if np.all(few) or np.any(amb) or np.any(~few & (N < 3 * d + 3)):
                return ctx.check(True, 'badly populated')
            want = mstep(N, F, S, kind, *want, um=um, ul=ul, up=up, floor=floor, min_N=min_N)
            if want is None or np.max(np.abs(want[2])) > 1e4:
                return ctx.check(True, 'ill conditioned')
            if val:
                a = (kind,) + want
                v = posteriors(y, *a) * (1 if wy is None else wy[:, None])
                objv.append(np.sum(np.where(v > 1e-300, v * joint(y, *a), 0)))
        tol = dict(rtol=1e-4, atol=1e-5 * n * scale(want[2], x))
        if ctx.flip():
            r = ctx.pure(lambda q: g.fit(q, sample_weight=w, x_val=y if val else None, sample_weight_val=wy if val else None, epochs=epochs, batch_size=bs), x)
            ctx.same(len(r), 4 if val else 2, 'values of the objective')
            ctx.close(r[0], np.array(obj), 'objective of the epochs', **tol)
            ctx.close(r[1], np.array(obj) / n, 'objective per vector', rtol=1e-4, atol=tol['atol'] / n)
            if val:
                ctx.close(r[2], np.array(objv), 'validation objective', **tol)
                ctx.close(r[3], np.array(objv) / len(y), 'validation objective per vector', rtol=1e-4, atol=tol['atol'] / n)
        else:
            for e in range(epochs):
                N, u = g.Estep(x, sample_weight=w, batch_size=bs)
                ctx.pure(g.Mstep, N, u)
        pi, mu, L = want
        agree(ctx, g, kind, pi, mu, L, x[:4], 'after estimation', tol=2e-6)
        n_steps += epochs
        ctx.sig(kind, K, d, um, ul, up, w is None, val, epochs, min_N, floor)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(given, first)), 'parameters given by the user are modified')
    ctx.event('EM steps', n_steps)
    ctx.sample(kind=kind, comps=K, dim=d, n=n)


@case(quick=120, mult=12)
def initial_and_split(ctx):
    """initial mixtures: standard normal, from data; split components"""
    kind = ctx.pick(KINDS)
    cls = cls_of(kind)
    how = ctx.int(0, 2)
    K, d, pi, mu, L = params(ctx, kind, d=ctx.int(1, 4))
    if how == 0:
        g = cls(x_dim=d)
        g.initialize()
        one = np.eye(d)[None] if kind == 'full' else np.ones((1, d)) if kind == 'diag' else np.ones(d)
        agree(ctx, g, kind, np.ones(1), np.zeros((1, d)), one, ctx.rng.randn(4, d), 'of the standard normal')
    elif how == 1:
        # separated groups: each is a component
        d = max(d, K)
        c = 100 * np.eye(d)[:K] + ctx.rng.randn(d) * 5
        lab = ctx.rng.permutation(np.concatenate([[k] * (d + 3 + ctx.int(0, 9)) for k in range(K)])).astype(int)
        x = c[lab] + ctx.rng.randn(len(lab), d)
        g = cls(x_dim=d, num_comp=K)
        if ctx.flip():
            ctx.pure(lambda a: g.initialize(a), x)
        else:
            g.fit(x, epochs=ctx.int(1, 3))
        o = [int(np.argmin(np.sum((m - c) ** 2, 1))) for m in g.mu]
        ctx.same(sorted(o), list(range(K)), 'components and groups')
        pi = np.array([np.mean(lab == k) for k in o])
        mu = np.array([x[lab == k].mean(0) for k in o])
        C = np.array([np.cov(x[lab == k].T, bias=True).reshape(d, d) for k in o])
        if kind == 'full':
            L = np.linalg.inv(C)
        else:
            C = np.array([np.diag(a) for a in C])
            L = 1 / (C if kind == 'diag' else pi.dot(C))
        if np.max(np.abs(L)) < 200 and np.min(np.linalg.eigvalsh(np.linalg.inv(prec(kind, L, K)))) > 1e-2:
            agree(ctx, g, kind, pi, mu, L, x[:5], 'of the groups', tol=1e-6)
    else:
        um, ul, up, fl, mn = ctx.flip(), ctx.flip(), ctx.flip(), ctx.pick([1e-3, .2]), ctx.pick([0, 5])
        nm = ctx.pick([None, 'm'])
        g = cls(x_dim=d, pi=pi.copy(), mu=mu.copy(), Lambda=L.copy(), update_mu=um, update_Lambda=ul, update_pi=up, var_floor=fl, min_N=mn, name=nm)
        m = ctx.int(2, 4)
        h = g.split_comp(m) if m > 2 or ctx.flip() else g.split_comp()
        ctx.check(type(h) is cls, 'class of the split mixture')
        ctx.same((h.num_comp, h.x_dim, h.update_mu, h.update_Lambda, h.update_pi, h.var_floor, h.min_N, h.name), (K * m, d, um, ul, up, fl, mn, nm), 'configuration of the split mixture')
        ctx.close(h.pi, np.repeat(pi, m) / m, 'weights of the split mixture')
        P = prec(kind, L, K)
        for k in range(K):
            C = np.linalg.inv(P[k])
            for i in range(m):
                dev = h.mu[k * m + i] - mu[k]
                if kind == 'full':      # plus or minus one deviation in each principal axis
                    e, v = np.linalg.eigh(C)
                    r = (v.T.dot(dev)) ** 2 / e
                    if np.min(np.diff(e)) < 1e-6 if d > 1 else False:
                        continue
                    # for two parts, the sum of the axes; otherwise random signs
                    ctx.close(r, np.ones(d), 'means of the split components', atol=1e-6)
                else:
                    ctx.close(dev ** 2, np.diag(C), 'means of the split components', rtol=1e-6, atol=1e-9)
            if m == 2:
                ctx.close(h.mu[2 * k] + h.mu[2 * k + 1], 2 * mu[k], 'the two halves are opposite', atol=1e-7)
        agree(ctx, g, kind, pi, mu, L, ctx.rng.randn(3, d), 'of the mixture that was split')
        agree(ctx, h, kind, h.pi.copy(), h.mu.copy(), h.Lambda.copy(), ctx.rng.randn(3, d), 'of the split mixture')
    ctx.event('mixtures')
    ctx.sig(kind, K, d, how)


@case(quick=120, mult=12)
def samples_and_files(ctx):
    """samples have the moments of the mixture and repeat with the seed; saved and loaded; Kaldi files"""
    kind = ctx.pick(KINDS)
    cls = cls_of(kind)
    K, d, pi, mu, L = params(ctx, kind)
    um, ul, up, fl, mn = ctx.flip(), ctx.flip(), ctx.flip(), ctx.pick([1e-3, .2]), ctx.pick([0, 5])
    nm = ctx.pick([None, 'm'])
    g = cls(x_dim=d, pi=pi.copy(), mu=mu.copy(), Lambda=L.copy(), update_mu=um, update_Lambda=ul, update_pi=up, var_floor=fl, min_N=mn, name=nm)
    n = 4000
    seed = ctx.seedint()
    x = ctx.pick([g.sample, g.generate])(n, seed=seed)
    ctx.same(x.shape, (n, d), 'samples')
    C = np.linalg.inv(prec(kind, L, K))
    m = pi.dot(mu)
    V = np.einsum('k,kij->ij', pi, C + np.einsum('ki,kj->kij', mu - m, mu - m))
    ctx.check(np.all(np.abs(x.mean(0) - m) < 6.5 * np.sqrt(np.diag(V) / n)), 'mean of the samples', x.mean(0), m)
    S = np.cov(x.T, bias=True).reshape(d, d)
    y = x - x.mean(0)
    sd = np.sqrt(np.einsum('ni,nj->ij', y ** 2, y ** 2) / n / n) + 1e-12
    ctx.check(np.all(np.abs(S - V) < 8 * sd), 'covariance of the samples', S, V)
    z = posteriors(x, kind, pi, mu, L).mean(0)
    ctx.check(np.all(np.abs(z - pi) < 6.5 * np.sqrt(pi * (1 - pi) / n) + 1e-9), 'weights of the samples', z, pi)
    ctx.check(np.array_equal(g.sample(n, seed=seed), x), 'samples differ for the same seed')
    ctx.check(not np.array_equal(g.sample(5, seed=seed + 1), g.sample(5, seed=seed)), 'samples do not depend on the seed')
    r1, r2 = np.random.RandomState(seed), np.random.RandomState(seed)
    a = g.sample(3, rng=r1)
    ctx.check(np.array_equal(a, g.sample(3, rng=r2)) and not np.array_equal(a, g.sample(3, rng=r2)), 'samples from a generator')
    p = ctx.path('g.h5')
    g.save(p)
    h = cls.load(p)
    ctx.same((h.name, h.x_dim, h.num_comp, h.update_mu, h.update_Lambda, h.update_pi, h.var_floor, h.min_N), (nm, d, K, um, ul, up, fl, mn), 'configuration after loading')
    agree(ctx, h, kind, pi, mu, L, x[:5], 'after loading', tol=2e-5)
    if kind == 'diag':
        p = ctx.path('g.txt')
        row = lambda v: ' '.join('%.10g' % a for a in v)
        with open(p, 'w') as f:
            f.write('<DiagGMM> \n<GCONSTS>  [ %s ]\n<WEIGHTS>  [ %s ]\n' % (row(np.zeros(K)), row(pi)))
            for tag, M in (('<MEANS_INVVARS>', mu * L), ('<INV_VARS>', L)):
                f.write('%s  [\n  %s ]\n' % (tag, ' \n  '.join(row(v) for v in M)))
            f.write('</DiagGMM> \n')
        h = cls.load_from_kaldi(p)
        agree(ctx, h, kind, pi, mu, L, x[:5], 'from Kaldi', tol=1e-6)
    ctx.event('samples', n)
    ctx.sig(kind, K, d, nm)
