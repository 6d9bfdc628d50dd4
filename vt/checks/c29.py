"""C29 Gaussian back-ends: LinearGBE, LinearGBEUP, QScoringHomoGBE"""
import numpy as np
from scipy.special import logsumexp
from scipy.stats import multivariate_normal, multivariate_t, norm

from ..core import case
from ..pldaref import spd


def lin(x, mu, W):
    return np.array([[a.dot(W).dot(m) - .5 * m.dot(W).dot(m) for m in mu] for a in x])


def scores(x, mu, W, beta, nu, how):
    if how == 'linear':
        return lin(x, mu, W)
    C = np.linalg.inv(W)
    if how == 'llk':
        return np.array([multivariate_normal(m, C).logpdf(x).reshape(-1) for m in mu]).T
    d = x.shape[1]
    c = nu + 1 - d
    return np.array([multivariate_t(m, C * nu / (c * b / (b + 1)), c).logpdf(x).reshape(-1) for m, b in zip(mu, beta)]).T


def normed(s):
    return s - logsumexp(s, axis=1)[:, None]


def same_model(ctx, g, x, mu, W, beta, nu, when, tol=1e-7):
    d = x.shape[1]
    ctx.close(g.mu, mu, 'means ' + when, rtol=tol * 10, atol=tol)
    ctx.close(g.W, W, 'precision ' + when, rtol=tol * 10, atol=tol)
    if beta is not None:
        ctx.close(np.asarray(g.beta, dtype=float), beta, 'count of the means ' + when, rtol=tol * 10)
    if nu is not None:
        ctx.close(float(g.nu), float(nu), 'count of the precision ' + when, rtol=tol * 10)
    hows = ['linear', 'llk']
    if beta is not None and nu is not None and nu >= d:
        hows.append('predictive')
    big = 1 + np.max(np.abs(W)) * (np.max(np.abs(x)) + np.max(np.abs(mu))) ** 2
    for how in hows:
        # with the parameters of the object
        own = scores(x, np.asarray(g.mu), np.asarray(g.W), None if beta is None else np.asarray(g.beta), None if nu is None else float(g.nu), how)
        got = ctx.pure(lambda a: g.predict(a, eval_method=how), x)
        ctx.close(got, own, how + ' scores ' + when, rtol=1e-7, atol=1e-9 * big)
        ctx.close(g.predict(x, eval_method=how, normalize=True), normed(own), 'normalised ' + how + ' scores ' + when, rtol=1e-6, atol=1e-8 * big)
    ctx.close(g.predict(x), lin(x, np.asarray(g.mu), np.asarray(g.W)), 'default scores ' + when, rtol=1e-7, atol=1e-9 * big)
    return hows


def data(ctx, d, K, spread=2.):
    per = [ctx.size(1, 8, 600) for _ in range(K)]
    per[0] += d + 3
    ids = np.repeat(np.arange(K), per)
    ids = ids[ctx.rng.permutation(len(ids))]
    m = ctx.rng.randn(K, d) * spread
    return m[ids] + ctx.rng.randn(len(ids), d).dot(np.linalg.cholesky(spd(ctx.rng, d)).T), ids


def labels(ctx, ids, K):
    sw = ctx.rng.rand(len(ids)) + .2 if ctx.flip(.4) else None
    w = np.eye(K)[ids]
    kw = dict(sample_weight=sw)
    if ctx.flip():
        w = w * .8 + .2 * ctx.rng.dirichlet(np.ones(K), len(ids))
        kw['p_theta'] = w
    else:
        kw['class_ids'] = ids
    return kw, w if sw is None else w * sw[:, None]


def reference(x, w, mu, W, um, uw, bal, prior):
    """MAP (or ML) estimate; prior: (mu, W, beta, nu) or None"""
    K, d = w.shape[1], x.shape[1]
    N = w.sum(0)
    beta = nu = None
    xb = mu
    if um:
        xb = w.T.dot(x) / N[:, None]
        if prior is None:
            mu, beta = xb, N
        else:
            beta = N + prior[2]
            mu = (N[:, None] * xb + prior[2][:, None] * prior[0]) / beta[:, None]
    if uw:
        n0 = 0 if prior is None else prior[3]
        S0 = np.zeros((d, d)) if prior is None else np.linalg.inv(prior[1])
        Sk = []
        for k in range(K):
            y = x - xb[k]
            S = (y * w[:, k][:, None]).T.dot(y)
            if prior is not None and um:
                e = xb[k] - prior[0][k]
                S = S + N[k] * prior[2][k] / (N[k] + prior[2][k]) * np.outer(e, e)
            Sk.append(S)
        if bal:
            C = np.mean([(S + n0 / K * S0) / (n + n0 / K) for S, n in zip(Sk, N)], axis=0)
        else:
            C = (n0 * S0 + np.sum(Sk, axis=0)) / (n0 + N.sum())
        W = np.linalg.inv(C)
        nu = N.sum() + n0
    return mu, W, beta, nu


@case(quick=250, mult=12)
def back_end(ctx):
    """linear Gaussian back-end: scores, ML and MAP estimation, files"""
    from hyperion.classifiers import LinearGBE as G
    d, K = ctx.int(1, 4), ctx.int(1, 5)
    x, ids = data(ctx, d, K, ctx.pick([.5, 3.]))
    kw, w = labels(ctx, ids, K)
    um, uw, bal = ctx.flip(.8), ctx.flip(.8), ctx.flip()
    mu, W = ctx.rng.randn(K, d), np.linalg.inv(spd(ctx.rng, d))
    args = dict(balance_class_weight=bal, update_mu=um, update_W=uw, name=ctx.pick([None, 'g']))
    if not um or not uw or ctx.flip():
        args.update(mu=mu.copy(), W=W.copy())
    prior = None
    if ctx.flip():
        pm, pW, pb, pn = ctx.rng.randn(K, d), np.linalg.inv(spd(ctx.rng, d)), ctx.rng.rand(K) * 9 + 1, ctx.rng.rand() * 20 + d
        P = G(mu=pm.copy(), W=pW.copy(), beta=pb.copy(), nu=pn)
        if ctx.flip():
            f = ctx.path('p.h5')
            P.save(f)
            pm, pW, pb, pn = (np.float32(a).astype(float) for a in (pm, pW, pb, pn))
            args['prior'] = f
        else:
            args['prior'] = P
        if ctx.flip():
            args['prior_beta'] = r = ctx.pick([1., 16.])
            pb = r * np.ones(K)
        if ctx.flip():
            args['prior_nu'] = r = ctx.pick([2., 16.])
            pn = K * r
        prior = pm, pW, pb, float(pn)
    pb = ctx.pick([None, None, 7.])
    pn = ctx.pick([None, None, 9.])
    args.update(post_beta=pb, post_nu=pn)
    g = G(**args)
    if 'mu' in args:
        same_model(ctx, g, x, mu, W, None, None, 'given')
    ref = reference(x, w, mu, W, um, uw, bal, prior)
    if np.linalg.cond(ref[1]) > 1e5 or np.max(np.abs(ref[1])) > 1e4:
        return ctx.check(True, 'ill conditioned')
    keep = {k: None if v is None else v.copy() for k, v in kw.items()}
    ctx.pure(lambda a: g.fit(a, **kw), x)
    ctx.check(all(v is None or np.array_equal(v, kw[k]) for k, v in keep.items()), 'fit changes its arguments')
    m1, W1, b1, n1 = ref
    if pb is not None:
        b1 = pb * np.ones(K)
    if pn is not None:
        n1 = K * pn
    y = ctx.rng.randn(ctx.int(1, 6), d) * 2
    hows = same_model(ctx, g, y, m1, W1, b1, n1, 'after fit')
    if 'mu' in args:
        ctx.check(np.array_equal(args['mu'], mu) and np.array_equal(args['W'], W), 'parameters given by the user are modified')
    if not um:
        ctx.check(np.array_equal(g.mu, mu), 'means that are not updated')
    if not uw:
        ctx.check(np.array_equal(g.W, W), 'precision that is not updated')
    f = ctx.path('g.h5')
    g.save(f)
    h = G.load(f)
    ctx.same((h.name, h.x_dim, h.num_classes, h.update_mu, h.update_W, h.balance_class_weight), (args['name'], d, K, um, uw, bal), 'configuration after loading')
    same_model(ctx, h, y, m1, W1, b1, n1, 'after loading', tol=1e-6 * (1 + np.max(np.abs(W1)) + np.max(np.abs(m1))))
    ctx.event('vectors', len(x))
    ctx.sig(d, K, um, uw, bal, prior is None, len(hows), 'p_theta' in kw, pb, pn)
    ctx.sample(dim=d, classes=K, n=len(x), prior=prior is not None, hows=hows)


@case(quick=120, mult=12)
def uncertain(ctx):
    """back-end with uncertainty propagation: vectors are means and variances"""
    from hyperion.classifiers import LinearGBEUP as G
    d, K = ctx.int(1, 4), ctx.int(1, 4)
    x, ids = data(ctx, d, K)
    s = (ctx.rng.rand(len(x), d) + .05) * ctx.pick([.1, 1., 5.])
    kw, w = labels(ctx, ids, K)
    bal = ctx.flip()
    prior, args = None, dict(balance_class_weight=bal)
    if ctx.flip(.3):
        prior = ctx.rng.randn(K, d), np.linalg.inv(spd(ctx.rng, d)), ctx.rng.rand(K) * 9 + 1, ctx.rng.rand() * 20 + d
        args['prior'] = G(mu=prior[0].copy(), W=prior[1].copy(), beta=prior[2].copy(), nu=prior[3])
    mu, W, b, n = reference(x, w, None, None, True, True, bal, prior)
    S = np.linalg.inv(W)
    q = s.mean(0)
    r = np.sqrt(1.21 * q)
    e, v = np.linalg.eigh(S / np.outer(r, r))
    C = (v * np.maximum(e, 1)).dot(v.T) * np.outer(r, r) - np.diag(q)
    if np.linalg.cond(C) > 1e5 or np.min(np.abs(e - 1)) < 1e-6:
        return ctx.check(True, 'ill conditioned')
    g = G(**args)
    ctx.pure(lambda a: g.fit(a, **kw), np.hstack((x, s)))
    ctx.close(g.mu, mu, 'means', rtol=1e-7, atol=1e-9)
    ctx.close(np.asarray(g.beta, dtype=float), b, 'count of the means', rtol=1e-7)
    ctx.close(float(g.nu), float(n), 'count of the precision', rtol=1e-7)
    t = 1e-6 * np.max(np.abs(np.linalg.inv(C)))
    ctx.close(g.W, np.linalg.inv(C), 'precision without the uncertainty', rtol=1e-6, atol=t)
    if ctx.flip():
        f = ctx.path('g.h5')
        g.save(f)
        g = G.load(f)
        ctx.close(g.W, np.linalg.inv(C), 'loaded precision', rtol=1e-5, atol=10 * t)
    m = ctx.int(1, 5)
    y, z = ctx.rng.randn(m, d) * 2, ctx.rng.rand(m, d) * ctx.pick([.01, 2.])
    C = np.linalg.inv(g.W)
    want = np.vstack([lin(a[None], g.mu, np.linalg.inv(C + np.diag(c))) for a, c in zip(y, z)])
    big = 1 + np.max(np.abs(g.W)) * (np.max(np.abs(y)) + np.max(np.abs(g.mu))) ** 2
    got = ctx.pure(g.predict, np.hstack((y, z)))
    ctx.close(got, want, 'scores of uncertain vectors', rtol=1e-6, atol=1e-8 * big)
    ctx.close(g.predict(np.hstack((y, z)), normalize=True), normed(want), 'normalised scores', rtol=1e-6, atol=1e-7 * big)
    ctx.event('vectors', m)
    ctx.sig('up', d, K, bal, prior is None, bool(np.any(e < 1)))


@case(quick=120, mult=12)
def q_scoring(ctx):
    """posterior means and variances of identity variables: enrolment is a product of posteriors, score a ratio of evidences"""
    from hyperion.classifiers import QScoringHomoGBE as G
    d, K = ctx.int(1, 4), ctx.int(1, 4)
    ids = ctx.rng.permutation(np.concatenate((np.arange(K), ctx.rng.randint(0, K, ctx.int(0, 12)))))
    n = len(ids)
    x, s = ctx.rng.randn(n, d), ctx.rng.rand(n, d) * .9 + .05
    bal = ctx.flip()
    kw, w = dict(class_ids=ids), np.eye(K)[ids]
    prior = None
    args = dict(balance_class_weight=bal, name=ctx.pick([None, 'q']))
    if bal:
        kw, w = labels(ctx, ids, K)
        if ctx.flip():
            prior = ctx.rng.randn(K, d), 1 + ctx.rng.rand(d) * 5, ctx.rng.rand(K) * 5 + 1
            args['prior'] = P = G(mu=prior[0].copy(), W=prior[1].copy(), N=prior[2].copy())
            if ctx.flip():
                f = args['prior'] = ctx.path('p.h5')
                P.save(f)
            if ctx.flip():
                args['prior_N'] = r = ctx.pick([1., 6.])
                prior = prior[0], 1 + r / prior[2].mean() * (prior[1] - 1), r * np.ones(K)
    pN = args['post_N'] = ctx.pick([None, None, 3.])
    N = w.sum(0)
    eta, L = w.T.dot(x / s), 1 + w.T.dot(1 / s - 1)
    if prior is not None:
        eta, L, N = eta + prior[1] * prior[0], L + prior[1] - 1, N + prior[2]
    mu, W = eta / L, L.mean(0)
    if pN is not None:
        W, N = 1 + pN / N.mean() * (W - 1), pN * np.ones(K)
    g = G(**args)
    keep = {k: None if v is None else v.copy() for k, v in kw.items()}
    ctx.pure(lambda a: g.fit(a, **kw), np.hstack((x, s)))
    ctx.check(all(v is None or np.array_equal(v, kw[k]) for k, v in keep.items()), 'fit changes its arguments')
    t = dict(rtol=1e-6, atol=1e-6)
    ctx.close(g.mu, mu, 'class means', **t)
    ctx.close(g.W, W, 'precision', **t)
    ctx.close(g.N, N, 'counts', **t)
    if ctx.flip():
        f = ctx.path('q.h5')
        g.save(f)
        g = G.load(f)
        ctx.same((g.name, g.balance_class_weight, g.x_dim, g.num_classes), (args['name'], bal, d, K), 'configuration after loading')
    m = ctx.int(1, 4)
    y, z = ctx.rng.randn(m, d), ctx.rng.rand(m, d) * .9 + .05
    want = np.zeros((m, K))
    for i in range(m):
        for k in range(K):
            for j in range(d):
                a, b = g.W[j], 1 / z[i, j]
                c = (a * g.mu[k, j] + b * y[i, j]) / (a + b - 1)
                h = np.linspace(c - 10 / np.sqrt(a + b - 1), c + 10 / np.sqrt(a + b - 1), 801)
                f = norm.logpdf(h, g.mu[k, j], a ** -.5) + norm.logpdf(h, y[i, j], b ** -.5) - norm.logpdf(h)
                want[i, k] += np.log(np.sum(np.exp(f - f.max())) * (h[1] - h[0])) + f.max()
    got = ctx.pure(g.predict, np.hstack((y, z)))
    ctx.close(got, want, 'scores', rtol=1e-5, atol=1e-5)
    ctx.close(g.predict(np.hstack((y, z)), normalize=True), normed(want), 'normalised scores', rtol=1e-4, atol=1e-4)
    far = np.hstack((100 * y, z))           # scores of the classes so far apart that a posterior is below the smallest number
    own = g.predict(far)
    ctx.close(g.predict(far, normalize=True), normed(own), 'normalised scores of far classes', rtol=1e-6, atol=1e-8 * np.max(np.abs(own)))
    ctx.event('scores', m * K)
    ctx.sig('q', d, K, bal, prior is None, pN, n)
