"""C30 logistic regression, SVM and Gaussian calibration"""
import warnings

import numpy as np
from scipy.optimize import minimize
from scipy.special import logsumexp

from ..core import case


def blobs(ctx, d, K):
    per = [ctx.int(4, 12) if ctx.flip(.8) else ctx.int(1, 3) for _ in range(K)]
    ids = np.repeat(np.arange(K), per)
    ids = ids[ctx.rng.permutation(len(ids))]
    return (ctx.rng.randn(K, d) * 1.2)[ids] + ctx.rng.randn(len(ids), d) + ctx.rng.randn(d), ids


@case(quick=60, mult=10)
def logistic(ctx):
    """multiclass logistic regression is the minimum of its objective, and its scores are free of the priors"""
    from hyperion.classifiers import LogisticRegression as LR
    d, K = ctx.int(1, 3), ctx.int(3, 5)
    x, ids = blobs(ctx, d, K)
    pr = None if ctx.flip(.4) else list(map(float, ctx.rng.dirichlet(np.ones(K) * 3) * .9 + .1 / K))
    lam = ctx.pick([.003, .03, .3])
    sw = ctx.rng.rand(len(x)) + .2 if ctx.flip() else None
    kb = ctx.flip(.8)
    bs = ctx.pick([1, 1, 5.])
    nm = ctx.pick([None, 'l'])
    m = LR(lambda_reg=lam, priors=None if pr is None else list(pr), use_bias=kb, bias_scaling=bs, max_iter=3000, tol=1e-9, name=nm)
    flat = d == 1 and ctx.flip()
    z = x[:, 0] if flat else x
    if sw is None:
        ctx.pure(lambda a, b: m.fit(a, b), z, ids)
    else:
        ctx.pure(lambda a, b, c: m.fit(a, b, sample_weight=c), z, ids, sw)
    p = np.ones(K) / K if pr is None else np.array(pr)
    w = (p / np.bincount(ids))[ids] * (1 if sw is None else sw)
    lp = np.log(p)

    def obj(A, b):      # b: offset of the posteriors
        s = x.dot(A) + b
        return lam / 2 * np.sum(A ** 2) + np.sum(w * (logsumexp(s, axis=1) - s[np.arange(len(x)), ids]))

    def f(v):
        return obj(v[: d * K].reshape(d, K), v[d * K:] if kb else 0)
    best = minimize(f, np.zeros(d * K + (K if kb else 0)), method='BFGS', options=dict(gtol=1e-7)).fun
    A, b = m.A, m.b
    ctx.same((A.shape, np.shape(b)), ((d, K), (K,)), 'shapes of the parameters')
    got = obj(A, b + lp)
    ctx.check(got <= best + 1e-5 * abs(best) + 1e-7, 'the fit is not the minimum', got, best)
    y = ctx.rng.randn(ctx.int(1, 5), d) * 2
    if ctx.flip():
        q = ctx.path('l.h5')
        m.save(q)
        m = LR.load(q)
        ctx.same((m.name, m.use_bias, m.bias_scaling, m.priors), (nm, kb, bs, pr), 'configuration after loading')
        ctx.close(m.A, A, 'loaded slope', rtol=1e-5, atol=1e-5)
        ctx.close(m.b, b, 'loaded bias', rtol=1e-5, atol=1e-5)
        A, b = m.A, m.b
    s = y.dot(A) + b
    y = y[:, 0] if flat else y
    ctx.close(ctx.pure(m.predict, y), s, 'scores', rtol=1e-9, atol=1e-9)
    P = s + lp
    P = np.exp(P - logsumexp(P, axis=1)[:, None])
    ctx.close(ctx.pure(lambda a: m.predict(a, eval_type='post'), y), P, 'posteriors', rtol=1e-7, atol=1e-12)
    ctx.close(np.exp(ctx.pure(lambda a: m.predict(a, eval_type='log-post'), y)), P, 'log-posteriors', rtol=1e-7, atol=2e-10)
    ctx.event('trainings')
    ctx.sig('lr', d, K, pr is None, lam, sw is None, kb, bs)
    ctx.sample(dim=d, classes=K, n=len(x), objective=float(got))


@case(quick=100, mult=10)
def binary(ctx):
    """binary logistic regression: minimum of the prior-weighted objective; scores are log-likelihood ratios"""
    from hyperion.classifiers import BinaryLogisticRegression as LR
    d = ctx.int(1, 3)
    x, ids = blobs(ctx, d, 2)
    flat = d == 1 and ctx.flip()
    pr = ctx.pick([.5, .1, .01, .8])
    lam = ctx.pick([.003, .03, .3])
    sw = ctx.rng.rand(len(x)) + .2 if ctx.flip() else None
    kb, bs = ctx.flip(.8), ctx.pick([1, 10., 100.])
    solver = ctx.pick(['liblinear', 'liblinear', 'lbfgs', 'newton-cg'])
    nm = ctx.pick([None, 'b'])
    m = LR(lambda_reg=lam, prior=pr, use_bias=kb, bias_scaling=bs, solver=solver, max_iter=5000, tol=1e-9, name=nm)
    z = x[:, 0] if flat else x
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if sw is None:
            ctx.pure(lambda a, b: m.fit(a, b), z, ids)
        else:
            ctx.pure(lambda a, b, c: m.fit(a, b, sample_weight=c), z, ids, sw)
    w = (np.array([1 - pr, pr]) / np.bincount(ids))[ids] * (1 if sw is None else sw)
    t = 2 * ids - 1
    o = np.log(pr / (1 - pr))
    reg = 1 / bs ** 2 if solver == 'liblinear' else 0       # this solver shrinks the bias, too

    def f(v):
        s = x.dot(v[:d]) + (v[d] if kb else 0)
        return lam / 2 * (np.sum(v[:d] ** 2) + (reg * v[d] ** 2 if kb else 0)) + np.sum(w * np.logaddexp(0, -t * s))
    best = minimize(f, np.zeros(d + 1), method='BFGS', options=dict(gtol=1e-8)).fun
    ctx.same((m.A.shape, np.size(m.b)), ((d, 1), 1), 'shapes of the parameters')
    v = np.append(m.A[:, 0], np.ravel(m.b) + o)
    if not kb:
        ctx.close(float(v[d]), 0., 'no bias', atol=1e-9)
    got = f(v)
    ctx.check(got <= best + 1e-5 * abs(best) + 1e-7, 'the fit is not the minimum', got, best, solver, pr)
    A, b = m.A, np.ravel(m.b)
    if ctx.flip():
        q = ctx.path('l.h5')
        m.save(q)
        m = LR.load(q)
        ctx.same((m.name, m.use_bias, m.bias_scaling, m.prior), (nm, kb, bs, pr), 'configuration after loading')
        ctx.close(m.A, A, 'loaded slope', rtol=1e-5, atol=1e-5)
        ctx.close(np.ravel(m.b), b, 'loaded bias', rtol=1e-5, atol=1e-5)
        A, b = m.A, np.ravel(m.b)
    y = ctx.rng.randn(ctx.int(1, 6), d) * 2
    u = y[:, 0] if flat else y
    s = y.dot(A[:, 0]) + b[0]
    ctx.close(ctx.pure(m.predict, u), s, 'log-likelihood ratios', rtol=1e-9, atol=1e-9)
    P = 1 / (1 + np.exp(-s - o))
    ctx.close(ctx.pure(lambda a: m.predict(a, eval_type='post'), u), P, 'posteriors', rtol=1e-7, atol=1e-12)
    ctx.close(ctx.pure(lambda a: m.predict(a, eval_type='log-post'), u), np.log(P), 'log-posteriors', rtol=1e-7, atol=1e-9)
    far = m.predict(u * 1000)
    ctx.close(m.predict(u * 1000, eval_type='log-post'), -np.logaddexp(0, -far - o), 'log-posteriors of far classes', rtol=1e-6, atol=1e-8)
    ctx.event('trainings')
    ctx.sig('blr', d, pr, lam, sw is None, kb, bs, solver, flat)


@case(quick=80, mult=10)
def svm(ctx):
    """linear SVM: minimum of its objective; scores, posteriors and files"""
    from hyperion.classifiers import LinearSVMC as SVM
    d, K = ctx.int(1, 3), ctx.int(2, 4)
    x, ids = blobs(ctx, d, K)
    C, bs, kb, bal = ctx.pick([.1, 1.]), ctx.pick([1, 4.]), ctx.flip(.8), ctx.flip()
    sw = ctx.rng.rand(len(x)) + .2 if ctx.flip() else None
    nm, seed = ctx.pick([None, 's']), ctx.seedint() % 10000
    kw = dict(C=C, use_bias=kb, bias_scaling=bs, balance_class_weight=bal, max_iter=20000, tol=1e-6, lr_seed=seed, name=nm)
    m, m2 = SVM(**kw), SVM(**kw)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for q in (m, m2):
            if sw is None:
                ctx.pure(lambda a, b: q.fit(a, b), x, ids)
            else:
                ctx.pure(lambda a, b, c: q.fit(a, b, sample_weight=c), x, ids, sw)
    ctx.check(np.array_equal(m.A, m2.A) and np.array_equal(m.b, m2.b), 'the same seed gives another SVM')
    J = 1 if K == 2 else K
    A, b = m.A, np.asarray(m.b) * np.ones(J)
    ctx.same(A.shape, (d, J), 'shape of the slope')
    n = np.bincount(ids)
    w = (len(x) / (K * n) if bal else np.ones(K))[ids] * (1 if sw is None else sw)
    for j in range(J if not bal or K == 2 else 0):
        t = np.where(ids == (1 if K == 2 else j), 1, -1)

        def f(v):
            s = x.dot(v[:d]) + (v[d] * bs if kb else 0)
            return .5 * (np.sum(v[:d] ** 2) + (v[d] ** 2 if kb else 0)) + C * np.sum(w * np.maximum(0, 1 - t * s) ** 2)
        best = minimize(f, np.zeros(d + 1), method='BFGS', options=dict(gtol=1e-7)).fun
        got = f(np.append(A[:, j], b[j] / bs))
        ctx.check(got <= best + 1e-3 * abs(best) + 1e-6, 'the fit is not the minimum', got, best)
    if ctx.flip():
        q = ctx.path('s.h5')
        m.save(q)
        m = SVM.load(q)
        ctx.same((m.name, m.use_bias, m.bias_scaling, m.balance_class_weight), (nm, kb, bs, bal), 'configuration after loading')
        ctx.close(m.A, A, 'loaded slope', rtol=1e-5, atol=1e-5)
        ctx.close(np.asarray(m.b) * np.ones(J), b, 'loaded bias', rtol=1e-5, atol=1e-5)
        A, b = m.A, np.asarray(m.b) * np.ones(J)
    y = ctx.rng.randn(ctx.int(1, 6), d) * 2
    s = y.dot(A) + b
    ctx.close(ctx.pure(m.predict, y), s, 'scores', rtol=1e-9, atol=1e-9)
    S = 1 / (1 + np.exp(-s))
    T = np.exp(s - logsumexp(s, axis=1)[:, None])
    for how, want in (('bin-post', S), ('bin-logpost', np.log(S)), ('cat-post', T), ('cat-logpost', np.log(T))):
        ctx.close(ctx.pure(lambda a: m.predict(a, eval_type=how), y), want, how, rtol=1e-7, atol=1e-9)
    far = y * 1000                      # posteriors below the smallest number
    s = far.dot(A) + b
    for how, want in (('bin-logpost', -np.logaddexp(0, -s)), ('cat-logpost', s - logsumexp(s, axis=1)[:, None])):
        ctx.close(m.predict(far, eval_type=how), want, how + ' of far classes', rtol=1e-6, atol=1e-8)
    ctx.event('trainings')
    ctx.sig('svm', d, K, C, bs, kb, bal, sw is None)


@case(quick=100, mult=12)
def calibration(ctx):
    """Gaussian calibration: log-likelihood ratio of two Gaussians with the same variance"""
    from scipy.stats import norm
    from hyperion.calibration.gauss_calibration import GaussCalibration as G
    y = ctx.rng.permutation(np.concatenate(([0, 1], ctx.rng.randint(0, 2, ctx.size(1, 60, 5000)))))
    x = y * ctx.pick([1., 5.]) + ctx.rng.randn(len(y)) * ctx.pick([.5, 2.]) + ctx.rng.randn()
    sw = ctx.rng.rand(len(y)) + .1 if ctx.flip() else None
    w = np.ones(len(y)) if sw is None else sw
    m1, m2 = (np.sum((w * x)[y == c]) / np.sum(w[y == c]) for c in (1, 0))
    v = np.sum(w * (x - np.where(y == 1, m1, m2)) ** 2) / w.sum()
    if v < 1e-3:
        return ctx.check(True, 'ill conditioned')
    g = G(name=ctx.pick([None, 'c']))
    ctx.check(not g.is_init(), 'initialised before training')
    if sw is None:
        ctx.pure(lambda a, b: g.fit(a, b), x, y)
    else:
        ctx.pure(lambda a, b, c: g.fit(a, b, sample_weight=c), x, y, sw)
    if ctx.flip():
        f = ctx.path('g.h5')
        g.save(f)
        h = G.load(f)
        ctx.same(h.name, g.name, 'name')
        g = h
    elif ctx.flip():
        g = G(mu1=g.mu1, mu2=g.mu2, sigma2=g.sigma2)
    ctx.check(g.is_init(), 'initialised')
    ctx.close(np.array([float(g.mu1), float(g.mu2), float(g.sigma2)]), np.array([m1, m2, v]), 'means and variance', rtol=1e-5, atol=1e-5)
    s = ctx.rng.randn(ctx.size(1, 9, 5000)) * 4
    sd = np.sqrt(v)
    ctx.close(ctx.pure(g.predict, s), norm.logpdf(s, m1, sd) - norm.logpdf(s, m2, sd), 'log-likelihood ratios', rtol=1e-4, atol=1e-4 * (1 + (m1 ** 2 + m2 ** 2) / v))
    ctx.event('calibrations')
    ctx.sig('cal', len(y), sw is None)
