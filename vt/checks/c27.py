"""C27 PLDA models: likelihood ratios, class posteriors, likelihoods, samples, files"""
import numpy as np
from scipy.stats import multivariate_normal

from ..core import case
from ..pldaref import KINDS, draw, make, params_of, covs, log_marginal, log_gain, llk


def lnorm(x):
    return np.sqrt(x.shape[1]) * x / np.sqrt(np.sum(x ** 2, 1, keepdims=True))


def cls(kind):
    from hyperion.pdfs import FRPLDA, SPLDA, PLDA
    return dict(frplda=FRPLDA, splda=SPLDA, plda=PLDA)[kind]


def classes(ctx, d, mu, n):
    """n classes of 1 to 4 samples; samples are shuffled"""
    per = [ctx.int(1, 4) for _ in range(n)]
    if ctx.flip(.3):
        per = [per[0]] * n
    ids = np.repeat(np.arange(n), per)
    ids = ids[ctx.rng.permutation(len(ids))]
    x = mu + (ctx.rng.randn(n, d)[ids] + ctx.rng.randn(len(ids), d)) * ctx.pick([.7, 2.])
    return x, ids


@case(quick=150, mult=12)
def ratios(ctx):
    """1 vs 1, N vs 1 and N vs M likelihood ratios against joint Gaussian densities"""
    kind = ctx.pick(KINDS)
    p = draw(ctx, kind)
    d = len(p['mu'])
    mu = p['mu']
    Sb, Sw = covs(kind, p)
    m = make(kind, p)
    if ctx.flip(.3):
        f = ctx.path('m.h5')
        m.save(f)
        m = cls(kind).load(f)
        p = params_of(kind, m)
        mu = p['mu']
        Sb, Sw = covs(kind, p)
    x1, i1 = classes(ctx, d, mu, ctx.size(1, 4, 16, .005))
    x2, i2 = classes(ctx, d, mu, ctx.size(1, 4, 16, .005))
    n1, n2 = i1.max() + 1, i2.max() + 1
    big = 1 + max(np.max(np.abs(np.linalg.solve(Sw, (x - mu).T))) for x in (x1, x2)) ** 2
    tol = dict(rtol=1e-6, atol=1e-8 * big * 16)

    def ratio(a, b):
        return log_marginal(np.vstack((a, b)), mu, Sb, Sw) - log_marginal(a, mu, Sb, Sw) - log_marginal(b, mu, Sb, Sw)

    def one(a, b):
        return np.array([[ratio(u[None], v[None]) for v in b] for u in a])
    s11 = one(x1, x2)
    ctx.close(ctx.pure(m.llr_1vs1, x1, x2), s11, '1 vs 1', **tol)
    c1 = [x1[i1 == k] for k in range(n1)]
    c2 = [x2[i2 == k] for k in range(n2)]
    a1, a2 = (np.array([a.mean(0) for a in c]) for c in (c1, c2))
    want = {}
    want['book'] = np.array([[ratio(a, b) for b in c2] for a in c1])
    want['savg'] = np.array([[s11[np.ix_(i1 == a, i2 == b)].mean() for b in range(n2)] for a in range(n1)])
    want['vavg'] = one(a1, a2)
    want['vavg-lnorm'] = one(lnorm(a1), lnorm(a2))
    big2 = 1 + max(np.max(np.abs(np.linalg.solve(Sw, (x - mu).T))) for x in (lnorm(a1), lnorm(a2), x1, x2)) ** 2
    tol['atol'] = 1e-8 * big2 * 16
    for how in ('book', 'savg', 'vavg', 'vavg-lnorm'):
        got = ctx.pure(lambda a, b, c, e: m.llr_NvsM(a, b, c, e, method=how), x1, x2, i1, i2)
        ctx.close(got, want[how], 'N vs M ' + how, **tol)
        t = dict(book=[[ratio(a, b[None]) for b in x2] for a in c1], savg=[s11[i1 == a].mean(0) for a in range(n1)],
                 vavg=one(a1, x2))
        t['vavg-lnorm'] = one(lnorm(a1), lnorm(x2))
        ctx.close(ctx.pure(lambda a, b, c: m.llr_Nvs1(a, b, c, method=how), x1, x2, i1), np.array(t[how]), 'N vs 1 ' + how, **tol)
    ctx.close(m.llr_NvsM(x1, x2, i1, i2), want['vavg-lnorm'], 'default pooling', **tol)
    # from statistics, also weighted ones
    w1, w2 = ctx.rng.rand(len(x1), n1) + .1, ctx.rng.rand(len(x2), n2) + .1
    D1, D2 = m.compute_stats_soft(x1, w1), m.compute_stats_soft(x2, w2)
    keep = [a.copy() for a in D1 + D2]
    got = m.llr_NvsM(D1, D2, method='book')
    g = lambda N, F: log_gain(N, F, mu, Sb, Sw)
    ctx.close(got, np.array([[g(D1[0][a] + D2[0][b], D1[1][a] + D2[1][b]) - g(D1[0][a], D1[1][a]) - g(D2[0][b], D2[1][b]) for b in range(n2)] for a in range(n1)]),
              'weighted statistics', **tol)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, D1 + D2)), 'scoring changes the statistics')
    ctx.event('ratios', s11.size)
    ctx.sig(kind, d, n1, n2, len(x1), len(x2))
    ctx.sample(kind=kind, dim=d, enroll=len(x1), test=len(x2))


@case(quick=300, mult=12)
def inference(ctx):
    """statistics, class posteriors, likelihood of a data set, conditional densities"""
    kind = ctx.pick(KINDS)
    p = draw(ctx, kind)
    d = len(p['mu'])
    mu = p['mu']
    Sb, Sw = covs(kind, p)
    m = make(kind, p)
    x, ids = classes(ctx, d, mu, ctx.size(1, 5, 20))
    n, K = len(x), ids.max() + 1
    sw = ctx.rng.rand(n) + .1 if ctx.flip() else None
    sc = ctx.pick([None, 1, .3])
    hard = ctx.flip()
    if hard:
        w = np.eye(K)[ids]
        D = ctx.pure(lambda a, b: m.compute_stats_hard(a, b, sample_weight=sw, scal_factor=sc), x, ids)
    else:
        w = ctx.rng.rand(n, K) + .05
        w /= w.sum(1, keepdims=True)
        D = ctx.pure(lambda a, b: m.compute_stats_soft(a, b, sample_weight=sw, scal_factor=sc), x, w)
    w = w * (1 if sw is None else sw[:, None]) * (1 if sc is None else sc)
    ctx.close(D[0], w.sum(0), 'counts')
    ctx.close(D[1], w.T.dot(x), 'first-order statistics', atol=1e-10)
    ctx.close(D[2], (x * w.sum(1)[:, None]).T.dot(x), 'second-order statistics', atol=1e-9)
    Dc = ctx.pure(lambda a, b, c: m.center_stats((a, b, c), mu), *D)
    y = x - mu
    ctx.close(Dc[1], w.T.dot(y), 'centered first-order statistics', atol=1e-8)
    ctx.close(Dc[2], (y * w.sum(1)[:, None]).T.dot(y), 'centered second-order statistics', atol=1e-7)
    # class posteriors: Gaussian conditioning
    V, m0, P = (np.eye(d), mu, Sb) if kind == 'frplda' else (p['V'], np.zeros(len(p['V'])), np.eye(len(p['V'])))
    off = mu - m0.dot(V)
    big = 1 + np.max(np.abs(x)) ** 2
    py, pS, lp = [], [], []
    iW, iP = np.linalg.inv(Sw), np.linalg.inv(P)
    for k in range(K):
        S = np.linalg.inv(iP + w[:, k].sum() * V.dot(iW).dot(V.T))
        g = iP.dot(m0) + V.dot(iW).dot(w[:, k].dot(x - off))
        py.append(S.dot(g))
        pS.append(S)
        lp.append(multivariate_normal(S.dot(g), S).logpdf(np.zeros(len(g))))
    keep = [a.copy() for a in D]
    t = dict(rtol=1e-6, atol=1e-7 * big)
    ctx.close(m.compute_py_g_x(D), np.array(py), 'posterior means', **t)
    r = m.compute_py_g_x(D, return_cov=True)
    ctx.close(r[0], np.array(py), 'posterior means', **t)
    ctx.close(r[1], np.array(pS), 'posterior covariances', **t)
    ctx.close(m.compute_py_g_x(D, return_logpy_0=True)[1], np.array(lp), 'posterior at zero', rtol=1e-5, atol=1e-6 * big)
    # likelihood of the data set
    e = m.elbo(m.Estep(D))
    ctx.close(float(e), float(llk(x, w, mu, Sb, Sw)), 'log-likelihood of the data', rtol=1e-6, atol=1e-7 * big * n)
    if hard and sw is None and sc in (None, 1):
        ctx.close(float(e), float(sum(log_marginal(x[ids == k], mu, Sb, Sw) for k in range(K))), 'joint density of the data', rtol=1e-6, atol=1e-7 * big * n)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, D)), 'inference changes the statistics')
    # conditional densities
    if kind != 'frplda':
        y = ctx.rng.randn(n, len(V))
        mean = mu + y.dot(V)
        want = np.array([multivariate_normal(a, Sw).logpdf(b) for a, b in zip(mean, x)])
        ctx.close(ctx.pure(m.log_probx_g_y, x, y), want, 'density given the class', rtol=1e-6, atol=1e-7 * big)
        if kind == 'plda':
            z = ctx.rng.randn(n, len(p['U']))
            want = np.array([multivariate_normal(a, np.diag(1 / p['D'])).logpdf(b) for a, b in zip(mean + z.dot(p['U']), x)])
            ctx.close(ctx.pure(m.log_probx_g_yz, x, y, z), want, 'density given class and channel', rtol=1e-6, atol=1e-7 * big)
    ctx.event('data sets')
    ctx.sig(kind, d, n, K, hard, sw is None, sc)


@case(quick=100, mult=12)
def samples_and_files(ctx):
    """samples have the two covariances; saved and loaded; averaged models; factory"""
    from hyperion.helpers import PLDAFactory
    kind = ctx.pick(KINDS)
    p = draw(ctx, kind)
    d = len(p['mu'])
    mu = p['mu']
    Sb, Sw = covs(kind, p)
    up = {'update_' + a: ctx.flip() for a in dict(frplda=('mu', 'B', 'W'), splda=('mu', 'V', 'W'), plda=('mu', 'V', 'U', 'D'))[kind]}
    extra = dict(floor_iD=ctx.pick([1e-5, .01])) if kind == 'plda' else dict(fullcov_W=ctx.flip())
    nm = ctx.pick([None, 'plda1'])
    m = make(kind, p, name=nm, **dict(up, **extra))
    K, n = 1500, ctx.int(2, 4)
    seed = ctx.seedint()
    x = m.sample(K, n, seed=seed)
    ctx.same(x.shape, (K * n, d), 'samples')
    c = x.reshape(K, n, d)
    cm = c.mean(1)

    def moment(y, C, label, df):
        S = y.T.dot(y) / df
        sd = np.sqrt(np.einsum('ni,nj->ij', y ** 2, y ** 2)) / df * 1.5 + 1e-12
        ctx.check(np.all(np.abs(S - C) < 7 * sd), label, S, C)
    moment(cm - mu, Sb + Sw / n, 'covariance of the class means', K)
    moment((c - cm[:, None]).reshape(-1, d), Sw, 'covariance within classes', K * (n - 1))
    T = np.diag(Sb + Sw / n) / K
    ctx.check(np.all(np.abs(x.mean(0) - mu) < 6.5 * np.sqrt(T)), 'mean of the samples', x.mean(0), mu)
    ctx.check(np.array_equal(x, m.sample(K, n, seed=seed)), 'samples differ for the same seed')
    ctx.check(not np.array_equal(m.sample(3, 2, seed=seed), m.sample(3, 2, seed=seed + 1)), 'samples do not depend on the seed')
    r1, r2 = np.random.RandomState(seed), np.random.RandomState(seed)
    a = m.sample(3, 2, rng=r1)
    ctx.check(np.array_equal(a, m.sample(3, 2, rng=r2)) and not np.array_equal(a, m.sample(3, 2, rng=r2)), 'samples from a generator')
    f = ctx.path('m.h5')
    m.save(f)
    h = cls(kind).load(f) if ctx.flip() else PLDAFactory.load_plda(kind, f)
    ctx.check(type(h) is cls(kind), 'class of the loaded model')
    ctx.same({k: getattr(h, k) for k in list(up) + list(extra)}, dict(up, **extra), 'configuration of the loaded model')
    ctx.same((h.name, h.y_dim, h.mu.shape[0]), (nm, m.y_dim, d), 'dimensions of the loaded model')
    for k, v in p.items():
        ctx.close(getattr(h, k), v, 'loaded ' + k, rtol=2e-6, atol=1e-6)
    u, v = x[:3], x[n: n + 3]
    own = covs(kind, params_of(kind, h))
    L = np.array([[log_marginal(np.vstack((a, b)), h.mu, *own) - log_marginal(a[None], h.mu, *own) - log_marginal(b[None], h.mu, *own) for b in v] for a in u])
    ctx.close(h.llr_1vs1(u, v), L, 'ratios of the loaded model', rtol=1e-5, atol=1e-5)
    # weighted average of two models
    q = draw(ctx, kind, d)
    if kind != 'frplda':
        q['V'] = ctx.rng.randn(*p['V'].shape)
    if kind == 'plda':
        q['U'] = ctx.rng.randn(*p['U'].shape) * .5
    o = make(kind, q)
    wm, wb, ww = ctx.pick([0, .5, 1]), ctx.pick([0, .3, 1]), ctx.pick([0, .6, 1])
    before = params_of(kind, o)
    m.llr_1vs1(u, v)
    m.weighted_avg_model(o, wm, wb, ww)
    ctx.check(all(np.array_equal(before[k], b) for k, b in params_of(kind, o).items()), 'averaging changes the other model')
    Qb, Qw = covs(kind, q)
    B, Wc = wb * Qb + (1 - wb) * Sb, ww * Qw + (1 - ww) * Sw
    ok = True
    if kind != 'frplda':
        B, ok = best_rank(B, len(p['V']))
    got = params_of(kind, m)
    g = covs(kind, got)
    ctx.close(got['mu'], wm * q['mu'] + (1 - wm) * mu, 'mean of the average')
    if ok and np.linalg.cond(Wc) < 1e4 and (kind != 'frplda' or np.linalg.cond(B) < 1e4):
        ctx.close(g[0], B, 'between-class covariance of the average', rtol=1e-6, atol=1e-6)
        if kind != 'plda':
            ctx.close(g[1], Wc, 'within-class covariance of the average', rtol=1e-6, atol=1e-6)
        elif ww > 0:
            U, ok = best_rank(Wc, len(p['U']))
            if ok:
                ctx.close(got['U'].T.dot(got['U']), U, 'channel covariance of the average', rtol=1e-6, atol=1e-6)
                ctx.close(1 / got['D'], np.maximum(np.diag(Wc - U), extra['floor_iD']), 'noise of the average', rtol=1e-5, atol=1e-7)
        else:
            ctx.close(g[1], Sw, 'within-class covariance kept', rtol=1e-9)
    if np.linalg.cond(g[1]) < 1e4 and (kind != 'frplda' or np.linalg.cond(g[0]) < 1e4):
        L = np.array([[log_marginal(np.vstack((a, b)), got['mu'], *g) - log_marginal(a[None], got['mu'], *g) - log_marginal(b[None], got['mu'], *g) for b in v] for a in u])
        ctx.close(m.llr_1vs1(u, v), L, 'ratios of the average', rtol=1e-5, atol=1e-5 * (1 + np.max(np.abs(L))))
    ctx.event('samples', K * n)
    ctx.sig(kind, d, n, wm, wb, ww)


def best_rank(C, r):
    e, v = np.linalg.eigh(C)
    ok = r == len(e) or e[-r] - e[-r - 1] > 1e-3
    return (v[:, -r:] * e[-r:]).dot(v[:, -r:].T), ok
