"""C25 Gaussian densities, their estimation, normalised statistics, samples and files"""
import numpy as np
from scipy.stats import multivariate_normal, norm

from ..core import case


def spd(ctx, d, diag):
    if diag:
        return ctx.rng.rand(d) * 3 + .1
    A = ctx.rng.randn(d, d + 2)
    return A.dot(A.T) / d + .2 * np.eye(d)


def cls_of(diag):
    from hyperion.pdfs.core import Normal
    from hyperion.pdfs.core.normal_diag_cov import NormalDiagCov
    return NormalDiagCov if diag else Normal


def full(L, diag):
    return np.diag(L) if diag else L


def logp(x, mu, Lam):
    return np.atleast_1d(multivariate_normal(mu, np.linalg.inv(Lam), allow_singular=False).logpdf(x).reshape(-1))


def gen(ctx, diag, d=None):
    d = ctx.int(1, 6) if d is None else d
    mu = ctx.rng.randn(d) * ctx.pick([0, 1, 5])
    L = spd(ctx, d, diag)
    return d, mu, L


def state(ctx, g, mu, L, diag, when, tol=1e-7):
    """every view of the parameters agrees"""
    Lam = full(L, diag)
    C = np.linalg.inv(Lam)
    sc = 1 + np.max(np.abs(mu)) ** 2 * np.max(np.abs(Lam))
    ctx.close(g.mu, mu, 'mean ' + when, atol=tol * (1 + np.max(np.abs(mu))))
    ctx.close(g.Lambda, L, 'precision ' + when, rtol=tol, atol=tol * np.max(np.abs(L)))
    ctx.close(g.Sigma, np.diag(C) if diag else C, 'covariance ' + when, rtol=tol * 100, atol=tol * np.max(np.abs(C)))
    ctx.close(g.logLambda, np.linalg.slogdet(Lam)[1], 'log-determinant ' + when, atol=tol * 100)
    ch = full(np.asarray(g.cholLambda), diag)
    ctx.close(ch.dot(ch.T), Lam, 'factor of the precision ' + when, rtol=tol, atol=tol * np.max(np.abs(L)))
    want = .5 * len(mu) * np.log(2 * np.pi) - .5 * np.linalg.slogdet(Lam)[1] + .5 * mu.dot(Lam).dot(mu)
    ctx.close(g.A, want, 'log-partition ' + when, atol=tol * 10 * sc)


@case(quick=150, mult=12)
def densities(ctx):
    """log-density by natural and standard parameters, conversions, sufficient statistics"""
    diag = ctx.flip()
    cls = cls_of(diag)
    d, mu, L = gen(ctx, diag)
    Lam = full(L, diag)
    x = mu + ctx.rng.randn(ctx.size(1, 8, 2000), d) * ctx.pick([.1, 1., 6.])
    eta = ctx.pure(cls.compute_eta, mu, L)
    g = cls(x_dim=d, mu=mu.copy(), Lambda=L.copy())
    h = cls(x_dim=d, eta=eta.copy())
    sc = 1 + np.max(np.abs(x)) ** 2 * np.max(np.abs(L)) * d
    want = logp(x, mu, Lam)
    for o, when in ((g, 'from standard parameters'), (h, 'from natural parameters')):
        ctx.check(o.is_init, 'initialised ' + when)
        ctx.close(ctx.pure(o.log_prob, x), want, 'log-density (natural) ' + when, rtol=1e-7, atol=1e-9 * sc)
        ctx.close(ctx.pure(lambda a: o.log_prob(a, method='std'), x), want, 'log-density (standard) ' + when, rtol=1e-7, atol=1e-9 * sc)
        ctx.close(o.eval_llk(x), want, 'log-likelihood ' + when, rtol=1e-7, atol=1e-9 * sc)
        ctx.close(o.eta, eta, 'natural parameters ' + when, rtol=1e-7, atol=1e-8)
        state(ctx, o, mu, L, diag, when)
    m2, L2 = ctx.pure(cls.compute_std, eta)
    ctx.close(m2, mu, 'mean of natural parameters', rtol=1e-7, atol=1e-8 * sc)
    ctx.close(L2, L, 'precision of natural parameters', rtol=1e-9, atol=1e-9)
    ctx.close(cls.compute_A_nat(eta), cls.compute_A_std(mu, L), 'log-partitions', rtol=1e-7, atol=1e-8 * sc)
    u = ctx.pure(cls.compute_suff_stats, x)
    ctx.close(u.dot(eta) - g.A, want, 'density from statistics', rtol=1e-7, atol=1e-9 * sc)
    ctx.close(g.log_prob(x, u), want, 'density given statistics', rtol=1e-7, atol=1e-9 * sc)
    if diag:
        lc = np.array([np.sum(np.log(np.array([norm.cdf((a[j] - mu[j]) * np.sqrt(L[j])) for j in range(d)]) + 1e-10)) for a in x])
        ctx.close(ctx.pure(g.log_cdf, x), lc, 'log cumulative distribution', rtol=1e-6, atol=1e-6)
    ctx.event('densities', len(x))
    ctx.sig(diag, d, len(x))
    ctx.sample(diag=diag, dim=d, points=len(x))


@case(quick=150, mult=12)
def estimation(ctx):
    """any history of fits: weighted maximum likelihood, in batches or at once, parameters kept when not updated"""
    diag = ctx.flip()
    cls = cls_of(diag)
    d, mu, L = gen(ctx, diag)
    um, ul = ctx.flip(.75), ctx.flip(.75)
    floor = ctx.pick([1e-5, 1e-5, .5])
    g = cls(x_dim=d, mu=mu.copy(), Lambda=L.copy(), update_mu=um, update_Lambda=ul, var_floor=floor)
    if um and ul and ctx.flip(.4):
        g = cls(x_dim=d, var_floor=floor)
    for rep in range(ctx.int(1, 3)):
        n = ctx.size(d + 3, 50, 3000)
        x = ctx.rng.randn(n, d).dot(np.eye(d) + .4 * ctx.rng.randn(d, d)) + ctx.rng.randn(d) * ctx.pick([0, 3])
        if diag and ctx.flip(.2):
            x[:, ctx.int(0, d - 1)] *= .01
        w = ctx.pick([None, ctx.rng.rand(n) + .05, ctx.int(1, 3) * np.ones(n)])
        ww = np.ones(n) if w is None else w
        bs = ctx.pick([None, None, 1, 7, n, 100])
        val = ctx.flip(.4)
        y = x[: ctx.int(1, n)] + .1
        wy = ctx.rng.rand(len(y)) + .1 if ctx.flip() else None
        how = ctx.int(0, 3)
        if how == 0:      # one fit
            if w is None:
                r = ctx.pure(lambda a, b: g.fit(a, x_val=b if val else None, sample_weight_val=wy if val else None, batch_size=bs), x, y)
            else:
                r = ctx.pure(lambda a, b, c: g.fit(a, sample_weight=b, x_val=c if val else None,
                                                   sample_weight_val=wy if val else None, batch_size=bs), x, w, y)
        elif how == 1:    # steps
            N, u = g.Estep(x, sample_weight=w, batch_size=bs)
            ctx.pure(lambda a: g.Mstep(N, a), u)
        elif how == 2:    # statistics added up
            cut = ctx.int(1, n - 1)
            st = [g.Estep(x[a], sample_weight=None if w is None else w[a]) for a in (slice(0, cut), slice(cut, n))]
            if ctx.flip(.3):
                st.append((0, 0 * st[0][1]))
            Ns, us = [a for a, _ in st], [b for _, b in st]
            keep = [b.copy() for b in us]
            N, u = g.add_suff_stats(Ns, us)
            ctx.check(all(np.array_equal(a, b) for a, b in zip(us, keep)), 'adding statistics changes them')
            ctx.close(N, ww.sum(), 'count of added statistics', rtol=1e-9)
            g.Mstep(N, u)
        else:             # statistics of each vector
            uu = cls.compute_suff_stats(x)
            N, u = ctx.pure(lambda a: g.accum_suff_stats(x, a, sample_weight=w), uu)
            g.Mstep(N, u)
        if how:
            ctx.close(N, ww.sum(), 'count', rtol=1e-9)
        if um:
            mu = ww.dot(x) / ww.sum()
        if ul:
            C = (ww[:, None] * (x - mu)).T.dot(x - mu) / ww.sum()
            if diag:
                L = 1 / np.maximum(np.diag(C), floor)
            else:
                e = np.linalg.eigvalsh(C)
                if e[0] < 1e-5 * e[-1]:
                    return ctx.check(True, 'ill conditioned')
                L = np.linalg.inv(C)
        state(ctx, g, mu, L, diag, 'after estimation', tol=1e-6)
        z = x[:3]
        ctx.close(g.log_prob(z), logp(z, mu, full(L, diag)), 'log-density after estimation', rtol=1e-5, atol=1e-5 * (1 + np.max(np.abs(L))))
        ctx.close(g.log_prob(z, method='std'), logp(z, mu, full(L, diag)), 'log-density (standard) after estimation', rtol=1e-5,
                  atol=1e-5 * (1 + np.max(np.abs(L))))
        lp = logp(x, mu, full(L, diag))
        tol = dict(rtol=1e-5, atol=1e-5 * n * (1 + np.max(np.abs(L))))
        if how == 0:
            ctx.close(r[:2], [ww.dot(lp), ww.dot(lp) / ww.sum()], 'objective', **tol)
            ctx.same(len(r), 4 if val else 2, 'values of the objective')
            if val:
                lv = logp(y, mu, full(L, diag))
                v = np.ones(len(y)) if wy is None else wy
                ctx.close(r[2:], [v.dot(lv), v.dot(lv) / v.sum()], 'objective of the validation data', **tol)
        ctx.close(g.elbo(x, sample_weight=w, batch_size=bs), ww.dot(lp), 'objective alone', **tol)
        ctx.sig(diag, d, um, ul, how, w is None, bs)
    ctx.event('fits', rep + 1)


@case(quick=100, mult=12)
def normalised_statistics(ctx):
    """statistics normalised with the Gaussian are those of the whitened vectors"""
    diag = ctx.flip()
    cls = cls_of(diag)
    d, mu, L = gen(ctx, diag)
    g = cls(x_dim=d, mu=mu.copy(), Lambda=L.copy())
    x = ctx.rng.randn(ctx.int(1, 9), d) * 2 + ctx.rng.randn(d)
    w = ctx.rng.rand(len(x)) if ctx.flip() else None
    N, u = g.Estep(x, sample_weight=w)
    ww = np.ones(len(x)) if w is None else w
    Ch = full(np.asarray(g.cholLambda), diag)
    z = (x - mu).dot(Ch)       # z.z' = (x - mu) Lambda (x - mu)'
    sc = 1 + np.max(np.abs(z)) ** 2 * len(x)
    for o2 in (False, True):
        N2, v = ctx.pure(lambda a: g.norm_suff_stats(N, a, o2), u)
        ctx.close(N2, ww.sum(), 'count of normalised statistics', rtol=1e-9)
        ctx.close(v[:d], ww.dot(z), 'first order', rtol=1e-7, atol=1e-8 * sc)
        if o2:
            want = ww.dot(cls.compute_suff_stats(z))
            ctx.close(v, want, 'second order', rtol=1e-7, atol=1e-8 * sc)
        else:
            ctx.same(len(v), d, 'length of first order statistics')
    ctx.event('vectors', len(x))
    ctx.sig(diag, d, w is None)


@case(quick=60, mult=12)
def samples_and_files(ctx):
    """samples have the moments of the density and repeat with the seed; saved and loaded Gaussians are the same"""
    diag = ctx.flip()
    cls = cls_of(diag)
    d, mu, L = gen(ctx, diag)
    Lam = full(L, diag)
    C = np.linalg.inv(Lam)
    nm = ctx.pick([None, 'g1'])
    um, ul, fl = ctx.flip(), ctx.flip(), ctx.pick([1e-5, .01])
    g = cls(x_dim=d, mu=mu.copy(), Lambda=L.copy(), name=nm, update_mu=um, update_Lambda=ul, var_floor=fl)
    n = 4000
    seed = ctx.seedint()
    f = ctx.pick([g.sample, g.generate])
    x = f(n, seed=seed)
    ctx.same(x.shape, (n, d), 'samples')
    ctx.check(np.all(np.abs(x.mean(0) - mu) < 6 * np.sqrt(np.diag(C) / n)), 'mean of the samples', x.mean(0), mu)
    S = np.cov(x.T, bias=True).reshape(d, d)
    sd = np.sqrt((np.outer(np.diag(C), np.diag(C)) + C ** 2) / n)
    ctx.check(np.all(np.abs(S - C) < 7 * sd), 'covariance of the samples', S, C)
    ctx.check(np.array_equal(g.sample(n, seed=seed), x), 'samples differ for the same seed')
    ctx.check(not np.array_equal(g.sample(5, seed=seed + 1), x[:5]), 'samples do not depend on the seed')
    r1, r2 = np.random.RandomState(seed), np.random.RandomState(seed)
    a = g.sample(3, rng=r1)
    ctx.check(np.array_equal(a, g.sample(3, rng=r2)) and not np.array_equal(a, g.sample(3, rng=r2)), 'samples from a generator')
    p = ctx.path('g.h5')
    g.save(p)
    h = cls.load(p)
    ctx.same((h.name, h.x_dim, h.update_mu, h.update_Lambda, h.var_floor), (nm, d, um, ul, fl), 'configuration after loading')
    state(ctx, h, g.mu, g.Lambda, diag, 'after loading', tol=1e-5)
    ctx.close(h.log_prob(x[:5]), g.log_prob(x[:5]), 'log-density after loading', rtol=1e-4, atol=1e-4 * (1 + np.max(np.abs(L)) * np.max(np.abs(x[:5])) ** 2))
    ctx.event('samples', n)
    ctx.sig(diag, d, nm, um, ul)
