"""C19 calibration metrics: PAV, optimal LLR, Cllr, actual DCF, effective prior"""
import numpy as np
from sklearn.isotonic import IsotonicRegression

from ..core import case
from .c18 import scores


def iso(y):
    return IsotonicRegression().fit(np.arange(len(y)), y).predict(np.arange(len(y)))


@case(quick=400, mult=12)
def pav(ctx):
    from hyperion.metrics.utils import pavx
    n = ctx.size(1, 40, 3000)
    y = ctx.pick([lambda: ctx.rng.randn(n), lambda: np.round(ctx.rng.randn(n)), lambda: (ctx.rng.rand(n) > .5).astype(float),
                  lambda: np.sort(ctx.rng.randn(n)), lambda: -np.sort(ctx.rng.randn(n)), lambda: np.zeros(n),
                  lambda: (ctx.rng.rand(n) > .5).astype(ctx.pick(['int64', 'bool', 'uint8'])), lambda: ctx.rng.randint(-9, 9, size=n)])()
    g, w, h = ctx.pure(pavx, y)
    ctx.close(g, iso(y.astype(float)), 'isotonic fit', atol=1e-9, rtol=1e-9, info=y)
    ctx.same(int(np.sum(w)), n, 'widths of the bins')
    ctx.check(len(w) == len(h) and np.all(np.asarray(w) >= 1), 'bins')
    ctx.close(np.repeat(h, w), g, 'heights of the bins')
    ctx.check(np.all(np.diff(h) > -1e-12), 'order of the heights')
    ctx.event('values', n)
    ctx.sig(n, len(w))


def optimal(tar, non, laplace):
    """optimal log-likelihood ratios per distinct score"""
    s, inv = np.unique(np.concatenate((tar, non)), return_inverse=True)
    T = np.bincount(inv[:len(tar)], minlength=len(s)).astype(float)
    N = np.bincount(inv[len(tar):], minlength=len(s)).astype(float)
    if laplace:
        T, N = np.r_[1, T, 1], np.r_[1, N, 1]
    y = T / (T + N)
    p = IsotonicRegression().fit(np.arange(len(y)), y, sample_weight=T + N).predict(np.arange(len(y)))
    # exact posterior of each block
    q = np.empty_like(p)
    i = 0
    while i < len(p):
        j = i
        while j < len(p) and abs(p[j] - p[i]) < 1e-12:
            j += 1
        q[i:j] = T[i:j].sum() / (T[i:j] + N[i:j]).sum()
        i = j
    p = q[1:-1] if laplace else q
    with np.errstate(divide='ignore'):
        llr = np.log(p) - np.log(1 - p) - np.log(float(len(tar)) / len(non))
    return llr[inv[:len(tar)]], llr[inv[len(tar):]]


def cllr(t, n):
    return .5 * (np.mean(np.logaddexp(0, -t)) + np.mean(np.logaddexp(0, n))) / np.log(2)


@case(quick=500, mult=12)
def llr(ctx):
    from hyperion.metrics.utils import opt_loglr, effective_prior
    from hyperion.metrics.cllr import compute_cllr, compute_min_cllr
    tar, non, kind = scores(ctx)
    with np.errstate(all='ignore'):
        for method in ('laplace', 'raw'):
            wt, wn = optimal(tar, non, method == 'laplace')
            t, n = ctx.pure(opt_loglr, tar, non, method)
            ctx.close(t, wt, 'optimal LLR of targets', atol=1e-5, rtol=1e-7, info=(method, tar, non))
            ctx.close(n, wn, 'optimal LLR of non-targets', atol=1e-5, rtol=1e-7, info=(method, tar, non))
            z, s = np.concatenate((t, n)), np.concatenate((tar, non))
            i = np.argsort(s, kind='mergesort')
            ctx.check(np.all(z[i][1:] >= z[i][:-1] - 1e-5), 'optimal LLR does not follow the scores', method)
            _, u = np.unique(s, return_inverse=True)
            a, b = np.full(u.max() + 1, -np.inf), np.full(u.max() + 1, np.inf)
            np.maximum.at(a, u, z)
            np.minimum.at(b, u, z)
            ctx.close(a, b, 'optimal LLR of equal scores', rtol=1e-12)
            if method == 'laplace':
                ctx.check(np.all(np.isfinite(z)), 'optimal LLR is not finite')
                d = opt_loglr(tar, non)
                ctx.close(np.concatenate(d), z, 'default method')
        want = cllr(wt, wn)
        m = ctx.pure(compute_min_cllr, tar, non)
        ctx.close(m, want, 'minimum Cllr', atol=1e-5, rtol=1e-6, info=(tar, non))
        ctx.check(-1e-6 <= m <= 1 + 1e-6, 'range of the minimum Cllr', m)
        f = tar.astype(float), non.astype(float)
        c = ctx.pure(compute_cllr, *f)
        ctx.close(c, cllr(*f), 'Cllr', rtol=1e-7, info=(tar, non))
        for _ in range(3):
            a, b = 10 ** ctx.rng.uniform(-2, 1), ctx.rng.randn()
            ctx.check(compute_cllr(a * f[0] + b, a * f[1] + b) >= m - 1e-5, 'Cllr below its minimum', a, b)
        ctx.close(compute_min_cllr(3 * f[0] - 1, 3 * f[1] - 1), m, 'minimum Cllr of equivalent scores', atol=1e-6)
    p, cm, cf = ctx.rng.uniform(.001, .999), 10 ** ctx.rng.uniform(-1, 2), 10 ** ctx.rng.uniform(-1, 2)
    e = effective_prior(p, cm, cf)
    ctx.close(e, p * cm / (p * cm + (1 - p) * cf), 'effective prior', rtol=1e-9)
    ctx.event('scores', len(tar) + len(non))
    ctx.sig(kind, len(tar), len(non))
    ctx.sample(targets=len(tar), kind=kind, mincllr=float(m))


@case(quick=500, mult=12)
def actual_costs(ctx):
    from hyperion.metrics.dcf import compute_act_dcf, compute_min_dcf, fast_eval_dcf_eer
    tar, non, kind = scores(ctx)
    tar, non = tar * ctx.pick([1., 1., .1, 5.]), non * 1.
    nt, nn = len(tar), len(non)
    n = ctx.int(0, 5)
    pr = np.sort(1 / (1 + np.exp(ctx.rng.uniform(-4, 6, size=max(n, 1)))))
    if len(np.unique(pr)) < len(pr):
        return
    th = np.log(1 - pr) - np.log(pr)
    if np.min(np.abs(th[:, None] - np.concatenate((tar, non))[None])) < 1e-9:
        return
    if ctx.flip(.1):
        pr = np.array([.5]) if n < 2 else np.array([.5, .9])     # threshold exactly zero
        n = min(n, 2) if n < 2 else 2
        th = np.log(1 - pr) - np.log(pr)
    norm = ctx.flip(.7)
    prior = pr if n else float(pr[0])
    pm = np.array([np.mean(tar < t) for t in th])
    pf = np.array([np.mean(non >= t) for t in th])
    want = pr * pm + (1 - pr) * pf
    if norm:
        want = want / np.minimum(pr, 1 - pr)
    d, a, b = ctx.pure(compute_act_dcf, tar, non, prior, norm)
    ctx.close(np.ravel(a), pm, 'miss rate at the Bayes threshold', info=(tar, pr))
    ctx.close(np.ravel(b), pf, 'false alarm rate at the Bayes threshold', info=(non, pr))
    ctx.close(np.ravel(d), want, 'actual DCF', info=(tar, non, pr))
    m = np.ravel(compute_min_dcf(tar, non, prior, norm)[0])
    ctx.check(np.all(m <= np.ravel(d) + 1e-9), 'actual DCF below the minimum', d, m)
    ctx.close(np.ravel(fast_eval_dcf_eer(tar, non, prior, norm)[1]), want, 'actual DCF of the joint evaluation')
    if n >= 2:
        ctx.raises(lambda: compute_act_dcf(tar, non, pr[::-1], norm), 'priors in descending order taken')
        bad = np.concatenate((pr, ctx.rng.uniform(.02, .98, ctx.int(0, 3))))
        bad = bad[ctx.rng.permutation(len(bad))]
        if np.any(np.diff(bad) < 0):
            ctx.raises(lambda: compute_act_dcf(tar, non, bad, norm), 'priors out of order taken', bad)
    ctx.event('costs', len(pr))
    ctx.sig(kind, n, norm, nt, nn)
