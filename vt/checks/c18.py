"""C18 ROC, convex hull, EER, PRBEP, minimum DCF and area against brute force over thresholds"""
import numpy as np

from ..core import case


def scores(ctx):
    nt, nn = ctx.size(1, 30, 600), ctx.size(1, 40, 600)
    d = ctx.pick([0., .5, 1., 2., 4., -1.])
    tar, non = ctx.rng.randn(nt) + d, ctx.rng.randn(nn)
    kind = ctx.pick(['plain', 'plain', 'ties', 'few', 'scaled', 'same', 'int'])
    if kind == 'ties':
        tar, non = np.round(tar * 2) / 2, np.round(non * 2) / 2
    elif kind == 'few':
        tar, non = tar[:ctx.int(1, 3)], non[:ctx.int(1, 3)]
    elif kind == 'scaled':
        s, o = 10. ** ctx.int(-4, 4), ctx.pick([0, -100, 100])
        tar, non = tar * s + o, non * s + o
    elif kind == 'same':
        tar, non = np.round(tar), np.round(non)
        if ctx.flip(.3):
            tar[:] = non[:] = 1.
    elif kind == 'int':
        tar, non = np.round(tar * 3).astype(int), np.round(non * 3).astype(int)
    return tar, non, kind


def points(tar, non):
    """(miss, fa) counts of every threshold"""
    th = np.concatenate(([-np.inf], np.unique(np.concatenate((tar, non))), [np.inf]))
    return sorted({(int(np.sum(tar < t)), int(np.sum(non >= t))) for t in th})


def hull(pts):
    """lower convex hull of (miss, fa) count points, exact integer arithmetic"""
    h = []
    for p in sorted(pts):
        while len(h) >= 2 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
            h.pop()
        h.append(p)
    return h


def lower(pts):
    """vertices of the convex hull in order of misses; several fa for the same miss: the hull goes down vertically first"""
    first = max(p for p in pts if p[0] == 0)      # accept everything
    low = min(p for p in pts if p[0] == 0)
    last = min(p for p in pts if p[0] == max(q[0] for q in pts))   # reject everything
    rest = [p for p in pts if p[0] > 0 and p == min(q for q in pts if q[0] == p[0])]
    h = hull([low] + rest)
    # after the hull touches fa = 0 it stays there
    return ([first] if first != low else []) + h, last


def diagonal(h, sx, sy):
    """where the polyline of (x=miss*sx, y=fa*sy) crosses x = y"""
    for a, b in zip(h[:-1], h[1:]):
        fa_, fb_ = a[0] * sx - a[1] * sy, b[0] * sx - b[1] * sy
        if fa_ <= 0 <= fb_:
            w = 0. if fb_ == fa_ else -fa_ / (fb_ - fa_)
            return (a[0] + w * (b[0] - a[0])) * sx
    raise AssertionError(h)


@case(quick=700, mult=12)
def curves(ctx):
    from hyperion.metrics.roc import compute_roc, compute_rocch, rocch2eer, filter_roc, compute_area_under_rocch
    from hyperion.metrics.eer import compute_eer, compute_prbep
    tar, non, kind = scores(ctx)
    nt, nn = len(tar), len(non)
    pts = points(tar, non)
    h, last = lower(pts)
    ctx.check(h[-1] == last, 'oracle')
    pm, pf = ctx.pure(compute_roc, tar, non)
    ctx.same((pm.shape, pf.shape), ((nt + nn + 1,),) * 2, 'size of the ROC')
    ctx.close([pm[0], pf[0], pm[-1], pf[-1]], [0, 1, 1, 0], 'ends of the ROC')
    dm, df = np.diff(pm) * nt, -np.diff(pf) * nn
    ctx.check(np.all((np.abs(dm - 1) + np.abs(df) < 1e-6) | (np.abs(dm) + np.abs(df - 1) < 1e-6)), 'steps of the ROC', tar, non)
    got = {(int(round(a * nt)), int(round(b * nn))) for a, b in zip(pm, pf)}
    ctx.check(set(pts) <= got, 'threshold that is not in the ROC', sorted(set(pts) - got))
    if len(np.unique(np.concatenate((tar, non)))) == nt + nn:
        ctx.same(sorted(got), pts, 'points of the ROC')
    # filtered: same polyline, no point left inside a straight section
    fm, ff = ctx.pure(filter_roc, pm, pf)
    ctx.check(len(fm) == len(ff) and 2 <= len(fm) <= len(pm), 'size of the filtered ROC')
    P, F = list(zip(pm, pf)), list(zip(fm, ff))
    ctx.check(set(F) <= set(P) and F[0] == P[0] and F[-1] == P[-1], 'points of the filtered ROC', fm, ff)
    keep = [P[0]] + [P[i] for i in range(1, len(P) - 1) if not (P[i - 1][0] == P[i + 1][0] or P[i - 1][1] == P[i + 1][1])] + [P[-1]]
    ctx.check(F == keep, 'corners of the filtered ROC', str(F), str(keep))
    # convex hull
    hm, hf = ctx.pure(compute_rocch, tar, non)
    H = [(a * nt, b * nn) for a, b in zip(hm, hf)]
    ctx.check(all(min(abs(a[0] - b[0]) + abs(a[1] - b[1]) for a in H) < 1e-6 for b in h), 'vertex missing in the hull', str(H), str(h))
    for x, y in H:
        ok = any(abs((b[0] - a[0]) * (y - a[1]) - (b[1] - a[1]) * (x - a[0])) < 1e-6 and a[0] - 1e-6 <= x <= b[0] + 1e-6 and
                 b[1] - 1e-6 <= y <= a[1] + 1e-6 for a, b in zip(h[:-1], h[1:]))
        ctx.check(ok, 'point outside of the hull', (x, y), str(h))
    ctx.check(all(a[0] <= b[0] + 1e-9 and a[1] >= b[1] - 1e-9 for a, b in zip(H[:-1], H[1:])), 'order of the hull')
    ctx.close([hm[0], hf[0], hm[-1], hf[-1]], [0, 1, 1, 0], 'ends of the hull')
    # figures
    eer = diagonal(h, 1. / nt, 1. / nn)
    ctx.close(ctx.pure(compute_eer, tar, non), eer, 'EER', atol=1e-9, info=(tar, non))
    ctx.close(ctx.pure(rocch2eer, hm, hf), eer, 'EER of the hull')
    ctx.close(ctx.pure(compute_prbep, tar, non), diagonal(h, 1., 1.), 'precision-recall break-even point', atol=1e-7)
    auc = sum(.5 * (b[0] - a[0]) * (a[1] + b[1]) for a, b in zip(h[:-1], h[1:])) / nt / nn
    ctx.close(ctx.pure(compute_area_under_rocch, hm, hf), auc, 'area under the hull', atol=1e-9)
    # figures depend on the order of the scores only
    f = ctx.pick([lambda x: 3. * x + 5, lambda x: np.arctan(x * 1e-3), lambda x: np.argsort(np.argsort(np.unique(x)))[
        np.unique(x, return_inverse=True)[1]] * 2.])
    z = f(np.concatenate((tar, non)).astype(float))
    if len(np.unique(z)) == len(np.unique(np.concatenate((tar, non)))):
        z1, z2 = ctx.rng.permutation(z[:nt]), ctx.rng.permutation(z[nt:])
        ctx.close(compute_eer(z1, z2), eer, 'EER of equivalent scores')
    ctx.event('thresholds', len(pts))
    ctx.sig(kind, nt, nn, len(h))
    ctx.sample(targets=nt, nontargets=nn, kind=kind, eer=float(eer))


@case(quick=600, mult=12)
def min_costs(ctx):
    from hyperion.metrics.dcf import compute_dcf, compute_min_dcf, fast_eval_dcf_eer
    from hyperion.metrics.eer import compute_eer, compute_prbep
    tar, non, kind = scores(ctx)
    nt, nn = len(tar), len(non)
    pts = np.array(points(tar, non))
    n = ctx.int(0, 4)
    pr = np.sort(ctx.rng.uniform(1e-3, .999, size=max(n, 1)))
    if ctx.flip(.3):
        pr = np.sort(10 ** -ctx.rng.uniform(0.4, 3, size=max(n, 1)))
    prior = pr if n else float(pr[0])
    norm = ctx.flip(.7)
    d = pr[:, None] * pts[:, 0] / nt + (1 - pr[:, None]) * pts[:, 1] / nn
    if norm:
        d = d / np.minimum(pr, 1 - pr)[:, None]
    want = d.min(1)
    m, a, b = ctx.pure(compute_min_dcf, tar, non, prior, norm)
    ctx.same(np.shape(m), (n,) if n else (), 'shape of the minimum DCF')
    ctx.close(np.ravel(m), want, 'minimum DCF', rtol=1e-7, info=(tar, non, prior))
    a, b = np.ravel(a), np.ravel(b)
    P = {tuple(p) for p in pts.tolist()}
    for i in range(len(pr)):
        c = pr[i] * a[i] + (1 - pr[i]) * b[i]
        ctx.close(c / (min(pr[i], 1 - pr[i]) if norm else 1), want[i], 'errors at the minimum DCF')
        ctx.check((int(round(a[i] * nt)), int(round(b[i] * nn))) in P and abs(a[i] * nt - round(a[i] * nt)) + abs(
            b[i] * nn - round(b[i] * nn)) < 1e-6, 'errors at the minimum are not those of a threshold', a[i], b[i])
    x, y = ctx.rng.uniform(size=5), ctx.rng.uniform(size=5)
    got = ctx.pure(compute_dcf, x, y, prior, norm)
    w = pr[:, None] * x + (1 - pr[:, None]) * y
    if norm:
        w = w / np.minimum(pr, 1 - pr)[:, None]
    ctx.close(got, w if n else w[0], 'DCF of error rates')
    f = ctx.pure(fast_eval_dcf_eer, tar, non, prior, norm)
    ctx.close(np.ravel(f[0]), want, 'minimum DCF of the joint evaluation')
    ctx.close([f[2], f[3]], [compute_eer(tar, non), compute_prbep(tar, non)], 'EER and PRBEP of the joint evaluation')
    if norm:
        ctx.check(np.all(want <= 1 + 1e-9), 'normalised minimum DCF above one')
    ctx.event('costs', len(pr))
    ctx.sig(kind, n, norm, nt, nn)
