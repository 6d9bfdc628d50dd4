"""C31 score normalisation"""
import numpy as np

from ..core import case


class IllConditioned(Exception):
    pass


def tnorm(s, c, m, fl):
    """test scores normalised by the scores of the cohort models against each test"""
    o = np.empty_like(s)
    for j in range(s.shape[1]):
        v = c[m[:, j], j]
        big = np.max(np.abs(v))
        if v.std() < 1e-8 * big and fl < 1e-8 * big:
            raise IllConditioned()      # the deviation is the rounding of the values
        o[:, j] = (s[:, j] - v.mean()) / max(v.std(), fl)
    return o


def znorm(s, c, m, fl):
    return tnorm(s.T, c.T, m.T, fl).T


def best(v, m, n, skip):
    """positions of the best of the scores that the mask allows"""
    return [k for k in np.argsort(-v, kind='mergesort') if m[k]][skip: skip + n]


def adaptive(s, ct, ec, n, skip, fl, mt, me):
    z, t = np.empty_like(s), np.empty_like(s)
    for i in range(s.shape[0]):
        for j in range(s.shape[1]):
            for o, v, b in ((z, ec[i], [k for k in best(ct[:, j], mt[:, j], n, skip) if me[i, k]]),
                            (t, ct[:, j], [k for k in best(ec[i], me[i], n, skip) if mt[k, j]])):
                if not b:
                    raise IllConditioned()
                w = v[b]
                if w.std() < 1e-8 * np.max(np.abs(w)) and fl < 1e-8 * np.max(np.abs(w)):
                    raise IllConditioned()
                o[i, j] = (s[i, j] - w.mean()) / max(w.std(), fl)
    return (z + t) / np.sqrt(2)


def mask(ctx, shape):
    if ctx.flip():
        return None
    m = ctx.rng.rand(*shape) < ctx.pick([.5, .9, 1.1])
    m[ctx.rng.randint(0, shape[0], shape[1]), np.arange(shape[1])] = True
    m[np.arange(shape[0]), ctx.rng.randint(0, shape[1], shape[0])] = True
    return m


@case(quick=500, mult=20)
def norms(ctx):
    """each normalisation, with masks of cohort trials and floor of the deviation"""
    try:
        one(ctx)
    except IllConditioned:
        ctx.event('ill conditioned')
        ctx.check(True, 'ill conditioned')


def one(ctx):
    """each normalisation, with masks of cohort trials and floor of the deviation"""
    from hyperion.score_norm import TNorm, ZNorm, TZNorm, ZTNorm, SNorm, AdaptSNorm
    n, m, e, t = [ctx.size(1, 7, 300) for _ in range(4)]        # enrolled, test, cohort as test, cohort as models
    kind = ctx.pick(['t', 'z', 'tz', 'zt', 's', 'adapt'])
    if kind == 'adapt':
        t = e = ctx.int(1, 9)
    sc, off = ctx.pick([1., 1., 1e-3, 100.]), ctx.pick([0., 0., 5.])
    draw = lambda *a: (ctx.rng.randn(*a) + off) * sc
    s, ct, ec, cc = draw(n, m), draw(t, m), draw(n, e), draw(t, e)
    if ctx.flip(.15):       # constant cohorts
        ct[:, ctx.int(0, m - 1)] = ct[0, 0]
        ec[ctx.int(0, n - 1)] = ec[0, 0]
        if kind == 'adapt':
            ct, ec = draw(t, m), draw(n, e)
    fl = ctx.pick([None, 1e-5, .3 * sc, 2. * sc])
    kw = {} if fl is None else dict(std_floor=fl)
    fl = 1e-5 if fl is None else fl
    mt, me, mc = mask(ctx, ct.shape), mask(ctx, ec.shape), mask(ctx, cc.shape)
    full = lambda q, c: np.ones(c.shape, dtype=bool) if q is None else q
    Mt, Me, Mc = full(mt, ct), full(me, ec), full(mc, cc)
    nm = ctx.pick([None, 'norm'])
    keep = [None if q is None else q.copy() for q in (mt, me, mc)]
    if kind == 't':
        o = TNorm(name=nm, **kw)
        got = ctx.pure(lambda a, b: o.predict(a, b, mt), s, ct)
        want = tnorm(s, ct, Mt, fl)
    elif kind == 'z':
        o = ZNorm(name=nm, **kw)
        got = ctx.pure(lambda a, b: o.predict(a, b, me), s, ec)
        want = znorm(s, ec, Me, fl)
    elif kind == 'tz':
        o = TZNorm(name=nm, **kw)
        got = ctx.pure(lambda a, b, c, d: o.predict(a, b, c, d, mt, me, mc), s, ct, ec, cc)
        want = znorm(tnorm(s, ct, Mt, fl), tnorm(ec, cc, Mc, fl), Me, fl)
    elif kind == 'zt':
        o = ZTNorm(name=nm, **kw)
        got = ctx.pure(lambda a, b, c, d: o.predict(a, b, c, d, mt, me, mc), s, ct, ec, cc)
        want = tnorm(znorm(s, ec, Me, fl), znorm(ct, cc, Mc, fl), Mt, fl)
    elif kind == 's':
        o = SNorm(name=nm, **kw)
        got = ctx.pure(lambda a, b, c: o.predict(a, b, c, mt, me), s, ct, ec)
        want = (znorm(s, ec, Me, fl) + tnorm(s, ct, Mt, fl)) / np.sqrt(2)
    else:
        skip = ctx.int(0, min(2, t - 1))
        nb = ctx.int(1, t + 3)
        o = AdaptSNorm(nbest=nb, nbest_discard=skip, name=nm, **kw)
        want = adaptive(s, ct, ec, min(nb, t - skip), skip, fl, Mt, Me)
        got = ctx.pure(lambda a, b, c: o.predict(a, b, c, mt, me), s, ct, ec) if ctx.flip(.8) or mt is not None or me is not None else ctx.pure(o.predict, s, ct, ec)
        if ctx.flip(.3):
            ctx.close(AdaptSNorm(name=nm, **kw).predict(s, ct, ec), (znorm(s, ec, ec > -np.inf, fl) + tnorm(s, ct, ct > -np.inf, fl)) / np.sqrt(2) if t <= 100 else want,
                      'adaptive normalisation with the whole cohort', rtol=1e-6, atol=1e-6)
    ctx.same((o.name, o.std_floor), (nm, fl), 'configuration')
    ctx.check(all(a is None or np.array_equal(a, b) for a, b in zip(keep, (mt, me, mc))), 'masks are modified')
    # deviations next to the floor or of nearly constant cohorts amplify rounding
    amp = 1 + np.max(np.abs(want))
    ctx.close(got, want, kind + '-norm', rtol=1e-6, atol=1e-8 * amp ** 2 if amp < 1e4 else 1e-3 * amp, info=(n, m, e, t, mt is None, me is None, mc is None))
    ctx.event('scores', n * m)
    ctx.sig(kind, n, m, e, t, mt is None, me is None, mc is None, fl)
    ctx.sample(kind=kind, enroll=n, test=m, cohort=(e, t))


@case(quick=100, mult=20)
def invariance(ctx):
    """normalised scores do not depend on order, nor on affine changes of all scores of a test (T) or model (Z)"""
    from hyperion.score_norm import TNorm, ZNorm, SNorm, AdaptSNorm
    n, m, c = ctx.int(1, 5), ctx.int(1, 5), ctx.int(3, 8)
    s, ct, ec = ctx.rng.randn(n, m), ctx.rng.randn(c, m), ctx.rng.randn(n, c)
    a, b = ctx.rng.rand(m) + .5, ctx.rng.randn(m)
    ctx.close(TNorm().predict(s * a + b, ct * a + b), TNorm().predict(s, ct), 'T-norm of scaled tests', rtol=1e-6, atol=1e-6)
    a, b = ctx.rng.rand(n, 1) + .5, ctx.rng.randn(n, 1)
    ctx.close(ZNorm().predict(s * a + b, ec * a + b), ZNorm().predict(s, ec), 'Z-norm of scaled models', rtol=1e-6, atol=1e-6)
    p, q, r = ctx.rng.permutation(n), ctx.rng.permutation(m), ctx.rng.permutation(c)
    for o in (SNorm(), AdaptSNorm(nbest=ctx.int(2, c), nbest_discard=ctx.int(0, 1))):
        ctx.close(o.predict(s[p][:, q], ct[r][:, q], ec[p][:, r]), o.predict(s, ct, ec)[p][:, q], 'order of trials and cohort', rtol=1e-6, atol=1e-6)
    ctx.event('permutations')
    ctx.sig('inv', n, m, c)
