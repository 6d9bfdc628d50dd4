"""C28 PLDA training: exact EM, likelihood never decreases, what is not updated stays"""
import numpy as np

from ..core import case
from ..pldaref import KINDS, draw, make, params_of, covs, spd, llk, Ref


def names(kind):
    return dict(frplda=('mu', 'B', 'W'), splda=('mu', 'V', 'W'), plda=('mu', 'V', 'U', 'D'))[kind]


def data(ctx, d, classes=None):
    K = ctx.int(d + 4, 14) if classes is None else classes
    per = [ctx.int(2, 6) for _ in range(K)]
    ids = np.repeat(np.arange(K), per)
    ids = ids[ctx.rng.permutation(len(ids))]
    A, B = spd(ctx.rng, d), spd(ctx.rng, d, .5)
    c = ctx.rng.randn(d) * 2
    x = c + (ctx.rng.randn(K, d).dot(np.linalg.cholesky(A).T))[ids] + ctx.rng.randn(len(ids), d).dot(np.linalg.cholesky(B).T)
    return x, ids, K


def assigned(ctx, ids, K):
    """hard or soft classes and sample weights: arguments of fit, and weights (samples, classes)"""
    n = len(ids)
    sw = (ctx.rng.rand(n) + .2) * ctx.pick([1., 1., .01, 10.]) if ctx.flip(.4) else None
    if ctx.flip(.6):
        kw, w = dict(class_ids=ids), np.eye(K)[ids]
    else:
        w = np.eye(K)[ids] + ctx.rng.rand(n, K) * ctx.pick([.05, .3])
        w /= w.sum(1, keepdims=True)
        kw = dict(ptheta=w)
    kw['sample_weight'] = sw
    return kw, w * (1 if sw is None else sw[:, None])


def bad(r):
    Sb, Sw = r.covs()
    return np.linalg.cond(Sw) > 1e5 or (r.kind == 'frplda' and np.linalg.cond(Sb) > 1e5) or np.max(np.abs(r.mu)) > 1e3


@case(quick=200, mult=12)
def steps(ctx):
    """training from given parameters follows exact EM"""
    kind = ctx.pick(KINDS)
    p = draw(ctx, kind)
    d = len(p['mu'])
    x, ids, K = data(ctx, d)
    up = {k: ctx.flip(.75) for k in names(kind)}
    full = ctx.flip(.7)
    floor = ctx.pick([1e-5, 1e-5, .3])
    kw = dict(('update_' + k, v) for k, v in up.items())
    if kind == 'plda':
        kw['floor_iD'] = floor
    else:
        kw['fullcov_W'] = full
    m = make(kind, p, **kw)
    given = [(k, getattr(m, k), p[k]) for k in names(kind)]
    ref = Ref(kind, p, up, full, floor)
    rounds = ctx.int(1, 2)
    for _ in range(rounds):
        a, w = assigned(ctx, ids, K)
        ml_md = ctx.pick(['ml+md', 'ml', 'md', 'ml+md'])
        epochs = ctx.int(1, 4)
        mde = ctx.pick([None, None, [0], [1, 3]])
        val = ctx.flip(.4)
        kv = {}
        if val:
            xv, iv, Kv = data(ctx, d, ctx.int(1, 5))
            b, wv = assigned(ctx, iv, Kv)
            kv = dict(x_val=xv, **{k + '_val': v for k, v in b.items()})
        L, Lv = [], []
        for e in range(epochs):
            L.append(ref.llk(x, w))
            if val:
                Lv.append(ref.llk(xv, wv))
            ref.step(x, w, 'ml' in ml_md, 'md' in ml_md and (mde is None or e in mde))
            if bad(ref):
                return ctx.check(True, 'ill conditioned')
            if not (kind == 'plda' and floor > 1e-3) and (full or kind == 'plda'):
                q = ref.llk(x, w)
                if q < L[-1] - 1e-7 * abs(L[-1]) - 1e-7:
                    raise AssertionError('the reference decreases the likelihood: %r' % [q, L, kind, up, ml_md])
        if ctx.flip(.6):
            keep = {k: None if v is None else np.array(v) for k, v in dict(a, **kv).items()}
            r = ctx.pure(lambda q: m.fit(q, epochs=epochs, ml_md=ml_md, md_epochs=mde, **dict(a, **kv)), x)
            ctx.check(all(v is None or np.array_equal(v, dict(a, **kv)[k]) for k, v in keep.items()), 'fit changes its arguments')
            ctx.same(len(r), 4 if val else 2, 'values of the likelihood')
            t = dict(rtol=1e-5, atol=1e-5)
            ctx.close(r[0], np.array(L), 'likelihood of the epochs', info=(kind, up, ml_md, mde), **t)
            ctx.close(r[1], np.array(L) / w.sum(), 'likelihood per sample', **t)
            if val:
                ctx.close(r[2], np.array(Lv), 'likelihood of validation data', **t)
                ctx.close(r[3], np.array(Lv) / wv.sum(), 'likelihood per validation sample', **t)
        else:
            D = m.compute_stats_soft(x, w)
            keep = [q.copy() for q in D]
            for e in range(epochs):
                s = m.Estep(D)
                ctx.close(float(m.elbo(s)), float(L[e]), 'likelihood', rtol=1e-5, atol=1e-5)
                if 'ml' in ml_md:
                    m.MstepML(s)
                if 'md' in ml_md and (mde is None or e in mde):
                    m.MstepMD(s)
            ctx.check(all(np.array_equal(u, v) for u, v in zip(keep, D)), 'training changes the statistics')
        g = params_of(kind, m)
        Sb, Sw = covs(kind, g)
        Rb, Rw = ref.covs()
        t = dict(rtol=1e-4, atol=1e-5, info=(kind, up, ml_md, mde, epochs))
        ctx.close(g['mu'], ref.mean(), 'mean', **t)
        ctx.close(Sb, Rb, 'between-class covariance', **t)
        ctx.close(Sw, Rw, 'within-class covariance', **t)
        if kind == 'plda':
            ctx.close(1 / g['D'], np.diag(ref.E), 'noise', **t)
        elif not full and up['W']:
            ctx.check(np.all(g['W'] == np.diag(np.diag(g['W']))) or 'ml' not in ml_md, 'W is not diagonal')
        ctx.event('epochs', epochs)
        ctx.sig(kind, d, K, tuple(up.values()), full, ml_md, mde is None, val, 'ptheta' in a)
    for k, v in p.items():
        if not up[k]:
            ctx.check(np.array_equal(getattr(m, k), v), 'parameter that is not updated: ' + k)
    ctx.check(all(np.array_equal(b, c) for _, b, c in given), 'parameters given by the user are modified')
    ctx.sample(kind=kind, dim=d, classes=K, samples=len(x), up=str(up), ml_md=ml_md)


@case(quick=120, mult=12)
def from_data(ctx):
    """training from nothing: the likelihood is that of the model and never decreases; adaptation by averages"""
    from hyperion.pdfs import FRPLDA, SPLDA, PLDA
    from hyperion.helpers import PLDAFactory
    kind = ctx.pick(KINDS)
    d = ctx.int(1, 4)
    x, ids, K = data(ctx, d)
    full = ctx.flip(.7)
    ny, nz = ctx.int(1, d), ctx.int(1, d)
    kw = dict(plda_type=kind, name='m')
    if kind != 'frplda':
        kw['y_dim'] = ny
    if kind == 'plda':
        kw['z_dim'] = nz
    else:
        kw['fullcov_W'] = full
    m = PLDAFactory.create_plda(**kw)
    ctx.check(type(m) is dict(frplda=FRPLDA, splda=SPLDA, plda=PLDA)[kind] and not m.is_init, 'model of the factory')
    a, w = assigned(ctx, ids, K)
    if kind == 'plda':      # enough samples for the initial channel factors
        assert len(x) > d
    ml_md = ctx.pick(['ml+md', 'ml', 'md'])
    D = m.compute_stats_soft(x, w)
    if np.min(np.linalg.eigvalsh(np.cov((D[1] / D[0][:, None]).T, bias=True).reshape(d, d))) < 1e-3:
        return ctx.check(True, 'ill conditioned')
    epochs = ctx.int(2, 8)
    r = ctx.pure(lambda q: m.fit(q, epochs=epochs, ml_md=ml_md, **a), x)
    L = np.append(r[0], llk(x, w, m.mu, *covs(kind, params_of(kind, m))))
    Sw = covs(kind, params_of(kind, m))[1]
    if np.linalg.cond(Sw) > 1e6 or (kind == 'plda' and np.max(m.D) > 5e4):
        return ctx.check(True, 'ill conditioned')
    ctx.check(np.all(np.isfinite(L)), 'likelihoods are finite', L)
    ctx.check(np.all(np.diff(L) > -1e-6 * (1 + np.abs(L[0]))), 'the likelihood decreases', kind, ml_md, L)
    ctx.check(m.is_init and m.mu.shape == (d,), 'the model is initialised')
    if kind != 'frplda':
        ctx.same(m.V.shape, (ny, d), 'number of class factors')
    if kind == 'plda':
        ctx.same(m.U.shape, (nz, d), 'number of channel factors')
    ctx.close(float(m.elbo(m.Estep(D))), float(L[-1]), 'likelihood after training', rtol=1e-6, atol=1e-6)
    e = ctx.path('m.h5')
    m.save(e)
    h = PLDAFactory.load_plda(kind, e)
    ctx.close(float(h.elbo(h.Estep(D))), float(L[-1]), 'likelihood after loading', rtol=1e-3, atol=1e-2)
    ctx.event('epochs', epochs)
    ctx.sig(kind, d, ny, nz, K, full, ml_md, 'ptheta' in a)
