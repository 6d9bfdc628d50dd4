"""C42 layers of hyperion/keras: pooling, posteriors, sampling, divergences, features and constraints"""
import os
import sys
import numpy as np
from scipy.fftpack import dct, idct
from scipy.special import expit, logsumexp

from ..core import case

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'standin'))

L2PI = np.log(2 * np.pi)


def mods():
    import keras
    from hyperion.keras import layers as L
    return keras, L


def frames(ctx, lo=1, hi=9, d=None):
    b, t, d = ctx.int(1, 4), ctx.int(lo, hi), d or ctx.int(1, 5)
    return ctx.rng.standard_normal((b, t, d)) * ctx.pick([.1, 1, 5]) + ctx.pick([0, -4, 3])


def weights(ctx, b, t, kind=None):
    """frame weights, at least one of them positive in each sequence"""
    kind = kind or ctx.pick(['ones', 'mask', 'mask', 'real'])
    w = np.ones((b, t)) if kind == 'ones' else ctx.rng.uniform(.1, 2, (b, t)) if kind == 'real' else np.ones((b, t))
    if kind == 'mask' or kind == 'real' and ctx.flip():
        w = w * (ctx.rng.uniform(size=(b, t)) < ctx.pick([.3, .7]))
        for i in range(b):
            if not w[i].any():
                w[i, ctx.int(0, t - 1)] = 1.
    return kind, w


def run(ctx, layer, xs, label):
    """the layer on arrays; the shapes that it announces are checked on the way"""
    keras, L = mods()
    T = keras.backend.T
    one = not isinstance(xs, list)
    y = layer(T(xs) if one else [T(x) for x in xs])
    announced = layer.compute_output_shape(np.shape(xs) if one else [np.shape(x) for x in xs])
    got = [np.shape(a) for a in y] if isinstance(y, list) else np.shape(y)
    ctx.check(got == ([tuple(a) for a in announced] if isinstance(announced, list) else tuple(announced)),
              '%s: announced shape of the output' % label, announced, got)
    return [np.asarray(a) for a in y] if isinstance(y, list) else np.asarray(y)


# --- pooling over frames -----------------------------------------------------------------------------------------------------------

POOL = ['max', 'avg', 'sum', 'std', 'logvar', 'lde']


def pool_ref(kind, x, w, layer):
    r = []
    for xi, wi in zip(x, w):
        k = wi > 0
        xi, wi = xi[k], wi[k][:, None]
        m = (xi * wi).sum(0) / wi.sum()
        v = ((xi - m) ** 2 * wi).sum(0) / wi.sum()
        if kind == 'max':
            r.append(xi.max(0))
        elif kind == 'avg':
            r.append(m)
        elif kind == 'sum':
            r.append((xi * wi).sum(0))
        elif kind == 'std':
            r.append(np.concatenate([m, np.sqrt(v)]))
        elif kind == 'logvar':
            r.append(np.concatenate([m, v]))
        else:
            mu, s = np.asarray(layer.mu), np.asarray(layer.s)
            d = np.stack([np.abs(xi - c).sum(1) if layer.order == 1 else ((xi - c) ** 2).sum(1) for c in mu], axis=1)
            p = -s * d
            p = np.exp(p - logsumexp(p, axis=1, keepdims=True)) * wi
            r.append(np.concatenate([((xi - c) * p[:, j:j + 1]).sum(0) / p[:, j].sum() for j, c in enumerate(mu)]))
    return np.stack(r)


def pool_layer(ctx, L, kind):
    if kind == 'lde':
        return L.LDE1D(num_comp=ctx.int(1, 4), order=ctx.pick([1, 2, 2]))
    return dict(max=L.GlobalMaskedMaxPooling1D, avg=L.GlobalWeightedAveragePooling1D, sum=L.GlobalWeightedSumPooling1D,
                std=L.GlobalWeightedMeanStdPooling1D, logvar=L.GlobalWeightedMeanLogVarPooling1D)[kind]()


@case(quick=30, mult=3)
def pooling(ctx):
    """weighted statistics of the frames; those of weight zero do not exist"""
    keras, L = mods()
    kind = ctx.pick(POOL)
    x = frames(ctx)
    if kind == 'lde':
        x = x * .3
    b, t, d = x.shape
    wk, w = weights(ctx, b, t, ctx.pick(['ones', 'mask', 'mask']) if kind == 'max' else None)
    layer = pool_layer(ctx, L, kind)
    w3 = ctx.flip()
    ww = w[:, :, None] if w3 else w
    ctx.sample(kind=kind, weights=wk, shape=list(x.shape), weights_3d=w3)
    if kind == 'lde':
        layer([keras.backend.T(x), keras.backend.T(ww)])
        layer.set_weights([ctx.rng.standard_normal((layer.num_comp, d)) * .5, ctx.rng.uniform(.1, 1.5, layer.num_comp)])

    def value(x, ww):
        y = run(ctx, layer, [x, ww], kind)
        if kind == 'logvar':
            ctx.check(np.all(np.isfinite(y[1])), 'log-variances are finite', y[1])
            return np.concatenate([y[0], np.maximum(np.exp(y[1]) - 1e-10, 0)], axis=1)
        return np.concatenate(y, axis=1) if isinstance(y, list) else y
    y = value(x, ww)
    sc = max(1., np.abs(x).max() ** 2)
    ref = pool_ref(kind, x, w, layer)
    at = dict(std=2e-6, logvar=1e-8).get(kind, 1e-9) * sc
    ctx.close(y, ref, 'pooling %s of the frames with weight' % kind, rtol=1e-7, atol=at)
    # frames of weight zero added anywhere, in any order of the frames
    n = ctx.int(1, 4)
    x2 = np.concatenate([x, ctx.rng.standard_normal((b, n, d)) * 10], axis=1)
    w2 = np.concatenate([w, np.zeros((b, n))], axis=1)
    o = ctx.rng.permutation(t + n)
    y2 = value(x2[:, o], w2[:, o][:, :, None] if w3 else w2[:, o])
    ctx.close(y2, y, 'pooling %s does not see frames of weight zero' % kind, rtol=1e-7, atol=at)
    ctx.event('pooling', b)
    ctx.sig('pool', kind, wk, w3, t == 1)


@case(quick=8)
def masks(ctx):
    """mask of the frames that are not padding, and what is pooled with it; both backends' maximum"""
    keras, L = mods()
    K = keras.backend
    x = frames(ctx)
    b, t, d = x.shape
    value = ctx.pick([0., 0., -1.])
    lens = ctx.rng.randint(1, t + 1, b)
    for i, n in enumerate(lens):
        x[i, n:] = value
    if ctx.flip():
        x[:, 0, 0] = value
        if d == 1:
            x[:, 0, 0] = value + 1
    keep = ctx.flip()
    m = run(ctx, L.CreateMask(value, keepdims=keep), x, 'mask')
    ref = (np.arange(t)[None, :] < lens[:, None]).astype(float)
    ctx.close(m, ref[:, :, None] if keep else ref, 'mask is one for the frames that differ from the mask value', atol=0)
    from hyperion.keras.losses import get_seq_length
    if value == 0:
        ctx.close(np.asarray(get_seq_length(K.T(x))), lens, 'length of the sequences without padding', atol=0)
    y = run(ctx, L.GlobalSumPooling1D(), x, 'sum')
    ctx.close(y, x.sum(1), 'sum of the frames', rtol=1e-12, atol=1e-12)
    y = run(ctx, L.GlobalSumWeights(), ref[:, :, None], 'sum of weights')
    ctx.close(y, lens[:, None], 'sum of the weights', atol=1e-12)
    neg = -np.abs(x) - 1
    old = sys.modules.get('hyperion.keras.backend_addons')
    for name in 'theano', 'tensorflow':
        import importlib
        be = importlib.import_module('hyperion.keras.backend_addons.%s_backend' % name)
        z = neg if ctx.flip() else x
        y = be.max_with_mask(K.T(z), K.T(ref[:, :, None]), axis=1)
        ctx.close(np.asarray(y), np.stack([zi[:n].max(0) for zi, n in zip(z, lens)]), 'maximum of the frames with mask one (%s)' % name, atol=1e-9)
    ctx.event('masks', b)
    ctx.sig('mask', value, keep, t == 1)


# --- posteriors with standard normal prior --------------------------------------------------------------------------------------------

IN2 = ['logitvar', 'logprec-1', 'logvar', 'logprec', 'var', 'prec', 'prec-1']
OUT2 = ['logvar', 'var', 'logprec', 'prec']


def encode(p1, prec, fmt, mv):
    """(natural parameter, precision) in the format"""
    a, b = fmt.split('+', 1)
    u = p1 / prec if a == 'mean' else p1
    var = 1 / prec
    e = {'logitvar': lambda: np.log((var - mv) / (1 - var)), 'logprec-1': lambda: np.log((prec - 1) / (1 - mv * prec)),
         'logvar': lambda: np.log(var), 'logprec': lambda: np.log(prec), 'var': lambda: var, 'prec': lambda: prec, 'prec-1': lambda: prec - 1}
    return u, e[b]()


def decode(r, fmt):
    a, b = fmt.split('+', 1)
    prec = {'logvar': lambda v: np.exp(-v), 'var': lambda v: 1 / v, 'logprec': np.exp, 'prec': lambda v: v}[b](r[1])
    return (r[0] * prec if a == 'mean' else r[0]), prec


@case(quick=24, mult=3)
def posteriors(ctx):
    """product of the posteriors of the frames, each divided by the prior; formats"""
    keras, L = mods()
    x = frames(ctx)
    b, t, d = x.shape
    mv = ctx.pick([.001, .1, .3])
    # variances inside of the range of the formats, where nothing is clipped
    prec = 1 / ctx.rng.uniform(mv + (1 - mv) * .05, 1 - (1 - mv) * .05, (b, t, d))
    fi = ctx.pick(['nat', 'mean']) + '+' + ctx.pick(IN2)
    fo = ctx.pick(['nat', 'mean']) + '+' + ctx.pick(OUT2)
    u = encode(x, prec, fi, mv)
    ctx.sample(in_fmt=fi, out_fmt=fo, min_var=mv, shape=list(x.shape))
    r = run(ctx, L.ConvertNormalDiagCovPostStdPriorFmt(fi, fo, min_var=mv), list(u), 'conversion')
    eta, p = decode(r, fo)
    ctx.close(eta, x, 'conversion of posteriors keeps their mean', rtol=1e-6, atol=1e-9, info=(fi, fo))
    ctx.close(p, prec, 'conversion of posteriors keeps their precision', rtol=1e-6, info=(fi, fo))
    wk, w = weights(ctx, b, t)
    pen = ctx.pick([1, 1, .25])
    w3 = ctx.flip()
    layer = ctx.pick([L.GlobalNormalDiagCovPostStdPriorPooling1D, L.GlobalDiagNormalPostStdPriorPooling1D])(
        in_fmt=fi, out_fmt=fo, min_var=mv, frame_corr_penalty=pen)
    eta, p = decode(run(ctx, layer, list(u) + [w[:, :, None] if w3 else w], 'posterior pooling'), fo)
    ctx.close(eta, pen * (x * w[:, :, None]).sum(1), 'pooled posterior: natural parameter', rtol=1e-6, atol=1e-8, info=(fi, fo))
    ctx.close(p, 1 + pen * ((prec - 1) * w[:, :, None]).sum(1), 'pooled posterior: precision', rtol=1e-6, info=(fi, fo))
    # without frames the posterior is the prior
    eta, p = decode(run(ctx, layer, list(u) + [np.zeros_like(w[:, :, None] if w3 else w)], 'posterior pooling'), fo)
    ctx.close(eta, 0 * eta, 'posterior without frames is the prior: mean', atol=1e-12)
    ctx.close(p, 1 + 0 * p, 'posterior without frames is the prior: precision', rtol=1e-12)
    # any value of the second parameter gives a posterior narrower than the prior
    big = ctx.rng.standard_normal((b, t, d)) * 20
    if fi.split('+', 1)[1] in ('var', 'prec'):
        big = np.abs(big) + 1e-3
    layer = L.GlobalNormalDiagCovPostStdPriorPooling1D(in_fmt=fi, out_fmt=fo, min_var=mv)
    _, p = decode(run(ctx, layer, [u[0], big, np.ones((b, t))], 'posterior pooling'), fo)
    ctx.check(np.all(np.isfinite(p)) and np.all(p > 1 - 1e-9) and np.all(p < 1 + t * (1 / mv - 1) * (1 + 1e-6) + 1e-6),
              'precision of the pooled posterior between those of the prior and of the smallest variance', p.min(), p.max(), fi)
    ctx.event('posteriors', b)
    ctx.sig('post', fi, fo)


@case(quick=8)
def renormalised(ctx):
    """layers of renormalised products with their own constant covariances"""
    keras, L = mods()
    K = keras.backend
    x = frames(ctx)
    b, t, d = x.shape
    wk, w = weights(ctx, b, t)
    w3 = w[:, :, None]
    s = (x * w3).sum(1)
    n = w3.sum(1)
    kind = ctx.pick(['mult', 'multstd', 'p1', 'p2', 'c1', 'c2', 'c3', 'c4', 'full', 'multfull'])
    v = ctx.rng.uniform(.05, .9, d)
    ctx.sample(kind=kind, shape=list(x.shape))
    tri = np.triu(ctx.rng.standard_normal((d, d)) * .5, 1) + np.eye(d)

    def go(layer, ws, xs):
        layer([K.T(a) for a in xs] if isinstance(xs, list) else K.T(xs))
        layer.set_weights(ws)
        return run(ctx, layer, xs, kind)
    if kind == 'mult':
        m, lv = go(L.MultConstDiagCov(d), [np.log(v)], x)
        ctx.close(m, x * v, 'product with a constant covariance', rtol=1e-9)
        ctx.close(lv, np.broadcast_to(np.log(v), x.shape), 'constant log-variance for each frame', rtol=1e-9)
    elif kind == 'multstd':
        a = ctx.rng.standard_normal(d)
        m, lv = go(L.MultConstDiagCovStdPrior(d), [a], x)
        var = 1 / (1 + np.exp(a))
        ctx.close(m, x * var, 'product with a constant covariance below the prior', rtol=1e-9)
        ctx.close(np.exp(lv), np.broadcast_to(var, x.shape), 'constant variance for each frame', rtol=1e-9)
    elif kind == 'c1':
        m, lv = go(L.GlobalProdRenormDiagNormalConstCovStdPrior(d), [np.log(v)], [x, w3])
        p = 1 + n * (1 / v - 1)
    elif kind == 'c2':
        a = ctx.rng.standard_normal(d)
        m, lv = go(L.GlobalProdRenormDiagNormalConstCovStdPrior2(d), [a], [x, w3])
        p = 1 + n * np.maximum(a, 0)
    elif kind == 'c3':
        a, c = ctx.rng.standard_normal((2, d))
        m, lv = go(L.GlobalProdRenormDiagNormalConstCovStdPrior3(d), [a, c], [x, w3])
        p = 1 + np.maximum(n * a + c, 0)
    elif kind == 'c4':
        a, c = ctx.rng.standard_normal((2, d))
        m, lv = go(L.GlobalProdRenormDiagNormalConstCovStdPrior4(d), [a, c], [x, w3])
        p = np.exp(c) + n * np.exp(a)
    elif kind == 'full':
        m, lv, ch = go(L.GlobalProdRenormNormalConstCovStdPrior(d), [np.log(v), tri], [x, w3])
        pi = np.linalg.inv(tri.T @ np.diag(v) @ tri)
        for i in range(b):
            cov = np.linalg.inv(np.eye(d) + n[i, 0] * pi)
            ctx.close(m[i], s[i] @ cov, 'product of full-covariance posteriors: mean', rtol=1e-6, atol=1e-8)
            ctx.close(ch[i].T @ np.diag(np.exp(lv[i])) @ ch[i], cov, 'product of full-covariance posteriors: covariance', rtol=1e-6, atol=1e-9)
            ctx.close(np.tril(ch[i]), np.eye(d), 'product of full-covariance posteriors: unit upper triangular factor', atol=1e-9)
    elif kind == 'multfull':
        a = ctx.rng.standard_normal(d)
        m, lv, ch = go(L.MultConstCovStdPrior(d), [a, tri], x)
        var = 1 / (1 + np.exp(a))
        cov = tri.T @ np.diag(var) @ tri
        ctx.close(m, x @ cov, 'product with a constant full covariance', rtol=1e-8, atol=1e-9)
        ctx.close(np.exp(lv), np.broadcast_to(var, x.shape), 'constant variance for each frame', rtol=1e-9)
        ctx.close(ch, np.broadcast_to(tri, (b, t, d, d)), 'constant factor for each frame', rtol=1e-12)
    if kind in ('p1', 'p2'):
        lv = ctx.rng.standard_normal(x.shape)
        mv = ctx.pick([.95, .3])
        layer = L.GlobalProdRenormDiagNormalStdPrior() if kind == 'p1' else L.GlobalProdRenormDiagNormalStdPrior2(mv)
        p = 1 + (w3 * (np.exp(-lv) if kind == 'p1' else (1 - mv) / (mv + np.exp(-lv)))).sum(1)
        m, lv = run(ctx, layer, [x, lv, w3], kind)
    if kind in ('p1', 'p2', 'c1', 'c2', 'c3', 'c4'):
        ctx.close(np.exp(-lv), p, 'product of posteriors: precision', rtol=1e-8)
        ctx.close(m, s / p, 'product of posteriors: mean', rtol=1e-8, atol=1e-10)
    ctx.event('renormalised')
    ctx.sig('renorm', kind, wk)


# --- sampling ----------------------------------------------------------------------------------------------------------------------------

@case(quick=12)
def samplers(ctx):
    """samples have the mean and the variance of the distribution; each row its own"""
    keras, L = mods()
    keras.backend.rng.seed(ctx.seedint())
    kind = ctx.pick(['normal', 'normal', 'tied', 'tied1', 'bernoulli', 'deprec', 'deprecseq', 'full', 'fullseq'])
    n = ctx.int(1, 3)
    b, d = 400, ctx.int(1, 3)
    fmt = ctx.pick(['mean', 'nat']) + '+' + ctx.pick(['stddev', 'var', 'logvar'])
    mean = np.repeat(ctx.rng.standard_normal((4, d)) * 5, b // 4, axis=0)
    std = np.repeat(ctx.rng.uniform(.2, 3, (4, d)), b // 4, axis=0)
    ctx.sample(kind=kind, fmt=fmt, num_samples=n)
    T = 1
    if kind == 'bernoulli':
        p = np.repeat(ctx.rng.uniform(.05, .95, (4, d)), b // 4, axis=0)
        y = run(ctx, L.BernoulliSampler(num_samples=n), p, kind).astype(float)
        ctx.check(set(np.unique(y)) <= {0., 1.}, 'bernoulli samples are zero or one')
        mean, std = p, np.sqrt(p * (1 - p))
        y = y[:, None]
    elif kind in ('full', 'fullseq'):
        c = np.repeat(np.triu(ctx.rng.standard_normal((4, d, d)), 1) + np.eye(d), b // 4, axis=0)
        T, one = 1, False
        if kind == 'fullseq':
            T, one, n = ctx.int(2, 4), ctx.flip(), 1
            layer = L.NormalSamplerFromSeqLevel(T, one_sample_per_seq=one)
        else:
            layer = L.NormalSampler(num_samples=n)
        y = run(ctx, layer, [mean, 2 * np.log(std), c], kind)
        y = y[:, None] if kind == 'full' else y
        if one:
            ctx.close(y, np.broadcast_to(y[:, :1], y.shape), 'one sample for the whole sequence', atol=0)
            y, T = y[:, :1], 1
        ctx.check(y.shape == (b * n, T, d), 'as many samples as asked', y.shape, (b * n, T, d))
        # samples as rows: what the covariance's factor makes of independent ones
        y = np.repeat(mean, n, axis=0)[:, None] + np.stack([np.linalg.solve(f.T, (yi - mi).T).T for f, yi, mi in zip(np.repeat(c, n, axis=0), y, np.repeat(mean, n, axis=0))])
    elif kind in ('deprec', 'deprecseq'):
        spec = ctx.pick(['logvar', 'var', 'std'])
        p2 = dict(logvar=2 * np.log(std), var=std ** 2, std=std)[spec]
        if kind == 'deprec':
            y = run(ctx, L.DiagNormalSampler(spec, n), [mean, p2], kind)[:, None]
        else:
            T, one, n = ctx.int(2, 4), ctx.flip(), 1
            y = run(ctx, L.DiagNormalSamplerFromSeqLevel(T, spec, n, one_sample_per_seq=one), [mean, p2], kind)
            if one:
                ctx.close(y, np.broadcast_to(y[:, :1], y.shape), 'one sample for the whole sequence', atol=0)
                y, T = y[:, :1], 1
    else:
        p1 = mean / std ** 2 if fmt.startswith('nat') else mean
        p2 = dict(stddev=std, var=std ** 2, logvar=2 * np.log(std))[fmt.split('+')[1]]
        if kind == 'normal':
            y = run(ctx, L.NormalDiagCovSampler(fmt, n), [p1, p2], kind)[:, None]
        else:
            T, one, n = ctx.int(2, 4), kind == 'tied1', 1
            y = run(ctx, L.TiedNormalDiagCovSampler(T, fmt, n, one_per_seq=one), [p1, p2], kind)
            if one:
                ctx.close(y, np.broadcast_to(y[:, :1], y.shape), 'one sample for the whole sequence', atol=0)
                y, T = y[:, :1], 1
    ctx.check(y.shape == (b * n, T, d), 'as many samples as asked', y.shape, (b * n, T, d))
    z = (y - np.repeat(mean, n, axis=0)[:, None]) / np.repeat(std, n, axis=0)[:, None]
    z = z.reshape(4, -1)
    N = z.shape[1]
    if kind == 'bernoulli':
        ctx.check(np.all(np.abs(z.mean(1)) < 6 / np.sqrt(N)), 'mean of the samples', z.mean(1))
    else:
        ctx.check(np.all(np.abs(z.mean(1)) < 6.5 / np.sqrt(N)), 'mean of the samples', z.mean(1), kind, fmt)
        ctx.check(np.all(np.abs(z.var(1) - 1) < 7 * np.sqrt(2. / N) + 60. / N), 'variance of the samples', z.var(1), kind, fmt)
        ctx.check(len(np.unique(z)) == z.size, 'samples are drawn independently', kind)
        if T > 1:
            zz = ((y - mean[:, None]) / std[:, None])
            c = (zz[:, 0] * zz[:, 1]).mean()
            ctx.check(abs(c) < 7 / np.sqrt(b * d), 'samples of the frames of one sequence are independent', c)
    ctx.event('samples', N * 4)
    ctx.sig('sampler', kind, fmt if kind in ('normal', 'tied', 'tied1') else '', n)


# --- divergences, likelihoods, scores -------------------------------------------------------------------------------------------------------

def params(m, v, fmt):
    a, b = fmt.split('+')
    return (m / v if a == 'nat' else m), dict(var=v, prec=1 / v, logvar=np.log(v), logprec=-np.log(v))[b]


def expected_log(m, v, m2, v2):
    """E[log N(m2, v2)] under N(m, v), summed over the last axis"""
    return -.5 * (L2PI + np.log(v2) + ((m - m2) ** 2 + v) / v2).sum(-1)


@case(quick=16, mult=2)
def divergences(ctx):
    keras, L = mods()
    K = keras.backend
    from hyperion.keras import losses as HL
    from hyperion.keras import objectives as O
    T = K.T
    x = frames(ctx)
    x = x if ctx.flip() else x[:, 0]
    sh = x.shape
    v, v2 = ctx.rng.uniform(.05, 3, sh), ctx.rng.uniform(.05, 3, sh)
    m2 = ctx.rng.standard_normal(sh)
    fmt = ctx.pick(['mean', 'nat']) + '+' + ctx.pick(['var', 'prec', 'logvar', 'logprec'])
    beta = ctx.pick([1, 1, .5, 4.])
    kl = expected_log(x, v, x, v) / beta - expected_log(x, v, 0, np.ones(sh))
    ctx.sample(fmt=fmt, beta=beta, shape=list(sh))
    tn = ctx.flip(.6)
    mn = ctx.pick([0, 0, 2.5])
    y = run(ctx, L.KLDivNormalVsStdNormal(fmt, min_kl=mn, beta=beta, time_norm=tn), list(params(x, v, fmt)), 'divergence from the prior')
    ref = np.maximum(kl, mn)
    if len(sh) == 3 and not tn:
        ref = ref * sh[1]
    ctx.close(y, ref[..., None], 'divergence of the posterior from the standard normal', rtol=1e-5, atol=1e-5)
    if len(sh) == 3 and not tn:
        n = ctx.rng.randint(1, sh[1] + 1, sh[0])
        k = np.arange(sh[1])[None, :] < n[:, None]
        y = run(ctx, L.KLDivNormalVsStdNormal(fmt, min_kl=mn, beta=beta, time_norm=False), [a * (k[..., None] if j == 0 else 1) for j, a in enumerate(params(x, v, fmt))], 'divergence from the prior')
        ctx.close(y[k], (np.maximum(kl, mn) * n[:, None])[k][:, None], 'divergence times the length of each sequence', rtol=1e-5, atol=1e-5)
    lv, lv2 = np.log(v), np.log(v2)
    ctx.close(np.asarray(O.kl_normal_vs_std_normal([T(x), T(lv)], beta)), kl, 'objective: divergence from the standard normal', rtol=1e-5, atol=1e-5)
    ref = expected_log(x, v, x, v) / beta - expected_log(x, v, m2, v2)
    ctx.close(np.asarray(O.kl_normal_vs_diag_normal([T(x), T(lv)], [T(m2), T(lv2)], beta)), ref, 'objective: divergence between normals', rtol=1e-5, atol=1e-5)
    ll = -.5 * (L2PI + lv2 + (x - m2) ** 2 / v2).sum(-1)
    ctx.close(np.asarray(O.diag_normal(T(x), [T(m2), T(lv2)])), -ll, 'objective: likelihood of a diagonal normal', rtol=1e-5, atol=1e-5)
    # likelihoods of the frames, times the length of the sequence when not normalised by time
    tn = ctx.flip() or len(sh) == 2
    pad = np.zeros(sh[0], dtype=int)
    xp = x.copy()
    if len(sh) == 3:
        pad = ctx.rng.randint(0, sh[1], sh[0])
        for i, n in enumerate(pad):
            xp[i, sh[1] - n:] = 0

    def nllk(f, t, y):
        if tn and ctx.flip():
            return np.asarray(f(T(t), T(y)))
        return np.asarray(f(T(t), T(y), time_norm=tn))
    ll = -.5 * (L2PI + lv2 + (xp - m2) ** 2 / v2).sum(-1)
    f = np.ones(sh[0]) if tn else sh[1] - pad
    if len(sh) == 3:
        f = f[:, None]
    ctx.close(nllk(HL.nllk_normal_diag_cov, xp, np.concatenate([m2, lv2], -1)), -f * ll, 'likelihood of a diagonal normal', rtol=1e-5, atol=1e-5)
    p = ctx.rng.uniform(.02, .98, sh)
    t = (ctx.rng.uniform(size=sh) < .5).astype(float)
    t[..., 0] = 1
    if len(sh) == 3:
        for i, n in enumerate(pad):
            t[i, sh[1] - n:] = 0
    lb = (t * np.log(p) + (1 - t) * np.log(1 - p)).sum(-1)
    ctx.close(nllk(HL.nllk_bernoulli, t, p), -f * lb, 'likelihood of a Bernoulli', rtol=1e-4, atol=1e-4)
    # which argument is the target matters in the objective
    ctx.close(np.asarray(O.bernoulli(T(t), T(p))), -lb, 'objective: likelihood of a Bernoulli', rtol=1e-4, atol=1e-4)
    q = p / p.sum(-1, keepdims=True)
    c = np.eye(sh[-1])[ctx.rng.randint(0, sh[-1], sh[:-1])]
    if len(sh) == 3:
        for i, n in enumerate(pad):
            c[i, sh[1] - n:] = 0
    ctx.close(nllk(HL.nllk_categorical, c, q), -f * (c * np.log(q)).sum(-1), 'likelihood of the class', rtol=1e-4, atol=1e-5)
    ctx.close(np.asarray(HL.categorical_mbr(T(c), T(q))), 1 - (c * q).sum(-1), 'expected error', rtol=1e-6, atol=1e-7)
    ctx.event('divergences')
    ctx.sig('div', fmt, beta, len(sh), tn, mn, pad.any(), len(set(pad)) > 1)


@case(quick=6)
def full_normals(ctx):
    """likelihoods with full covariances given by unit triangular factors"""
    keras, L = mods()
    from hyperion.keras import objectives as O
    T = keras.backend.T
    b, t, d = ctx.int(1, 4), ctx.int(1, 4), ctx.int(1, 4)
    kind = ctx.pick(['1chol', 'each', '3d', '1chol_3d'])
    sh = (b, t, d) if '3d' in kind else (b, d)
    x, m = ctx.rng.standard_normal((2,) + sh)
    lv = ctx.rng.standard_normal(sh) * .5
    csh = (d, d) if '1chol' in kind else sh + (d,)
    c = np.triu(ctx.rng.standard_normal(csh), 1) + np.eye(d)
    f = dict(zip(['1chol', 'each', '3d', '1chol_3d'], [O.normal_1chol, O.normal, O.normal_3d, O.normal_1chol_3d]))[kind]
    y = np.asarray(f(T(x), [T(m), T(lv), T(c)]))
    cc = np.broadcast_to(c, sh + (d,))
    cov = np.swapaxes(cc, -1, -2) @ (np.exp(lv)[..., None] * cc)
    e = x - m
    ref = .5 * (d * L2PI + np.linalg.slogdet(cov)[1] + np.einsum('...i,...ij,...j->...', e, np.linalg.inv(cov), e))
    ctx.close(y, ref, 'likelihood of a normal with full covariance (%s)' % kind, rtol=1e-5, atol=1e-5)
    ctx.event('full_normals')
    ctx.sig('full', kind, d)


@case(quick=6)
def scoring(ctx):
    """log-likelihood ratio of the posterior of a segment and those of the classes"""
    keras, L = mods()
    K = keras.backend
    c, b, d = ctx.int(1, 5), ctx.int(1, 4), ctx.int(1, 4)
    layer = L.CatQScoringDiagNormalHomoPostStdPrior(c)
    m, le = ctx.rng.standard_normal((c, d)) * 2, ctx.rng.uniform(1.05, 30, d)
    lt = ctx.rng.uniform(1.05, 30, (b, d))
    mt = ctx.rng.standard_normal((b, d)) * 2
    layer([K.T(lt * mt), K.T(lt)])
    layer.set_weights([m, le])
    y = run(ctx, layer, [lt * mt, lt], 'scoring')

    # integral of the product of both posteriors divided by the prior, one dimension after the other
    ref = np.zeros((b, c))
    for i in range(b):
        for j in range(c):
            for k in range(d):
                p = le[k] + lt[i, k] - 1
                h = le[k] * m[j, k] + lt[i, k] * mt[i, k]
                g = np.linspace(h / p - 12 / np.sqrt(p), h / p + 12 / np.sqrt(p), 2001)
                ln = .5 * np.log(le[k]) - .5 * le[k] * (g - m[j, k]) ** 2 + .5 * np.log(lt[i, k]) - .5 * lt[i, k] * (g - mt[i, k]) ** 2 + .5 * g ** 2 - .5 * L2PI
                ref[i, j] += logsumexp(ln) + np.log(g[1] - g[0])
    ctx.close(y, ref, 'scores are the integrals of the products of posteriors', rtol=1e-5, atol=1e-5)
    ctx.event('scoring', b * c)
    ctx.sig('score', c == 1, d)


# --- simple layers --------------------------------------------------------------------------------------------------------------------

@case(quick=10)
def simple(ctx):
    keras, L = mods()
    K = keras.backend
    from hyperion.keras.layers.advanced_activations import Swish, SwishBeta
    x = np.abs(frames(ctx)) + .1
    b, t, d = x.shape
    fs = dict(Invert=lambda x: 1 / x, Exp=np.exp, Log=np.log, Log1=np.log1p, NegLog=lambda x: -np.log(x), NegLog1=lambda x: -np.log1p(x),
              NegSoftplus=lambda x: -np.log(1 + np.exp(-x)), Add1=lambda x: x + 1, Add01=lambda x: x + .1)
    for n in ctx.rng.permutation(sorted(fs))[:4]:
        ctx.close(run(ctx, getattr(L, n)(), x, n), fs[n](x), 'layer %s' % n, rtol=1e-9)
    o = ctx.int(1, 5)
    z = np.clip(x, 0, 2)
    fact = np.cumprod(np.arange(1, o + 1))
    ctx.close(run(ctx, L.ExpTaylor(o), z, 'ExpTaylor'), 1 + sum(z ** (i + 1) / fact[i] for i in range(o)), 'Taylor series of the exponential', rtol=1e-9)
    be = ctx.pick([1, .5, 2.])
    for cls in Swish, SwishBeta:
        lay = cls(be)
        ctx.close(run(ctx, lay, x - 3, cls.__name__), (x - 3) * expit(be * (x - 3)), 'swish', rtol=1e-6)
        ctx.close(run(ctx, cls.from_config(lay.get_config()), x - 3, cls.__name__), (x - 3) * expit(be * (x - 3)), 'swish made from its configuration', rtol=1e-6)
    n, a = ctx.int(1, 3), ctx.pick([1, 2])
    ctx.close(run(ctx, L.Repeat(n, a), x, 'Repeat'), np.repeat(x, n, a), 'repeated elements', atol=0)
    a = ctx.pick([1, 2, 3, -1])
    y = np.expand_dims(x, a)
    r = [1] * 4
    r[a] = n
    ctx.close(run(ctx, L.ExpandAndTile(n, a), x, 'ExpandAndTile'), np.tile(y, r), 'expanded and tiled', atol=0)
    ctx.close(run(ctx, L.ExpandDim(a), x, 'ExpandDim'), y, 'expanded', atol=0)
    c = ctx.rng.standard_normal(d)
    lay = L.Bias(d, activation=ctx.pick([None, 'relu']))
    lay(K.T(x))
    lay.set_weights([c])
    ref = x + c
    ctx.close(run(ctx, lay, x, 'Bias'), np.maximum(ref, 0) if lay.get_config()['activation'] == 'relu' else ref, 'bias added', rtol=1e-9)
    u = ctx.int(1, 4)
    c = ctx.rng.standard_normal(u)
    for cls in L.Constant, L.TiledConstant:
        lay = cls(u)
        lay(K.T(x))
        lay.set_weights([c])
        y = run(ctx, lay, x, cls.__name__)
        ctx.close(y, c if cls is L.Constant else np.broadcast_to(c, (b, t, u)), 'constant', rtol=1e-12)
    m = np.triu(ctx.rng.standard_normal((u, u)))
    for cls in L.ConstTriu, L.TiledConstTriu:
        lay = cls(u)
        lay(K.T(x))
        lay.set_weights([m])
        y = run(ctx, lay, x, cls.__name__)
        ctx.close(y, m if cls is L.ConstTriu else np.broadcast_to(m, (b, t, u, u)), 'constant triangular matrix', rtol=1e-12)
    # features
    for norm in (True, False):
        u = ctx.int(1, d)
        inv = ctx.flip()
        nrm = 'ortho' if norm else None
        y = run(ctx, L.DCT(u, inv=inv, normalize=norm), x, 'DCT')
        ctx.close(y, (idct if inv else dct)(x, type=2, norm=nrm, axis=-1)[..., :u], 'cosine transform of the frames', rtol=1e-9, atol=1e-9)
    Q, inv = ctx.pick([22, 10]), ctx.flip()
    f = 1 + .5 * Q * np.sin(np.pi * np.arange(d) / Q)
    ctx.close(run(ctx, L.Liftering(Q, inv), x, 'Liftering'), x / f if inv else x * f, 'liftering', rtol=1e-9)
    # constraints
    from hyperion.keras import constraints as C
    d = ctx.int(1, 4)
    w = ctx.rng.standard_normal((d, d)) * 3
    dv = ctx.pick([None, 0, 1, 2.5])
    y = np.asarray(C.Triu(d, dv)(K.T(w)))
    ref = np.triu(w)
    if dv is not None:
        ref = np.triu(w, 1) + dv * np.eye(d)
    ctx.close(y, ref, 'triangular constraint', rtol=1e-6)
    lo = ctx.pick([-1, 0, -np.inf])
    y = np.asarray(C.Clip(lo, 1.5)(K.T(w)))
    ctx.close(y, np.clip(w, lo, 1.5), 'clipping constraint', rtol=1e-9)
    y = np.asarray(C.ConstraintList([C.Triu(d), C.Clip(lo, 1.5)])(K.T(w)))
    ctx.close(y, np.clip(np.triu(w), lo, 1.5), 'list of constraints', rtol=1e-9)
    ctx.event('simple')
    ctx.sig('simple', o, inv, str(dv))


# --- models with these layers are saved and loaded ---------------------------------------------------------------------------------------

def layers_of(ctx, L, d):
    """name -> (layer, inputs as numbers of frame tensors and weights, weights)"""
    R = lambda *s: ctx.rng.standard_normal(s) * .4
    P = lambda *s: ctx.rng.uniform(.2, 1.5, s)
    fi, fo = 'mean+' + ctx.pick(['logvar', 'logprec-1', 'logitvar']), ctx.pick(['nat', 'mean']) + '+' + ctx.pick(OUT2)
    n = ctx.int(1, 3)
    q = ctx.pick([10, 22])
    a = [('avg', L.GlobalWeightedAveragePooling1D(), 'xw', []), ('sum', L.GlobalWeightedSumPooling1D(), 'xw', []),
         ('max', L.GlobalMaskedMaxPooling1D(), 'xw', []), ('std', L.GlobalWeightedMeanStdPooling1D(), 'xw', []),
         ('logvar', L.GlobalWeightedMeanLogVarPooling1D(), 'xw', []), ('gsum', L.GlobalSumPooling1D(), 'x', []),
         ('sumw', L.GlobalSumWeights(), 'w', []),
         ('lde', L.LDE1D(num_comp=n, order=ctx.pick([1, 2])), 'xw', [(n, d), P(n)]),
         ('post', L.GlobalNormalDiagCovPostStdPriorPooling1D(fi, fo, min_var=ctx.pick([.01, .3]), frame_corr_penalty=ctx.pick([1, .3])), 'xxw', []),
         ('conv', L.ConvertNormalDiagCovPostStdPriorFmt(fi, fo, min_var=ctx.pick([.01, .3])), 'xx', []),
         ('c1', L.GlobalProdRenormDiagNormalConstCovStdPrior(d), 'xw', [R(d)]), ('c2', L.GlobalProdRenormDiagNormalConstCovStdPrior2(d), 'xw', [R(d)]),
         ('c3', L.GlobalProdRenormDiagNormalConstCovStdPrior3(d), 'xw', [R(d), R(d)]),
         ('c4', L.GlobalProdRenormDiagNormalConstCovStdPrior4(d), 'xw', [R(d), R(d)]),
         ('bias', L.Bias(d, activation=ctx.pick([None, 'relu', 'tanh'])), 'x', [R(d)]), ('tiled', L.TiledConstant(n), 'x', [R(n)]),
         ('triu', L.TiledConstTriu(n, ctx.pick([None, 1])), 'x', [R(n, n)]),
         ('taylor', L.ExpTaylor(ctx.int(1, 4)), 'x', []), ('exp', L.Exp(), 'x', []), ('add', L.Add1(), 'x', []),
         ('repeat', L.Repeat(n, 1), 'x', []), ('tile', L.ExpandAndTile(n, 2), 'x', []),
         ('mask', L.CreateMask(ctx.pick([0., 1.]), keepdims=ctx.flip()), 'w', []),
         ('mult', L.MultConstDiagCov(d), 'x', [R(d)]), ('multstd', L.MultConstDiagCovStdPrior(d), 'x', [R(d)]),
         ('multfull', L.MultConstCovStdPrior(d), 'x', [R(d), np.triu(R(d, d))]), ('full', L.GlobalProdRenormNormalConstCovStdPrior(d), 'xw', [R(d), np.triu(R(d, d), 1) + np.eye(d)]),
         ('score', L.CatQScoringDiagNormalHomoPostStdPrior(n), 'vv', [R(n, d), P(d) + 1]),
         ('dct', L.DCT(ctx.int(1, d), inv=ctx.flip(), normalize=ctx.flip()), 'x', None), ('lifter', L.Liftering(q, ctx.flip()), 'x', None)]
    return a


@case(quick=24, mult=2)
def saved(ctx):
    """a saved and loaded model computes the same"""
    keras, L = mods()
    from hyperion.keras.keras_utils import get_keras_custom_obj
    d = ctx.int(1, 4)
    ls = layers_of(ctx, L, d)
    name, layer, ins, ws = ls[ctx.int(0, len(ls) - 1)]
    ctx.sample(layer=layer.__class__.__name__)
    I = keras.layers.Input
    t = ctx.int(1, 5) if ctx.flip() or name in ('tiled', 'triu') else None
    inp = [I((d,)) if c == 'v' else I((t, 1)) if c == 'w' else I((t, d)) for c in ins]
    m = keras.models.Model(inp if len(inp) > 1 else inp[0], layer(inp if len(inp) > 1 else inp[0]))
    if ws:
        layer.set_weights([ctx.rng.standard_normal(w) * .4 if isinstance(w, tuple) else w for w in ws])
    b, t = ctx.int(1, 4), t or ctx.int(1, 5)
    xs = [ctx.rng.uniform(1.1, 3, (b, d)) if c == 'v' else ctx.rng.randint(0, 2, (b, t, 1)).astype(float) if c == 'w' else ctx.rng.uniform(.1, 1.5, (b, t, d)) for c in ins]
    if 'w' in ins:
        xs[ins.index('w')][:, 0] = 1
    y = m.predict(xs if len(xs) > 1 else xs[0], batch_size=b)
    p = ctx.path('m.h5')
    m.save(p)
    m2 = keras.models.load_model(p, custom_objects=get_keras_custom_obj())
    y2 = m2.predict(xs if len(xs) > 1 else xs[0], batch_size=b)
    for u, v in zip(y if isinstance(y, list) else [y], y2 if isinstance(y2, list) else [y2]):
        ctx.close(v, u, 'saved and loaded model with %s computes the same' % layer.__class__.__name__, rtol=1e-9, atol=1e-12)
    c1, c2 = layer.get_config(), m2.layers[-1].get_config()
    ctx.same(c2, c1, 'configuration of %s survives' % layer.__class__.__name__)
    for lay in [L.NormalDiagCovSampler('nat+var', 3), L.TiedNormalDiagCovSampler(4, 'mean+stddev', 1, one_per_seq=True), L.BernoulliSampler(2),
                L.DiagNormalSampler('std', 2), L.DiagNormalSamplerFromSeqLevel(3, 'var', 1, one_sample_per_seq=False),
                L.KLDivNormalVsStdNormal('nat+var', min_kl=.5, beta=2, time_norm=False)]:
        c = lay.get_config()
        l2 = lay.__class__.from_config(c)
        ctx.same(l2.get_config(), c, 'configuration of %s survives' % lay.__class__.__name__)
    # what is not given
    z, zv = ctx.rng.standard_normal((2, 3, d)), ctx.rng.uniform(-2, 0, (2, 3, d))
    w = np.ones((2, 3))
    for cls, o, ins in [(L.KLDivNormalVsStdNormal, dict(in_fmt='mean+prec', min_kl=0, beta=1, time_norm=True), [z, np.exp(-zv)]), (L.DCT, dict(units=d, inv=False, normalize=True), z),
                        (L.Liftering, dict(Q=22, inv=False), z), (L.LDE1D, dict(num_comp=3, order=2), None), (L.CreateMask, dict(mask_value=0, keepdims=True), np.abs(z)),
                        (L.GlobalNormalDiagCovPostStdPriorPooling1D, dict(in_fmt='nat+logitvar', out_fmt='nat+logvar', min_var=.01, frame_corr_penalty=1.), [z, zv, w])]:
        need = {k: o[k] for k in ('units', 'in_fmt', 'out_fmt', 'mask_value', 'min_var', 'num_comp') if k in o and not (cls is L.KLDivNormalVsStdNormal and k == 'in_fmt' and ctx.flip())}
        one, two = cls(**need), cls(**o)
        c1, c2 = one.get_config(), two.get_config()
        ctx.same({k: c1[k] for k in o if k in c1}, {k: c2[k] for k in o if k in c2}, 'options of %s that are not given' % cls.__name__)
        if ins is not None:
            u, v = (l([keras.backend.T(a) for a in ins] if isinstance(ins, list) else keras.backend.T(ins)) for l in (one, two))
            for u, v in zip(u, v) if isinstance(u, list) else [(u, v)]:
                ctx.close(np.asarray(u), np.asarray(v), 'options of %s that are not given' % cls.__name__, rtol=1e-9)
    k = L.KLDivNormalVsStdNormal('mean+var', time_norm=False)
    k2 = L.KLDivNormalVsStdNormal.from_config(k.get_config())
    z = [ctx.rng.standard_normal((2, 3, d)) + 1, ctx.rng.uniform(.1, 2, (2, 3, d))]
    ctx.close(np.asarray(k2([keras.backend.T(a) for a in z])), np.asarray(k([keras.backend.T(a) for a in z])), 'divergence layer made from its configuration computes the same', rtol=1e-9)
    ctx.event('saved')
    ctx.sig('saved', layer.__class__.__name__)
