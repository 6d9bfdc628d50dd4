"""C43 sequence embeddings of hyperion/keras: chunks with context, padding, architectures, saved models and tools"""
import argparse
import os
import sys
import numpy as np
from scipy.special import softmax

from ..core import case
from ..tool import tool
from .c42 import pool_ref, decode, IN2, OUT2, expected_log


def mods():
    import keras
    from hyperion.keras import archs as A
    from hyperion.keras import embed as E
    from hyperion.keras import vae as V
    return keras, A, E, V


def relu(x):
    return np.maximum(x, 0)


ACT = dict(relu=relu, tanh=np.tanh, linear=lambda x: x)


def randomise(ctx, net):
    """weights that are not those of the initialisation"""
    for l in net.layers:
        ws = l.get_weights()
        if not ws:
            continue
        if l.__class__.__name__ == 'BatchNormalization':
            g, b, m, v = ws
            l.set_weights([ctx.rng.uniform(.5, 1.5, g.shape), ctx.rng.standard_normal(b.shape) * .3, ctx.rng.standard_normal(m.shape) * .3,
                           ctx.rng.uniform(.5, 1.5, v.shape)])
        else:
            l.set_weights([ctx.rng.standard_normal(w.shape) * (1.2 / np.sqrt(np.prod(w.shape[:-1]))) if w.ndim > 1 else
                           ctx.rng.standard_normal(w.shape) * .5 for w in ws])


def encoder(ctx, outs, zero=False, context=True):
    """(net, input dimension, downsampling, frames of the input that an output may see on one side)"""
    keras, A, E, V = mods()
    d = ctx.int(1, 3)
    kind = ctx.pick(['tdnn', 'tdnn', 'res', 'down', 'down'])
    K = lambda: ctx.pick([1, 3, 3, 5]) if context else 1
    act = ctx.pick(['relu', 'tanh'])
    r = 1
    if kind == 'tdnn':
        n = ctx.int(1, 3)
        net, c = A.TDNNV1(n, ctx.int(1, 2), outs, ctx.int(2, 5), ctx.int(2, 5), d, [K() for _ in range(n)], ctx.pick([1, [ctx.int(1, 3) for _ in range(n)]]),
                          hidden_activation=act, use_batchnorm=ctx.flip(.7), return_context=True)
    elif kind == 'res':
        net, c = A.ResTDNNV1(1, ctx.int(0, 1), outs, ctx.int(2, 5), ctx.int(2, 5), d, [K(), K()], hidden_activation=act, use_batchnorm=ctx.flip(.7), return_context=True)
    else:
        r = ctx.pick([2, 3])
        k1, k3 = K(), K()
        L = keras.layers
        x = L.Input(shape=(None, d))
        h = L.Conv1D(4, k1, padding='same', activation=act)(x)
        if ctx.flip():
            h = L.MaxPooling1D(r, padding='same')(h)
            k2 = r
        else:
            k2 = ctx.pick([r, r + 2]) if context else r
            h = L.Conv1D(4, k2, strides=r, padding='same', activation=act)(h)
        y = [L.Conv1D(o, k3, padding='same', name='out-%d' % i)(h) for i, o in enumerate(outs if isinstance(outs, list) else [outs])]
        net = keras.models.Model(x, y if isinstance(outs, list) else y[0])
        c = (k1 - 1) // 2 + (k2 if k2 > r else 0) + r * ((k3 - 1) // 2)
        c = -(-c // r) * r
    randomise(ctx, net)
    ctx.event('encoder ' + kind)
    return net, d, r, c


def contexts(ctx, c, r, zero):
    """contexts with which the frames that are kept are computed from all that they depend on
    (zero: nothing but the frame itself, then the last ones may be kept too)"""
    more = lambda: r * ctx.pick([0, 0, 1])
    left, right = c + more(), c + more()
    begin = ctx.pick([None, 0, r, left])
    end = ctx.pick([None, 0, right + r]) if zero else ctx.pick([None, right, right + r])
    L = left + right + r * ctx.int(1, 6)
    return dict(left_context=left, right_context=right, begin_context=begin, end_context=end), L


def sequence(ctx, cx, L, r, d):
    b = cx['left_context'] if cx['begin_context'] is None else cx['begin_context']
    e = cx['right_context'] if cx['end_context'] is None else cx['end_context']
    lo = b + e + r
    n = ctx.pick([lo, L, L + 1, ctx.int(lo, lo + L), ctx.int(lo, lo + 4 * L), ctx.int(lo, lo + 4 * L)])
    n = max(n, lo)
    return ctx.rng.standard_normal((n, d)), b // r, e // r


def whole(net, x, r, L):
    """all frames of the sequence encoded at once, followed by silence"""
    n = len(x)
    z = np.concatenate([x, np.zeros((2 * L + (-n) % r, x.shape[1]))])
    z = z[:len(z) // r * r]
    y = net.predict(z[None], batch_size=1)
    y = [np.asarray(a)[0, :n // r] for a in y] if isinstance(y, list) else np.asarray(y)[0, :n // r]
    return y


def ff(net, x, n, upto=None, act='relu', out='softmax', bn=True):
    """the network FFNetV1 on x, up to a dense layer"""
    bns = [l.get_weights() for l in net.layers if l.__class__.__name__ == 'BatchNormalization']
    for i in range(n):
        if bn:
            x = norm(bns[i], x)
        w, b = net.get_layer('fc-%d' % i).get_weights()
        x = x @ w + b
        if upto == 'fc-%d' % i:
            return x
        if i < n - 1:
            x = ACT[act](x)
    return softmax(x, axis=-1) if out == 'softmax' else x


def norm(p, x):
    g, b, m, v = p
    return (x - m) / np.sqrt(v + 1e-3) * g + b


class Lde:
    def __init__(self, model):
        l = model.lde_net.layers[-1]
        self.mu, self.s = l.get_weights()
        self.order = model.lde_order


def xvector(ctx, zero=False, context=True):
    """an embedding model and what its embeddings are"""
    keras, A, E, V = mods()
    cls = ctx.pick([E.SeqEmbed, E.SeqEmbedLDE])
    pool = ctx.pick(['mean+std', 'mean+logvar', 'mean'] + ['lde'] * 4 * (cls is E.SeqEmbedLDE))
    pd = ctx.int(1, 4)
    enc, d, r, c = encoder(ctx, pd, zero, context)
    nc, order = ctx.int(1, 3), ctx.pick([1, 2])
    n, nout = ctx.int(2, 3), ctx.int(2, 4)
    bn, act = ctx.flip(), ctx.pick(['relu', 'tanh'])
    pt = A.FFNetV1(n, nout, ctx.int(2, 5), dict(mean=pd, lde=nc * pd).get(pool, 2 * pd), output_activation='softmax', hidden_activation=act, use_batchnorm=bn)
    randomise(ctx, pt)
    cx, L = contexts(ctx, c, r, zero)
    kw = dict(cx, pooling=pool)
    if cls is E.SeqEmbedLDE:
        kw.update(num_comp=nc, lde_order=order)
    m = cls(enc, pt, **kw)

    def ref(h, layers):
        """embeddings computed from the frames that are pooled"""
        kind = dict([('mean+std', 'std'), ('mean+logvar', 'logvar'), ('mean', 'avg'), ('lde', 'lde')])[pool]
        v = pool_ref(kind, h[None], np.ones((1, len(h))), Lde(m) if kind == 'lde' else None)
        if kind == 'logvar':
            k = v.shape[1] // 2
            v = np.concatenate([v[:, :k], np.log(v[:, k:] + 1e-10)], axis=1)
        return np.concatenate([ff(pt, v, n, l, act, bn=bn)[0] for l in layers])
    return m, ref, dict(cx=cx, L=L, d=d, r=r, n=n, pool=pool, nout=nout)


@case(quick=90, mult=3)
def embeddings(ctx):
    """embeddings of sequences of any length, and posteriors of the classes"""
    keras, A, E, V = mods()
    zero = ctx.flip(.3)
    m, ref, o = xvector(ctx, zero, not zero)
    L, r = o['L'], o['r']
    m.build(L)
    layers = [str(l) for l in ctx.rng.permutation(['fc-%d' % i for i in range(o['n'])])[:ctx.int(1, 2)]]
    m.build_embed(layers)
    if o['pool'] == 'lde':
        l = m.lde_net.layers[-1]
        mu, s = l.get_weights()
        l.set_weights([ctx.rng.standard_normal(mu.shape) * .5, ctx.rng.uniform(.1, 1.5, s.shape)])
    ctx.sample(pooling=o['pool'], downsampling=r, length=L, contexts=str(o['cx']), layers=layers)
    ctx.check(m.in_length == L and m.x_dim == o['d'] and m.num_classes == o['nout'] and m.enc_downsampling == r and m.pool_in_length == L // r,
              'dimensions of the model', m.in_length, L, m.enc_downsampling, r)
    for _ in range(3):
        x, b, e = sequence(ctx, o['cx'], L, r, o['d'])
        h = whole(m.enc_net, x, r, L)
        h = h[b:len(h) - e]
        x0 = x.copy()
        y = m.predict_embed(x)
        ctx.same(x, x0, 'features are not changed')
        want = ref(h, layers)
        at = 5e-4 if o['pool'] == 'mean+logvar' else 1e-5
        ctx.check(m.embed_dim == want.size, 'dimension of the embeddings', m.embed_dim, want.size)
        ctx.close(np.ravel(y), want, 'embedding is that of the whole sequence', rtol=1e-4, atol=at, info=(len(x), L, r, o['cx'], o['pool']))
        n = 1 if len(x) <= L else 1 + -(-(len(x) - L) // (L - o['cx']['left_context'] - o['cx']['right_context']))
        ctx.event('chunks', n)
        ctx.sig('embed', o['pool'], r, min(n, 4), o['cx']['left_context'] > 0, zero)
    m.build_eval()
    y = m.predict_eval(x)
    p = ref(h, [None])
    ctx.close(np.ravel(y), np.log(p + 1e-10), 'evaluation gives the log-posteriors of the classes', rtol=1e-4, atol=1e-3)
    ctx.event('embeddings', 4)


@case(quick=40, mult=3)
def padded(ctx):
    """in training, sequences are padded with zeros up to the length of the model"""
    keras, A, E, V = mods()
    L = keras.layers
    which = ctx.pick(['x', 'x', 'q', 'dvae', 'sup'])
    if which == 'x':
        m, ref, o = xvector(ctx, context=False)
        net = m.enc_net
    else:
        m, ref, o = qmodel(ctx, which, context=False)
        net = frames_net(m)
    r = o['r']
    T = r * ctx.int(1, 6)
    m.build(T)
    if o.get('pool') == 'lde':
        l = m.lde_net.layers[-1]
        mu, s = l.get_weights()
        l.set_weights([ctx.rng.standard_normal(mu.shape) * .5, ctx.rng.uniform(.1, 1.5, s.shape)])
    lens = [r * ctx.int(1, T // r) for _ in range(ctx.int(1, 4))]
    x = np.zeros((len(lens), T, o['d']))
    for i, n in enumerate(lens):
        x[i, :n] = ctx.rng.standard_normal((n, o['d']))
    ctx.sample(model=m.__class__.__name__, lens=lens, length=T, downsampling=r)
    y = m.model.predict(x, batch_size=ctx.pick([1, len(lens)]))
    for i, n in enumerate(lens):
        h = net.predict(x[i:i + 1, :n], batch_size=1)
        if which == 'x':
            ctx.close(y[i], ref(np.asarray(h)[0], [None]), 'posteriors of the classes do not see the padding', rtol=1e-4, atol=1e-5)
        else:
            eta, prec = ref(*[np.asarray(a)[0] for a in h])
            kl = expected_log(eta / prec, 1 / prec, eta / prec, 1 / prec) - expected_log(eta / prec, 1 / prec, 0, np.ones_like(prec))
            # the divergence of the posterior of the sequence
            ctx.close(np.ravel(y[{'q': 1, 'dvae': 1, 'sup': len(y) - 2}[which]][i]), np.array([kl]), 'divergence of the posterior of the sequence does not see the padding', rtol=1e-4, atol=1e-4)
            if which != 'q' and o['nout']:
                ctx.check(abs(np.sum(y[{'dvae': 0, 'sup': 1}[which]][i]) - 1) < 1e-6, 'posteriors of the classes are probabilities')
    ctx.event('padded sequences', len(lens))
    ctx.sig('padded', which, o.get('pool', ''), r, any(n < T for n in lens))


def frames_net(m):
    return m.prepool_net if hasattr(m, 'prepool_net') else m.qy_net


def qmodel(ctx, which, zero=False, context=True):
    """a model whose embeddings are posteriors, and the pooling of the frames as (natural parameter, precision)"""
    keras, A, E, V = mods()
    d = ctx.int(1, 3)
    enc, dx, r, c = encoder(ctx, [d, d], zero, context)
    cx, L = contexts(ctx, c, r, zero)
    # the variance formats whose values may have any sign
    fi = ctx.pick(['nat', 'mean']) + '+' + ctx.pick(['logitvar', 'logprec-1', 'logvar', 'logprec'])
    fo = ctx.pick(['nat', 'mean']) + '+' + (ctx.pick(['logvar', 'var']) if which != 'q' else ctx.pick(['prec', 'prec']))
    if which == 'q':
        fo = 'nat+prec'
    mv, pen = ctx.pick([.1, .5]), ctx.pick([1, .3])
    kw = dict(cx, frame_corr_penalty=pen)
    nout = ctx.int(2, 4)
    if which == 'q':
        m = E.SeqQEmbed(enc, nout, pooling_input=fi, pooling_output=fo, min_var=mv, **kw)
    elif which == 'dvae':
        pt = A.FFNetV1(2, nout, 4, d, output_activation='softmax')
        randomise(ctx, pt)
        m = V.TiedDVAE_QY(enc, pt, pooling_input=fi, pooling_output=fo, min_var=mv, **kw)
    else:
        nout = ctx.pick([0, nout])
        pt = None
        if nout:
            pt = A.FFNetV1(2, nout, 4, d, output_activation='softmax')
            randomise(ctx, pt)
        z = ctx.int(1, 3)
        qz = A.TDNNV1WithEmbedInputV1(1, 1, [z, z], 3, 3, dx, d, 1, name='qz')
        px = A.TDNNV1WithEmbedInputV1(1, 1, [dx, dx], 3, 3, d, z, 1, name='px')
        m = V.TiedSupVAE_QYQZgY(px, enc, qz, pt, qy_pool_in_fmt=fi, qy_pool_out_fmt=fo, qy_min_var=mv, **kw)

    def ref(p1, p2):
        f = fi.split('+', 1)[1]
        cl = np.clip(p2, -7, 7) if f in ('logitvar', 'logprec-1') else p2
        if f == 'logitvar':
            s = 1 / (1 + np.exp(-cl))
            prec = 1 / (mv + (1 - mv) * s)
        elif f == 'logprec-1':
            s = 1 / (1 + np.exp(cl))
            prec = 1 / (mv + (1 - mv) * s)
        else:
            prec = np.clip(np.exp(-cl if f == 'logvar' else cl), 1, 1 / mv)
        eta = p1 * prec if fi.startswith('mean') else p1
        return pen * eta.sum(0), 1 + pen * (prec - 1).sum(0)
    return m, ref, dict(cx=cx, L=L, d=dx, r=r, fi=fi, fo=fo, nout=nout)


def built(ctx, m, which, fo):
    """the model ready for its embeddings in the format"""
    if which == 'sup':
        m.build_qy(fo)
        return m.compute_qy
    m.build_embed(fo)
    return m.predict_embed


@case(quick=70, mult=3)
def posteriors(ctx):
    """embeddings that are posterior distributions"""
    keras, A, E, V = mods()
    which = ctx.pick(['q', 'dvae', 'sup'])
    zero = ctx.flip(.3)
    m, ref, o = qmodel(ctx, which, zero, not zero)
    L, r = o['L'], o['r']
    if which == 'sup' and r > 1:
        m.max_seq_length = L
    else:
        m.build(L)
    fo = ctx.pick([None, ctx.pick(['nat', 'mean']) + '+' + ctx.pick(OUT2)])
    f = built(ctx, m, which, fo)
    fo = fo or o['fo']
    ctx.sample(model=m.__class__.__name__, downsampling=r, length=L, contexts=str(o['cx']), pooling_input=o['fi'], pooling_output=fo)
    ctx.check(m.x_dim == o['d'] and m.in_length == L and m.prepool_downsampling == r, 'dimensions of the model')
    net = frames_net(m)
    for _ in range(3):
        x, b, e = sequence(ctx, o['cx'], L, r, o['d'])
        h = [a[b:len(a) - e] for a in whole(net, x, r, L)]
        y = [np.asarray(a) for a in f(x)]
        ctx.check(len(y) == 2 and y[0].size == m.embed_dim == h[0].shape[1], 'dimension of the embeddings', m.embed_dim)
        eta, prec = decode([np.ravel(a) for a in y], fo)
        we, wp = ref(*h)
        ctx.close(prec, wp, 'precision of the embedding is that of the whole sequence', rtol=1e-4, info=(len(x), L, r, o['cx'], o['fi'], fo))
        ctx.close(eta, we, 'mean of the embedding is that of the whole sequence', rtol=1e-4, atol=1e-4, info=(len(x), L, r, o['cx'], o['fi'], fo))
        n = 1 if len(x) <= L else 1 + -(-(len(x) - L) // (L - o['cx']['left_context'] - o['cx']['right_context']))
        ctx.event('chunks', n)
        ctx.sig('posterior', which, r, min(n, 4), o['cx']['left_context'] > 0, fo)
    if which == 'q':
        # scores of the classes
        m.build_eval()
        y = np.ravel(m.predict_eval(x))
        me, le = m.score_net.layers[-1].get_weights()
        lt, mt = wp, we / wp
        want = []
        for c in range(len(me)):
            p = le + lt - 1
            hh = le * me[c] + lt * mt
            want.append(.5 * np.sum(np.log(le * lt / p) + hh ** 2 / p - le * me[c] ** 2 - lt * mt ** 2))
        ctx.close(y, np.array(want), 'evaluation gives the scores of the classes', rtol=1e-3, atol=1e-3)
    if which == 'sup' and o['nout']:
        # posteriors of the classes for a sample of the embedding; with the weights of the classifier on its biases only, for all samples
        m.build_pt()
        const = ctx.flip()
        w = m.pt_net.get_weights()
        if const:
            for l in m.pt_net.layers:
                if l.get_weights() and 'fc' in l.name:
                    l.set_weights([l.get_weights()[0] * 0, l.get_weights()[1]])
        y = np.ravel(m.predict_pt(x))
        ctx.check(y.size == o['nout'] and abs(y.sum() - 1) < 1e-5 and y.min() >= 0, 'posteriors of the classes are probabilities', y)
        if const:
            ctx.close(y, softmax(m.pt_net.get_layer('fc-1').get_weights()[1]), 'posteriors of the classes are those of the classifier', rtol=1e-5)
    ctx.event('embeddings', 3)


# --- architectures -----------------------------------------------------------------------------------------------------------------------

def conv(x, w, b, rate):
    k = w.shape[0]
    h = (k - 1) // 2 * rate
    z = np.pad(x, ((0, 0), (h, h), (0, 0)))
    return sum(z[:, i * rate:i * rate + x.shape[1]] @ w[i] for i in range(k)) + b


def dropped(ctx, net, rate, spatial, n):
    """layers that drop values, or whole channels, in training"""
    ls = [l for l in net.layers if 'Dropout' in l.__class__.__name__]
    if n is not None:
        ctx.same([l.rate for l in ls], [rate] * n * (rate > 0), 'dropout after each hidden layer')
    ctx.check(all((l.__class__.__name__ == 'SpatialDropout1D') == spatial for l in ls), 'values or channels are dropped', spatial)


@case(quick=40, mult=3)
def architectures(ctx):
    """time-delay networks are stacks of normalisation, convolution and activation; frames that they see"""
    keras, A, E, V = mods()
    kind = ctx.pick(['tdnn', 'tdnn', 'res', 'embed', 'ff'])
    d, b, t = ctx.int(1, 3), ctx.int(1, 3), ctx.int(1, 12)
    bn, act, out = ctx.flip(), ctx.pick(['relu', 'tanh']), ctx.pick([None, 'softmax', 'tanh'])
    fin = dict(softmax=lambda v: softmax(v, axis=-1), tanh=np.tanh).get(out, lambda v: v)
    drop = ctx.pick([0, .3])
    nt, nf = ctx.int(1, 3), ctx.int(1, 3)
    if kind == 'ff':
        hu = [ctx.int(1, 4) for _ in range(nf - 1)] if ctx.flip() else ctx.int(1, 4)
        net = A.FFNetV1(nf, 3, hu, d, out, act, bn, drop)
        randomise(ctx, net)
        x = ctx.rng.standard_normal((b, d))
        y = net.predict(x, batch_size=b)
        ctx.close(y, fin(ff(net, x, nf, act=act, out=None, bn=bn)), 'feed-forward network', rtol=1e-6, atol=1e-8)
        for i in range(nf - 1):
            ctx.check(net.get_layer('fc-%d' % i).get_weights()[0].shape[1] == (hu[i] if isinstance(hu, list) else hu), 'units of the layers')
        dropped(ctx, net, drop, False, nf - 1)
        ctx.event('architectures')
        ctx.sig('arch', kind, nf, bn, act, out, isinstance(hu, list))
        return
    n = 2 * nt if kind == 'res' else nt
    ks = [ctx.pick([1, 3, 5]) for _ in range(n)] if ctx.flip() else ctx.pick([1, 3])
    rate, factor = (ctx.pick([1, 2]), ctx.pick([0, 1])) if ctx.flip() else ([ctx.int(1, 3) for _ in range(n)], 1)
    kk = ks if isinstance(ks, list) else [ks] * n
    rr = rate if isinstance(rate, list) else [rate + factor * i for i in range(n)]
    outs = ctx.pick([2, [2, 3]])
    td, fc, spatial = ctx.pick([0, .3]), ctx.pick([0, .2]), ctx.flip()
    ht, e = ctx.int(1, 4), ctx.int(1, 3)
    kw = dict(dilation_rate=rate, dilation_rate_factor=factor, output_activation=out, hidden_activation=act, use_batchnorm=bn, td_dropout_rate=td, fc_dropout_rate=fc,
              spatial_dropout=spatial, return_context=True)
    every = ctx.flip()
    ctx.sample(kind=kind, kernel_size=str(ks), dilation=str(rr), outputs=str(outs), batchnorm=bn)
    if kind == 'tdnn':
        hf = [ctx.int(1, 4) for _ in range(nf - 1)] if ctx.flip() else ctx.int(1, 4)
        net, c = A.TDNNV1(nt, nf, outs, ht, hf, d, ks, **kw)
    elif kind == 'res':
        hf = ctx.pick([ht, ctx.int(1, 4)])
        nf = nf - 1
        net, c = A.ResTDNNV1(nt, nf, outs, ht, hf, d, ks, **kw)
    else:
        hf = ctx.int(1, 4)
        net, c = A.TDNNV1WithEmbedInputV1(nt, nf, outs, ht, hf, d, e, ks, cat_embed_to_all_fc_layers=every, **kw)
    # after each hidden layer of time delays and of each frame
    drops = [l.rate for l in net.layers if 'Dropout' in l.__class__.__name__]
    nh = dict(tdnn=(nt, nf - 1), embed=(nt, nf - 1), res=(2 * nt, 2 * nf))[kind]
    ctx.same(drops, [] + [td] * nh[0] * (td > 0) + [fc] * nh[1] * (fc > 0), 'dropout after each hidden layer')
    dropped(ctx, net, None, spatial, None)
    ctx.check(c == sum((k - 1) // 2 * q for k, q in zip(kk, rr)), 'context that is returned', c, kk, rr)
    randomise(ctx, net)
    x, ee = ctx.rng.standard_normal((b, t, d)), ctx.rng.standard_normal((b, t, e))
    y = net.predict([x, ee] if kind == 'embed' else x, batch_size=b)
    y = [np.asarray(a) for a in y] if isinstance(outs, list) else [np.asarray(y)]
    bns = [l.get_weights() for l in net.layers if l.__class__.__name__ == 'BatchNormalization']
    N = lambda v: norm(bns.pop(0), v) if bn else v
    W = {l.name: l.get_weights() for l in net.layers}
    W.update({l.layer.name: l.get_weights() for l in net.layers if hasattr(l, 'layer')})
    f = ACT[act]
    h = x
    last = nf - 1
    if kind == 'res':
        last = 2 * nf
        for i in range(nt):
            h = N(h)
            res = h if i else conv(h, *W['res-td-0'], 1)
            g = f(conv(h, *W['td-%d-1' % i], rr[2 * i]))
            h = res + f(conv(g, *W['td-%d-2' % i], rr[2 * i + 1]))
        for i in range(nf):
            h = N(h)
            res = conv(h, *W['res-fc-0'], 1) if i == 0 and ht != hf else h
            g = f(conv(h, *W['fc-%d-1' % i], 1))
            h = res + f(conv(g, *W['fc-%d-2' % i], 1))
    else:
        for i in range(nt):
            h = f(conv(N(h), *W['td-%d' % i], rr[i]))
        for i in range(nf - 1):
            if kind == 'embed' and (i == 0 or every):
                h = np.concatenate([h, ee], axis=-1)
            h = N(h)
            w, bb = W['fc-%d' % i]
            h = f(h @ w + bb)
        if kind == 'embed' and nf == 1:
            h = np.concatenate([h, ee], axis=-1)
    h = N(h)
    for i, a in enumerate(y):
        w, bb = W['fc-%d-%d' % (last, i) if isinstance(outs, list) else 'fc-%d' % last]
        ctx.check(a.shape == (b, t, outs[i] if isinstance(outs, list) else outs), 'shape of the output')
        ctx.close(a, fin(h @ w + bb), 'output of the network (%s)' % kind, rtol=1e-6, atol=1e-8, info=(kk, rr))
    # frames farther than the context are not seen
    if t > c + 1 and kind != 'embed':
        i = ctx.int(0, t - 1)
        x2 = x.copy()
        x2[:, i] += 1
        y2 = net.predict(x2, batch_size=b)
        y2 = y2 if isinstance(outs, list) else [y2]
        far = [j for j in range(t) if abs(j - i) > c]
        for u, v in zip(y, y2):
            ctx.close(np.asarray(v)[:, far], u[:, far], 'frames farther than the context are not seen', rtol=1e-9, atol=1e-12)
    ctx.event('architectures')
    ctx.sig('arch', kind, n, bn, act, str(out), isinstance(ks, list), isinstance(rate, list), isinstance(outs, list))


# --- saved models, options, tools ------------------------------------------------------------------------------------------------------------

def any_model(ctx):
    which = ctx.pick(['x', 'x', 'q', 'dvae', 'sup'])
    if which == 'x':
        m, ref, o = xvector(ctx)
        o['cfg'] = ['pooling', 'loss', 'num_comp', 'lde_order']
    else:
        m, ref, o = qmodel(ctx, which)
        o['cfg'] = ['num_classes', 'loss', 'pooling_input', 'pooling_output', 'min_var', 'kl_weight', 'frame_corr_penalty', 'qy_pool_in_fmt', 'qy_pool_out_fmt', 'qy_min_var', 'px_weight']
        if which == 'sup':
            m.px_weight, m.kl_qz_weight = 2.5, .25
        else:
            m.kl_weight = .75
    return which, m, ref, o


def ready(ctx, which, m, o, layers):
    if which == 'sup' and o['r'] > 1:
        m.max_seq_length = o['L']
    else:
        m.build(o['L'])
    if which == 'x':
        m.build_embed(layers)
        return m.predict_embed
    return built(ctx, m, which, None)


@case(quick=24)
def saved(ctx):
    """models that are saved and loaded, also the last of the checkpoints of a training"""
    from hyperion.keras.keras_model_loader import KerasModelLoader
    which, m, ref, o = any_model(ctx)
    m.name = 'n1'
    layers = ['fc-0']
    f = ready(ctx, which, m, o, layers)
    if o.get('pool') == 'lde':
        l = m.lde_net.layers[-1]
        mu, s = l.get_weights()
        l.set_weights([ctx.rng.standard_normal(mu.shape) * .5, ctx.rng.uniform(.1, 1.5, s.shape)])
    d = ctx.path('models')
    os.makedirs(d)
    ctx.check(KerasModelLoader.load_checkpoint(d, 5)[0] is None, 'no model without checkpoints')
    epochs = sorted(set(ctx.int(0, 12) for _ in range(ctx.int(0, 3))))
    x, b, e = sequence(ctx, o['cx'], o['L'], o['r'], o['d'])
    y = {}
    net = m.enc_net if which == 'x' else frames_net(m)
    for ep in epochs + ['best']:
        w = [a + .05 * ctx.rng.standard_normal(a.shape) * (a.ndim > 1) for a in net.get_weights()]
        net.set_weights(w)
        y[ep] = np.concatenate([np.ravel(a) for a in f(x)])
        m.save(os.path.join(d, 'model.best' if ep == 'best' else 'model.%04d' % ep))
    for upto in [ctx.int(0, 14), ctx.int(0, 14)]:
        q, cur = KerasModelLoader.load_checkpoint(d, upto)
        have = [ep for ep in epochs if ep <= upto]
        ep = have[-1] if have else 'best'
        ctx.check(type(q) is type(m), 'class of the model', type(q))
        ctx.check(cur == (ep if have else 0), 'epoch of the last checkpoint', cur, ep, epochs, upto)
        c1, c2 = m.get_config(), q.get_config()
        for k in c1:
            ctx.same(c2.get(k), c1[k], 'option %s of the model survives' % k)
        for k in o['cfg']:
            if hasattr(m, k) and k != 'loss':
                ctx.same(getattr(q, k), getattr(m, k), 'option %s of the model survives' % k)
        if which in ('x', 'dvae', 'sup'):
            ctx.check((m.pt_net is None) == (q.pt_net is None), 'the classifier survives')
            if m.pt_net is not None:
                for u, v in zip(m.pt_net.get_weights(), q.pt_net.get_weights()):
                    ctx.close(v, u, 'weights of the classifier survive', rtol=1e-6)
        g = ready(ctx, which, q, o, layers)
        ctx.close(np.concatenate([np.ravel(a) for a in g(x)]), y[ep], 'saved and loaded model gives the same embeddings', rtol=1e-5, atol=1e-6, info=(ep, upto))
    ctx.event('saved', len(epochs) + 1)
    ctx.sig('saved', m.__class__.__name__, len(epochs))


OUTF = ['nat+logvar', 'nat+logprec', 'nat+var', 'nat+prec', 'mean+logvar', 'mean+logprec', 'mean+var', 'mean+prec']
CX = dict(left_context=[0, 3, 7], right_context=[0, 2, 5], begin_context=[0, 1, 4], end_context=[0, 3])
INF = [a + '+' + b for a in ('nat', 'mean') for b in IN2]
Q = dict(CX, pooling_input=INF, pooling_output=OUTF, min_var=[.2, .05], kl_weight=[.5, 2.], frame_corr_penalty=[.1, 3.], post_pdf=['diag_normal'])


def tables():
    keras, A, E, V = mods()
    return {'SeqEmbed': (E.SeqEmbed, dict(CX, pooling=['mean', 'mean+std', 'mean+logvar'])),
            'SeqEmbedLDE': (E.SeqEmbedLDE, dict(CX, pooling=['mean', 'mean+std', 'mean+logvar', 'lde'], num_comp=[3, 17], lde_order=[1, 2])),
            'SeqQEmbed': (E.SeqQEmbed, Q), 'TiedDVAE_QY': (V.TiedDVAE_QY, Q),
            'TiedSupVAE_QYQZgY': (V.TiedSupVAE_QYQZgY, dict(
                CX, px_form=['normal_diag_cov', 'categorical', 'bernoulli'], pt_form=['categorical', 'bernoulli'], qy_form=['normal_diag_cov'], qz_form=['normal_diag_cov'],
                px_fmt=['mean+logvar'], qy_pool_in_fmt=INF, qy_pool_out_fmt=OUTF, qz_fmt=INF, qy_min_var=[.2, .03], qz_min_var=[.3, .04],
                pt_weight=[.5, 2.], px_weight=[.25, 3.], kl_qy_weight=[.1, 4.], kl_qz_weight=[.2, 5.], frame_corr_penalty=[.1, 3.]))}


@case(quick=16, mult=2)
def options(ctx):
    """options of the command line reach the model"""
    keras, A, E, V = mods()
    enc = A.TDNNV1(1, 1, 2, 2, 2, 2, 1)
    q = A.TDNNV1(1, 1, [2, 2], 2, 2, 2, 1)
    for name, (cls, table) in tables().items():
        pre = ctx.pick([None, None, 'net'])
        p = argparse.ArgumentParser()
        cls.add_argparse_args(p, pre) if pre else cls.add_argparse_args(p)
        keys = [str(k) for k in ctx.rng.permutation(sorted(table))[:ctx.int(0, len(table))]]
        given = {k: ctx.pick(table[k]) for k in keys}
        spell = lambda k: 'lde_num_comp' if k == 'num_comp' else k
        args = [a for k, v in given.items() for a in ('--' + (pre + '-' if pre else '') + spell(k).replace('_', '-'), str(v))]
        try:
            ns = vars(p.parse_args(args))
        except SystemExit:
            ctx.fail('%s: options refused' % name, args)
        ns['other_thing'] = 1
        kw = cls.filter_args(pre, **ns) if pre else cls.filter_args(**ns)
        for k, v in given.items():
            ctx.same(kw.get(k), v, '%s: option %s arrives' % (name, k))
        ctx.check(set(kw) == set(table), '%s: just the options of the model' % name, sorted(set(kw) ^ set(table)))
        m = dict(SeqEmbed=lambda: cls(enc, enc, **kw), SeqEmbedLDE=lambda: cls(enc, enc, **kw), SeqQEmbed=lambda: cls(q, 3, **kw),
                 TiedDVAE_QY=lambda: cls(q, enc, **kw), TiedSupVAE_QYQZgY=lambda: cls(enc, q, q, enc, **kw))[name]()
        for k, v in given.items():
            ctx.same(getattr(m, k), v, '%s: option %s reaches the model' % (name, k))
        if 'begin_context' not in given:
            ctx.same(m.begin_context, m.left_context, 'frames left out at the begin are the left context')
        if 'end_context' not in given:
            ctx.same(m.end_context, m.right_context, 'frames left out at the end are the right context')
        ctx.event('option', len(given))
    ctx.sig('options', len(given), pre)


@case(quick=16, mult=2)
def tools(ctx):
    """the tools that extract embeddings and evaluate networks"""
    import h5py
    from hyperion.io import DataWriterFactory as DWF
    from hyperion.io import RandomAccessDataReaderFactory as RDF
    which = ctx.pick(['x', 'x', 'q', 'sup'])
    if which == 'x':
        m, ref, o = xvector(ctx)
        while not m.__class__.__name__ == 'SeqEmbed':
            m, ref, o = xvector(ctx)
    else:
        m, ref, o = qmodel(ctx, which)
        while o['r'] > 1 and which == 'sup':
            m, ref, o = qmodel(ctx, which)
    L, r = o['L'], o['r']
    m.build(L)
    mp = ctx.path('m')
    m.save(mp)
    keys = ['k%d' % i for i in range(ctx.int(1, 5))]
    seqs = [sequence(ctx, o['cx'], L, r, o['d']) for _ in keys]
    fs = 'h5:' + ctx.path('f.h5')
    w = DWF.create(fs)
    w.write(keys, [s[0].astype('float32') for s in seqs])
    del w
    wo = 'h5:' + ctx.path('o.h5')
    kw = dict(seq_file=fs, model_file=mp, output_path=wo, max_seq_length=L)
    if ctx.flip(.4):
        from hyperion.transforms import TransformList, MVN
        t = MVN(mu=ctx.rng.standard_normal(o['d']), s=ctx.rng.uniform(.5, 2, o['d']))
        TransformList([t]).save(ctx.path('t.h5'))
        kw['preproc_file'] = ctx.path('t.h5')
        seqs = [(t.predict(x.astype('float32')), b, e) for x, b, e in seqs]
    net = m.enc_net if which == 'x' else frames_net(m)
    want = []
    ev = which != 'sup' and ctx.flip(.3)
    if which == 'x':
        layers = [str(l) for l in ctx.rng.permutation(['fc-%d' % i for i in range(o['n'])])[:ctx.int(1, 2)]]
        name = 'keras-eval-seq-embed' if ev else 'keras-extract-seq-embed'
        if not ev:
            kw['layer_names'] = layers
    else:
        fo, wf = ctx.pick(OUTF), ctx.pick(['p1', 'p2', 'p1+p2'])
        name = 'keras-extract-tied-vae-embed' if which == 'sup' else 'keras-eval-seq-q-embed' if ev else 'keras-extract-seq-q-embed'
        if not ev:
            kw.update(pooling_output=fo, write_format=wf)
    tool(ctx, name, None, **kw)
    for x, b, e in seqs:
        h = whole(net, x.astype('float32').astype(float), r, L)
        if which == 'x':
            h = h[b:len(h) - e]
            want.append(np.log(ref(h, [None]) + 1e-10) if ev else ref(h, layers))
        elif not ev:
            eta, prec = ref(*[a[b:len(a) - e] for a in h])
            p1 = eta if fo.startswith('nat') else eta / prec
            p2 = dict(logvar=-np.log(prec), logprec=np.log(prec), var=1 / prec, prec=prec)[fo.split('+')[1]]
            want.append(dict([('p1', p1), ('p2', p2), ('p1+p2', np.concatenate([p1, p2]))])[wf])
        else:
            m.build_eval()
            want.append(np.ravel(m.predict_eval(x.astype('float32'))))
    rd = RDF.create(wo)
    got = rd.read(keys, squeeze=True)
    with h5py.File(wo[3:], 'r') as f:
        ctx.check(sorted(f) == sorted(keys), 'one record for each sequence', sorted(f), keys)
    for k, g, y in zip(keys, got, want):
        ctx.close(np.ravel(g), y, 'tool %s writes the embedding of the sequence' % name, rtol=1e-3, atol=2e-3, info=k)
    ctx.event('sequences', len(keys))
    ctx.sig('tool', name, r, kw.get('pooling_output', ''), kw.get('write_format', ''), 'preproc_file' in kw)
