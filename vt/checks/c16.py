"""C16 packing data in padded tensors, one-hot vectors, gains, energy vad, booleans"""
import numpy as np

from ..core import case


@case(quick=300, mult=12)
def tensors(ctx):
    from hyperion.utils.tensors import to3D_by_class, to3D_by_seq
    dim = ctx.int(1, 5)
    dt = ctx.pick(['float32', 'float64'])
    n, K = ctx.size(1, 30, 1000), ctx.size(1, 6, 64)
    ids = ctx.rng.randint(0, K, size=n)
    x = ctx.rng.randn(n, dim).astype(dt)
    cnt = np.bincount(ids)
    M = 0 if ctx.flip() else int(cnt.max()) + ctx.int(0, 3)
    y, w = ctx.pure(to3D_by_class, x, ids, max_length=M)
    L = M or int(cnt.max())
    ctx.same((y.shape, w.shape), ((ids.max() + 1, L, dim), (ids.max() + 1, L)), 'size of the tensor by class')
    for k in range(ids.max() + 1):
        m = x[ids == k]
        ctx.same(y[k, :len(m)], m, 'rows of a class')
        ctx.check(np.all(y[k, len(m):] == 0), 'padding of a class')
        ctx.same(w[k], (np.arange(L) < len(m)).astype(dt), 'weights of a class')
    seqs = [ctx.rng.randn(ctx.size(1, 9, 1000), dim).astype(dt) for _ in range(ctx.size(1, 6, 64))]
    mx = max(len(s) for s in seqs)
    M = 0 if ctx.flip() else mx + ctx.int(0, 3)
    snap = [s.copy() for s in seqs]
    y, w = to3D_by_seq(seqs, max_length=M)
    L = M or mx
    ctx.same((y.shape, w.shape), ((len(seqs), L, dim), (len(seqs), L)), 'size of the tensor by sequence')
    for k, s in enumerate(snap):
        ctx.same(y[k, :len(s)], s, 'rows of a sequence')
        ctx.check(np.all(y[k, len(s):] == 0), 'padding of a sequence')
        ctx.same(w[k], (np.arange(L) < len(s)).astype(dt), 'weights of a sequence')
        ctx.same(seqs[k], s, 'sequence was changed')
    ctx.same(y.dtype, np.dtype(dt), 'type of the tensor')
    ctx.event('rows', n + sum(map(len, seqs)))
    ctx.sig(dim, n, K, M == 0, len(seqs), dt)
    ctx.sample(classes=K, rows=n, sequences=len(seqs))


@case(quick=200, mult=12)
def onehot_and_gains(ctx):
    from hyperion.utils.math import int2onehot
    from hyperion.utils import misc
    K = ctx.size(1, 9, 300)
    ids = ctx.rng.randint(0, K, size=ctx.size(1, 20, 1000))
    N = None if ctx.flip() else K + ctx.int(0, 2)
    p = ctx.pure(int2onehot, ids, num_classes=N)
    ctx.same(p.shape, (len(ids), N or ids.max() + 1), 'size of the one-hot vectors')
    ctx.check(np.all(p.sum(1) == 1) and np.all(np.sort(np.unique(p)) == ([0, 1] if p.shape[1] > 1 else [1])), 'one-hot values')
    ctx.same(np.argmax(p, 1), ids, 'one-hot classes')
    A = float(ctx.rng.uniform(-40, 40))
    x = np.abs(ctx.rng.randn(4, 3)) + .1
    g = 10 ** (A / 20)
    for t, f in (('fft', x * g), ('fb', x * g), ('fb2', x * g ** 2)):
        ctx.close(ctx.pure(misc.apply_gain, x, t, A), f, 'gain on ' + t, rtol=1e-8)
    for t, f in (('logfft', x * g), ('logfb', x * g), ('logfb2', x * g ** 2)):
        ctx.close(np.exp(ctx.pure(misc.apply_gain, np.log(x), t, A)), f, 'gain on ' + t, rtol=1e-8)
    ctx.raises(lambda: misc.apply_gain(x, 'other', A), 'unknown feature type taken')
    P = ctx.rng.randn(ctx.int(1, 50)) * 30
    ctx.same(ctx.pure(misc.energy_vad, P), P > P.max() - 35, 'energy vad in dB')
    for s in ('true', 'T', 'Yes', 'y', 'TRUE'):
        ctx.check(misc.str2bool(s) is True, 'true word', s)
    for s in ('false', 'F', 'No', 'n'):
        ctx.check(misc.str2bool(s) is False, 'false word', s)
    ctx.raises(lambda: misc.str2bool(ctx.pick(['', '2', 'maybe', 'tru'])), 'word that is no boolean taken')
    it = iter(range(100))

    class G(object):
        def get_next_batch(self):
            return next(it)
    gen = misc.generate_data(G())
    ctx.same([next(gen) for _ in range(10)], list(range(10)), 'batches of the generator')
    ctx.event('vectors', len(ids))
    ctx.sig(K, N is None, len(ids))
