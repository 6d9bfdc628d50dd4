"""C09 audio"""
import os

import numpy as np

from ..core import case
from ..iolib import gen_keys, open_files

FULL = {'PCM_16': 2 ** 15, 'PCM_32': 2 ** 31, 'FLOAT': None, 'DOUBLE': None}


def wave(ctx, sub, n, ch=1):
    shape = (n,) if ch == 1 else (n, ch)
    if sub == 'PCM_16':
        x = ctx.rng.randint(-2 ** 15, 2 ** 15, size=shape)
        if ctx.flip(.3):
            x.ravel()[:2] = [-2 ** 15, 2 ** 15 - 1][:x.size]
        return x.astype(ctx.pick(['int16', 'float64', 'int64']))
    if sub == 'PCM_32':
        return ctx.rng.randint(-2 ** 31, 2 ** 31, size=shape).astype(ctx.pick(['int32', 'int64']))
    return ctx.rng.uniform(-1, 1, size=shape).astype(ctx.pick(['float32', 'float64']))


def expected(sub, x, scale):
    """the stored sample in units of full scale = scale"""
    if FULL[sub]:
        return x.astype(np.float64) / FULL[sub] * scale
    return (x.astype('float32') if sub == 'FLOAT' else x).astype(np.float64) * scale


def write(ctx, n=None):
    from hyperion.io import AudioWriter
    fmt, sub = ctx.pick([('wav', 'PCM_16'), ('wav', 'PCM_16'), ('wav', 'FLOAT'), ('wav', 'DOUBLE'), ('wav', 'PCM_32'),
                         ('flac', 'PCM_16'), ('wav', None), ('flac', None)])
    keys = gen_keys(ctx, n or ctx.int(1, 6))
    base = [k.replace('/', '-') for k in keys]
    if len(set(base)) != len(base):
        keys = ['k%d' % i for i in range(len(keys))]
    eff = sub or 'PCM_16'
    ch = ctx.pick([1, 1, 1, 2])
    x = [wave(ctx, eff, ctx.int(1, 3000), ch) for _ in keys]
    fs = [int(ctx.pick([8000, 16000, 11025, 44100])) for _ in keys]
    if ctx.flip(.6):
        fs = [fs[0]] * len(fs)
    out, scp = ctx.path(ctx.pick(['wav'] * 9 + ['my wav'])), ctx.path('wav.scp')
    with AudioWriter(out, scp, audio_format=fmt, subtype=sub) as w:
        i = 0
        snap = [a.copy() for a in x]
        while i < len(keys):
            n = ctx.int(1, len(keys))
            if len(set(fs)) == 1 and ctx.flip():
                if n == 1:
                    w.write(keys[i], x[i], fs[0])
                else:
                    w.write(keys[i:i + n], x[i:i + n], fs[0])
            else:
                w.write(keys[i:i + n], x[i:i + n], np.array(fs[i:i + n]) if ctx.flip() else fs[i:i + n])
            i += n
        ctx.check(all(np.array_equal(a, b) for a, b in zip(snap, x)), 'writer changed the samples it was given')
    ctx.check(not open_files(ctx), 'a closed writer holds a file', open_files(ctx))
    return fmt, eff, keys, x, fs, out, scp


@case(quick=200, mult=10)
def roundtrip(ctx):
    from hyperion.io import SequentialAudioReader, RandomAccessAudioReader
    fmt, sub, keys, x, fs, out, scp = write(ctx)
    scale = ctx.pick([2 ** 15, 2 ** 15, 1, 2 ** 31])
    kw = {} if scale == 2 ** 15 and ctx.flip() else dict(wav_scale=scale)
    tol = dict(rtol=3e-7, atol=scale * 1e-9)
    ctx.same([l.split()[0] for l in open(scp)], keys, 'script keys')
    for l in open(scp):
        ctx.check(os.path.isfile(l.rstrip('\n').split(' ', 1)[1]), 'script points to no file', l)
    with SequentialAudioReader(scp, **kw) as r:
        mode = ctx.int(0, 2)
        k, d, f = [], [], []
        if mode == 0:
            k, d, f = r.read()
        elif mode == 1:
            for a, b, c in r:
                k.append(a), d.append(b), f.append(c)
        else:
            while not r.eof():
                a, b, c = r.read(ctx.int(1, 3))
                k += a
                d += b
                f += c
        ctx.same(list(k), keys, 'keys')
        ctx.same([int(i) for i in f], fs, 'sampling rates')
        for a, b, w in zip(k, d, x):
            ctx.close(b, expected(sub, w, scale), 'samples', info=(fmt, sub, a), **tol)
        r.reset()
        k, d, f = r.read(1)
        ctx.close(d[0], expected(sub, x[0], scale), 'samples after reset', **tol)
    with RandomAccessAudioReader(scp, **kw) as r:
        q = [ctx.int(0, len(keys) - 1) for _ in range(5)]
        d, f = r.read([keys[i] for i in q])
        for i, b, c in zip(q, d, f):
            ctx.close(b, expected(sub, x[i], scale), 'samples by key', **tol)
            ctx.same(int(c), fs[i], 'sampling rate by key')
        d, f = r.read(keys[0])
        ctx.close(d[0], expected(sub, x[0], scale), 'samples of one key', **tol)
        ctx.raises(lambda: r.read([keys[0], 'no-such']), 'missing key')
    ctx.event('files', len(keys))
    ctx.sig(fmt, sub, x[0].ndim, mode, len(keys), scale)
    ctx.sample(format=fmt, subtype=sub, keys=keys[:3], fs=fs[0])


@case(quick=30, mult=6)
def alike(ctx):
    """recordings whose names differ in little keep each its own samples, or the writer refuses the second"""
    from hyperion.io import AudioWriter, RandomAccessAudioReader
    keys = ctx.pick([['a/b', 'a-b'], ['a-b', 'a/b'], ['a-b-c', 'a/b-c', 'a-b/c'], ['x', 'X'], ['a.b', 'a_b'], ['a/b', 'a/c']])
    x = [np.full(ctx.int(2, 50), i + 1, dtype='int16') for i in range(len(keys))]
    scp, done = ctx.path('w.scp'), []
    try:
        with AudioWriter(ctx.path('wav'), scp) as w:
            if ctx.flip():
                for k, a in zip(keys, x):
                    w.write(k, a, 8000)
                    done.append(k)
            else:
                w.write(keys, x, 8000)
                done = keys
    except Exception:
        ctx.event('refused')
        ctx.check(len({k.replace('/', '-') for k in keys}) < len(keys), 'keys of different files refused', keys)
        done = [l.split()[0] for l in open(scp)]
    if done:
        with RandomAccessAudioReader(scp) as r:
            for k, a in zip(keys, x):
                if k in done:
                    ctx.close(r.read(k)[0][0], a, 'samples of names that are alike', atol=1e-6)
    ctx.sig('alike', tuple(keys), len(done))


@case(quick=120, mult=10)
def parts_and_pipes(ctx):
    from hyperion.io import SequentialAudioReader, RandomAccessAudioReader
    fmt, sub, keys, x, fs, out, scp = write(ctx, n=ctx.int(2, 6))
    scale = ctx.pick([2 ** 15, 1, 1000.])
    kw = {} if scale == 2 ** 15 and ctx.flip() else dict(wav_scale=scale)
    tol = dict(rtol=3e-7, atol=scale * 1e-8)
    if ctx.flip(.3):
        L = [l.rstrip('\n').split(' ', 1) for l in open(scp)]
        open(scp, 'w').write("".join("%s cat '%s' |\n" % (k, p) for k, p in L))
        pipe = True
        with RandomAccessAudioReader(scp, **kw) as r:
            d, f = r.read(keys[-1])
            ctx.close(d[0], expected(sub, x[-1], scale), 'samples by key through a pipe', **tol)
            ctx.same(int(f[0]), fs[-1], 'rate through a pipe')
    else:
        pipe = False
    P = ctx.int(1, len(keys))
    allk = []
    for p in range(1, P + 1):
        with SequentialAudioReader(scp, part_idx=p, num_parts=P, **kw) as r:
            k, d, f = r.read()
        for a, b, c in zip(k, d, f):
            i = keys.index(a)
            ctx.close(b, expected(sub, x[i], scale), 'samples in part', **tol)
            ctx.same(int(c), fs[i], 'rate in part')
        allk += list(k)
    ctx.same(sorted(allk), sorted(keys), 'parts do not make up the data set')
    if pipe:
        open(scp, 'w').write('k false |\n')
        ctx.raises(lambda: SequentialAudioReader(scp).read(), 'failed command not reported')
    ctx.sig(fmt, sub, P, pipe)


@case(quick=160, mult=10)
def segments(ctx):
    """segments are the right stretch of the recording"""
    from hyperion.io import SequentialAudioReader, RandomAccessAudioReader
    fmt, sub, keys, x, fs, out, scp = write(ctx)
    segs = []
    for j in range(ctx.int(1, 8)):
        i = ctx.int(0, len(keys) - 1)
        n = len(x[i])
        if ctx.flip(.6):
            a = ctx.int(0, n - 1)
            b = ctx.int(a + 1, n)
            tb, te = (a + .25) / fs[i], (b + .25) / fs[i]
            fuzz = 0
        else:
            a = ctx.int(0, n - 1)
            tb = a / fs[i]
            b = ctx.int(a + 1, n)
            te = b / fs[i]
            fuzz = 1
        r = ctx.flip(.15)
        if r:
            b, te = n, (n + ctx.int(1, 999)) / fs[i]
        segs.append(('seg%02d-%s' % (j, keys[i]), i, a, b, tb, te, fuzz))
    if ctx.flip():
        segs = [segs[i] for i in ctx.rng.permutation(len(segs))]
    p = ctx.path('segments')
    open(p, 'w').write(''.join('%s %s %.9f %.9f\n' % (s, keys[i], tb, te) for s, i, a, b, tb, te, f in segs))

    scale = ctx.pick([2 ** 15, 1, 1000.])
    kw = {} if scale == 2 ** 15 and ctx.flip() else dict(wav_scale=scale)

    def cmp(g, seg, label):
        s, i, a, b, tb, te, fuzz = seg
        w = expected(sub, x[i], scale)
        g = np.asarray(g)
        opts = [(a, b)] if not fuzz else [(u, v) for u in (a - 1, a) for v in (b - 1, b) if 0 <= u <= v]
        ok = any(g.shape == w[u:v].shape and np.allclose(g, w[u:v], rtol=3e-7, atol=scale * 1e-8) for u, v in opts)
        ctx.check(ok, label, s, 'samples %d..%d of %d at %d Hz' % (a, b, len(w), fs[i]), 'got shape %s' % (g.shape,))
    with SequentialAudioReader(scp, p, **kw) as r:
        if ctx.flip():
            k, d, f = r.read()
        else:
            k, d, f = [], [], []
            for a, b, c in r:
                k.append(a), d.append(b), f.append(c)
        ctx.check(r.eof(), 'segments left')
    ctx.same(list(k), [s[0] for s in segs], 'segment ids')
    ctx.same([int(i) for i in f], [fs[s[1]] for s in segs], 'rates of segments')
    for g, s in zip(d, segs):
        cmp(g, s, 'segment')
    with RandomAccessAudioReader(scp, p, **kw) as r:
        for _ in range(3):
            s = ctx.pick(segs)
            d, f = r.read([s[0]])
            cmp(d[0], s, 'segment by key')
        ctx.raises(lambda: r.read('nope'), 'missing segment')
    P = ctx.int(1, len(segs))
    got = []
    for q in range(1, P + 1):
        k, d, f = SequentialAudioReader(scp, p, part_idx=q, num_parts=P, **kw).read()
        got += list(k)
        for a, g in zip(k, d):
            cmp(g, [s for s in segs if s[0] == a][0], 'segment in part')
    ctx.same(got, [s[0] for s in segs], 'parts of the segments')
    i = ctx.int(0, len(keys) - 1)
    n = len(x[i])
    open(p, 'w').write('late %s %.6f %.6f\n' % (keys[i], (n + 50.) / fs[i], (n + 90.) / fs[i]))
    ctx.raises(lambda: RandomAccessAudioReader(scp, p).read('late'), 'segment after the end of the recording')
    ctx.event('segments', len(segs))
    ctx.sig(fmt, sub, len(segs), P, any(s[6] for s in segs))
