"""C23 mean and variance normalisation, selection of frames, energy VAD"""
import os
import subprocess
import sys

import numpy as np
from scipy.signal import lfilter

from ..core import case
from .c21 import frames, signal


def local(x, nm, nv, l, r):
    """window statistics of the globally normalised features; also the smallest relative variance"""
    if nm:
        x = x - x.mean(0)
    if nv:
        x = x / x.std(0)
    if l is None and r is None:
        return x, 1.
    T = len(x)
    y = x.copy()
    low = 1.
    for i in range(T):
        a = 0 if l is None else max(0, i - l)
        b = T if r is None else min(T, i + r + 1)
        w = x[a:b]
        if nm:
            y[i] = y[i] - w.mean(0)
        if nv:
            v = w.var(0)
            low = min(low, v.min())
            y[i] = y[i] / np.sqrt(np.maximum(v, 1e-5))
    return y, low


@case(quick=500, mult=12)
def normalisation(ctx):
    from hyperion.feats import MeanVarianceNorm as MVN
    T, D = ctx.size(2, 60, 1500), ctx.size(1, 5, 60)
    x = ctx.rng.randn(T, D) * 10. ** ctx.int(-1, 2) + ctx.pick([0, 10, -3])
    if ctx.flip(.3):
        x = x + np.linspace(0, 5, T)[:, None]
    nm, nv = ctx.flip(.8), ctx.flip()
    ctxs = lambda: ctx.pick([None, 0, 1, ctx.int(0, 10), ctx.int(0, 30), T - 1, T, T + 5, 150])
    l, r = ctxs(), ctxs()
    if nv and l is not None and r is not None and l + r < 3:
        l = r = ctx.int(2, 5)
    want, low = local(x, nm, nv, l, r)
    tol = 1e-5 if low > 1e-3 else 1e-2
    m = MVN(norm_mean=nm, norm_var=nv, left_context=l, right_context=r)
    sc = np.abs(want).max() + np.abs(local(x, nm, nv, None, None)[0]).max()
    info = (T, D, nm, nv, l, r)
    for name in ('normalize', 'normalize_cumsum', 'normalize_conv', 'normalize_slow'):
        y = ctx.pure(getattr(m, name), x)
        if low > 1e-4 or not nv:
            ctx.close(y, want, 'normalised features', rtol=tol, atol=tol * sc, info=(name,) + info)
    g = ctx.pure(m.normalize_global, x)
    ctx.close(g, local(x, nm, nv, None, None)[0], 'globally normalised features', rtol=1e-6, atol=1e-7 * sc)
    if nm and nv:
        # changes of scale and offset of the channel disappear
        a, b = 10 ** ctx.rng.uniform(-1, 1, size=D), ctx.rng.randn(D) * 5
        if low > 1e-4:
            ctx.close(m.normalize(x * a + b), want, 'features of another channel', rtol=10 * tol, atol=10 * tol * sc, info=info)
    f = MVN.filter_args(no_norm_mean=not nm, norm_var=nv, left_context=l, right_context=r, other=1)
    ctx.same(f, dict(norm_mean=nm, norm_var=nv, left_context=l, right_context=r), 'options of the normalisation')
    ctx.event('frames', T)
    ctx.sig(T, D, nm, nv, l, r)
    ctx.sample(frames=T, mean=nm, var=nv, left=str(l), right=str(r))


@case(quick=300, mult=12)
def selection(ctx):
    from hyperion.feats import FrameSelector
    n, tol = ctx.size(1, 40, 3000), ctx.int(0, 5)
    d = ctx.int(-7, 7)
    m = max(1, n + d)
    x = ctx.rng.randn(n, ctx.int(1, 4))
    v = ctx.rng.rand(m) < ctx.pick([0, .5, .5, .9, 1])
    f = FrameSelector(tol) if ctx.flip(.8) else FrameSelector(**FrameSelector.filter_args(tol_num_frames=tol, unknown=3))
    if abs(m - n) > tol:
        ctx.raises(lambda: f.select(x, v), 'numbers of frames that differ beyond the tolerance taken', n, m, tol)
    else:
        k = min(n, m)
        u = v.astype(ctx.pick(['bool', 'bool', 'int64', 'uint8', 'float32', 'float64']))
        ctx.same(ctx.pure(f.select, x, u), x[:k][v[:k]], 'selected frames', n, m, tol, u.dtype)
    if abs(m - n) > 3:
        ctx.raises(lambda: FrameSelector().select(x, v), 'default tolerance')
    ctx.event('frames', n)
    ctx.sig(n, m, tol)


def vad_of(e, scale, thr, con, prop):
    """mask and how far it is from a change"""
    t = thr + scale * e.mean()
    b = e > t
    safe = np.abs(e - t).min() > 1e-6 * (1 + abs(t))
    if con:
        n = len(b)
        r = np.array([b[max(0, i - con):i + con + 1].mean() for i in range(n)])
        return r > prop, safe and np.abs(r - prop).min() > 1e-9
    return b, safe


def config(ctx):
    return dict(vad_energy_mean_scale=ctx.pick([.5, 0, 1., .8]), vad_energy_threshold=ctx.pick([5, 0, -.5, 2]),
                vad_frames_context=ctx.pick([0, 0, 1, 2, 5, 20]), vad_proportion_threshold=ctx.pick([.6, .3, .12, .85]))


@case(quick=300, mult=12)
def energy_vad(ctx):
    from hyperion.feats import EnergyVAD
    c = config(ctx)
    v = EnergyVAD(dither=0, **c)
    e = ctx.rng.randn(ctx.size(1, 60, 3000)) * 3 + ctx.pick([0, 10])
    args = (c['vad_energy_mean_scale'], c['vad_energy_threshold'], c['vad_frames_context'], c['vad_proportion_threshold'])
    want, safe = vad_of(e, *args)
    f = np.hstack((e[:, None], ctx.rng.randn(len(e), 2)))
    got = ctx.pure(v.compute, f)
    if safe:
        ctx.same(np.asarray(got), want, 'vad from features', str(c), len(e))
    # from the waveform
    fs, L, S = ctx.pick([(8000, 200, 80), (16000, 400, 160), (8000, 256, 120)])
    w = dict(fs=fs, frame_length=L * 1000 // fs, frame_shift=S * 1000 // fs, snip_edges=ctx.flip())
    x = signal(ctx, ctx.size(L + S, L + 30 * S, L + 1500 * S)) + 1e-3 * ctx.rng.randn(1)
    x = x * (1 + 30 * (np.arange(len(x)) // (5 * S) % 2))
    v = EnergyVAD(dither=0, **dict(c, **w))
    y = x
    if not w['snip_edges']:
        n = int(np.round(len(x) / float(S)))
        d, a = (n - 1) * S + L - len(x), (L - S) // 2
        y = np.pad(x, (a, max(d - a, 0)), mode='reflect')
    e = np.log(np.sum(frames(lfilter([1, -1], [1, -.999], y), L, S) ** 2, 1) + 1e-15)
    want, safe = vad_of(e, *args)
    got, ge = ctx.pure(v.compute, x, return_loge=True)
    ctx.close(ge, e, 'log-energy', rtol=1e-6, atol=1e-6)
    if safe:
        ctx.same(np.asarray(got), want, 'vad from the waveform', str(c), str(w))
        v.reset()
        ctx.same(np.asarray(v.compute(x)), want, 'vad after a reset')
    d = EnergyVAD(dither=1, **dict(c, **w))
    p = d.compute(x)
    d.reset()
    ctx.same(d.compute(x), p, 'vad of the same signal differs')
    # dither is noise of the given amplitude, repeated for the same length
    z = np.zeros(len(x))
    le = [EnergyVAD(dither=a, **dict(c, **w)).compute(z, return_loge=True)[1] for a in (1, 4)]
    ctx.close(le[1], le[0] + 2 * np.log(4), 'energy of the dither', rtol=1e-6, atol=1e-6)
    ctx.check(.5 * L < np.exp(np.median(le[0])) < 2 * L, 'amplitude of the dither', le[0])
    ctx.close(EnergyVAD(**dict(c, **w)).compute(z, return_loge=True)[1], le[0], 'default dither')
    o = dict(c, fs=fs, dither=0, frame_length=20, frame_shift=10, snip_edges=False)
    ctx.same(EnergyVAD.filter_args(other=3, **o), o, 'options of the vad')
    ctx.event('frames', len(e))
    ctx.sig(len(e), str(c), fs)
    ctx.sample(config=str(c), frames=len(e))


@case(quick=6, mult=8)
def program(ctx):
    import soundfile as sf
    from hyperion.io import RandomAccessDataReaderFactory as RF
    repo = os.environ.get('VT_REPO', '/repo')
    c = config(ctx)
    n, X = ctx.int(1, 4), {}
    with open(ctx.path('wav.scp'), 'w') as f:
        for i in range(n):
            k = 'utt-%d' % i
            x = ctx.rng.randn(ctx.int(4000, 9000)) * 30
            x = (x * (1 + 30 * (np.arange(len(x)) // 1500 % 2))).astype('int16')
            sf.write(ctx.path(k + '.wav'), x, 8000)
            X[k] = x.astype(float)
            f.write('%s %s\n' % (k, ctx.path(k + '.wav')))
    args = sum([['--' + k.replace('_', '-'), str(v)] for k, v in c.items()], [])
    P = ctx.int(1, n)
    got = {}
    for p in range(1, P + 1):
        q = subprocess.run([sys.executable, os.path.join(repo, 'hyperion/bin/compute-energy-vad.py'), '--input', ctx.path('wav.scp'), '--output',
                            'ark,scp:%s,%s' % (ctx.path('v.ark'), ctx.path('v.scp')), '--sample-frequency', '8000', '--dither', '0',
                            '--part-idx', str(p), '--num-parts', str(P)] + args,
                           env=dict(os.environ, PYTHONPATH=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=ctx.tmp)
        if not ctx.check(q.returncode == 0, 'program failed', q.stdout.decode(errors='replace')[-1500:]):
            return
        ks = [l.split()[0] for l in open(ctx.path('v.scp'))]
        for k, v in zip(ks, RF.create('scp:' + ctx.path('v.scp')).read(ks)):
            ctx.check(k not in got, 'recording in two parts', k)
            got[k] = np.asarray(v)
    ctx.same(sorted(got), sorted(X), 'recordings with vad')
    for k, x in X.items():
        e = np.log(np.sum(frames(lfilter([1, -1], [1, -.999], x), 200, 80) ** 2, 1) + 1e-15)
        want, safe = vad_of(e, c['vad_energy_mean_scale'], c['vad_energy_threshold'], c['vad_frames_context'], c['vad_proportion_threshold'])
        if safe:
            ctx.same(got[k].astype(float), want.astype(float), 'vad of the program', k, str(c))
    ctx.event('recordings', n)
    ctx.sig(n, P, str(c))
