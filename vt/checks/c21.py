"""C21 short-time Fourier transforms and windows"""
import numpy as np
import scipy.signal as sg

from ..core import case


def signal(ctx, n):
    t = np.arange(n)
    x = ctx.pick([lambda: ctx.rng.randn(n), lambda: np.sin(t * ctx.rng.uniform(.01, 3)), lambda: ctx.rng.randn(n) + np.cos(t * .3) * 5,
                  lambda: (t == ctx.rng.randint(n)) * 1., lambda: np.cumsum(ctx.rng.randn(n)) * .1])()
    return x * ctx.pick([1., 1e-3, 3e4])


def frames(x, L, S):
    n = (len(x) - L) // S + 1
    return np.array([x[i * S:i * S + L] for i in range(n)]).reshape(n, L)


@case(quick=400, mult=12)
def transforms(ctx):
    from hyperion.feats.stft import stft, istft, strft, istrft, st_logE
    N = ctx.pick([8, 16, 64, 128, 256] + [2048] * ctx.flip(.1))
    L = ctx.int(max(2, N // 3), N)
    S = ctx.int(1, L) if ctx.flip(.85) else L + ctx.int(1, 5)
    x = signal(ctx, L + S * ctx.size(0, 12, 2000) + ctx.int(0, S - 1))
    w = None
    if ctx.flip(.7):
        w = ctx.pick([lambda: sg.windows.hamming(L), lambda: sg.windows.hann(L + 2)[1:-1], lambda: ctx.rng.uniform(.1, 1, L)])()
    F = frames(x, L, S)
    W = np.ones(L) if w is None else w
    sc = np.abs(x).max() + 1e-30
    full = np.fft.fft(F * W, n=N, axis=1)
    X = ctx.pure(stft, x, L, S, N, w)
    ctx.close(X, full, 'short-time transform', rtol=1e-5, atol=1e-5 * sc * np.sqrt(N), info=(L, S, N))
    R = ctx.pure(strft, x, L, S, N, w)
    ctx.close(R, full[:, :N // 2 + 1], 'short-time transform of a real signal', rtol=1e-5, atol=1e-5 * sc * np.sqrt(N))
    # inverse
    n = (len(F) - 1) * S + L
    ws = np.zeros(n)
    for i in range(len(F)):
        ws[i * S:i * S + L] += W
    ok = ws > .1
    weak = (ws > 1e-3) & ~ok
    for f, Y in ((istft, X), (istrft, R)):
        y = ctx.pure(f, Y, L, S, w)
        ctx.same(len(y), n, 'length of the inverse')
        ctx.close(np.real(y)[ok], x[:n][ok], 'inverse transform', rtol=1e-4, atol=1e-4 * sc, info=(f.__name__, L, S, N))
        ctx.check(np.all(np.abs(np.real(y) - x[:n])[weak] * ws[weak] <= 1e-5 * sc), 'inverse where the window is small', f.__name__, L, S, N)
        ctx.close(np.imag(y)[ok], 0 * x[:n][ok], 'inverse of a real signal is real', atol=1e-4 * sc)
        ctx.close(np.real(y)[ws == 0], np.zeros(np.sum(ws == 0)), 'samples that no frame covers', atol=1e-6 * sc)
    e = ctx.pure(st_logE, x, L, S)
    ctx.close(e, np.log(np.sum(F ** 2, 1) + 1e-15), 'log-energy of the frames', rtol=1e-6, atol=1e-6)
    if ctx.flip(.3):        # samples as they come in a file
        xi = np.round(x / max(1e-9, np.abs(x).max()) * ctx.pick([20, 3000, 32000])).astype('int16')
        ctx.close(ctx.pure(st_logE, xi, L, S), np.log(np.sum(frames(xi.astype(float), L, S) ** 2, 1) + 1e-15),
                  'log-energy of the frames of samples of 16 bits', rtol=1e-6, atol=1e-6)
    # modified spectra go back as the weighted sum of the frames
    G = ctx.rng.randn(*R.shape) * (np.arange(N // 2 + 1) < N // 3)
    y = istrft(R * G, L, S, w)
    fr = np.fft.irfft(full[:, :N // 2 + 1] * G, n=N, axis=1)[:, :L]
    z = np.zeros(n)
    for i in range(len(F)):
        z[i * S:i * S + L] += fr[i]
    ctx.close(y[ok], (z / np.where(ws == 0, 1, ws))[ok], 'overlap and add', rtol=1e-3, atol=1e-3 * sc)
    ctx.event('frames', len(F))
    ctx.sig(N, L, S, w is None, len(F))
    ctx.sample(fft=N, length=L, shift=S, frames=len(F))


@case(quick=60, mult=10)
def windows(ctx):
    from hyperion.feats import FeatureWindowFactory as FWF
    N = ctx.int(2, 600)
    sym = ctx.flip()
    for t, f in (('hamming', sg.windows.hamming), ('hanning', sg.windows.hann), ('blackman', sg.windows.blackman)):
        ctx.close(FWF.create(t, N, sym), f(N, sym), 'window ' + t, atol=1e-9)
        ctx.close(FWF.create(t, N), f(N, False), 'default window ' + t, atol=1e-9)
    ctx.close(FWF.create('rectangular', N), np.ones(N), 'rectangular window')
    p = FWF.create('povey', N)
    h = [(.5 - .5 * np.cos(2 * np.pi * np.arange(N) / d)) ** .85 for d in (N, N - 1)]
    ctx.check(any(np.allclose(p, q, atol=1e-9) for q in h), 'povey window', N)
    ctx.raises(lambda: FWF.create(ctx.pick(['', 'Povey', 'triangular']), N), 'unknown window taken')
    ctx.event('windows', 5)
    ctx.sig(N, sym)
