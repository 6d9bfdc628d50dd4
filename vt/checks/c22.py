"""C22 filter banks and MFCC against a direct computation of each step"""
import os
import subprocess
import sys

import numpy as np
from scipy.fft import dct
from scipy.signal import lfilter

from ..core import case
from .c21 import frames, signal

STEPS = ['wave', 'fft', 'fft_mag', 'log_spec', 'logfb', 'cepstrum']


def mel(x):
    return 1127. * np.log(1 + x / 700.)


def imel(x):
    return 700. * (np.exp(x / 1127.) - 1)


def banks(kind, K, N, fs, lo, hi):
    """the acceptable filter banks"""
    hi = hi or fs / 2.
    if kind == 'mel_kaldi':
        c = np.linspace(mel(lo), mel(hi), K + 2)
        out = []
        for step in (fs / (N - 1.), fs / float(N)):
            m = mel(np.arange(N // 2 + 1) * step)[:, None]
            B = np.minimum((m - c[:-2]) / (c[1:-1] - c[:-2]), (c[2:] - m) / (c[2:] - c[1:-1]))
            B = np.maximum(B, 0)
            B[N // 2] = 0
            out.append(B)
        return out
    c = imel(np.linspace(mel(lo), mel(hi), K + 2)) if kind == 'mel_etsi' else np.linspace(lo, hi, K + 2)
    b = np.round(c / fs * N).astype(int)
    B = np.zeros((N // 2 + 1, K))
    for k in range(K):
        for j in range(b[k], b[k + 1] + 1):
            B[j, k] = (j - b[k] + 1.) / (b[k + 1] - b[k] + 1)
        for j in range(b[k + 1] + 1, b[k + 2] + 1):
            B[j, k] = (b[k + 2] - j + 1.) / (b[k + 2] - b[k + 1] + 1)
    return [B]


def config(ctx):
    fs = ctx.pick([8000, 16000])
    c = dict(fs=fs, frame_length=ctx.pick([20, 25, 32]), frame_shift=ctx.pick([8, 10, 12]), fft_length=ctx.pick([256, 512, 1024]),
             remove_dc_offset=ctx.flip(.6), preemph_coeff=ctx.pick([.97, .9, 0]), window_type=ctx.pick(
                 ['povey', 'hamming', 'hanning', 'blackman', 'rectangular']), use_fft2=ctx.flip(.6), dither=0,
             fb_type=ctx.pick(['mel_kaldi', 'mel_etsi', 'linear']), low_freq=ctx.pick([20, 100, 300, 0]), high_freq=ctx.pick([0, 3400, 3800]),
             num_filters=ctx.int(8, 30), norm_filters=ctx.flip(.3), snip_edges=ctx.flip(.6), energy_floor=ctx.pick([0, 0, 1e3]),
             raw_energy=ctx.flip(.6), use_energy=ctx.flip(.6), cepstral_lifter=ctx.pick([22, 0, 12]))
    c['num_ceps'] = ctx.int(3, c['num_filters'])
    n = fft(c)
    if any(np.any(b.sum(0) == 0) for b in banks(c['fb_type'], c['num_filters'], n, fs, c['low_freq'], c['high_freq'])):
        c['norm_filters'] = False
    return c


def fft(c):
    L = c['frame_length'] * c['fs'] // 1000
    n = c['fft_length']
    if L > n:
        n = 1
        while n < L:
            n *= 2
    return n


def steps(c, x, B, win):
    """every step of the extraction"""
    L, S, N = c['frame_length'] * c['fs'] // 1000, c['frame_shift'] * c['fs'] // 1000, fft(c)
    if not c['snip_edges']:
        n = int(np.round(len(x) / float(S)))
        d = (n - 1) * S + L - len(x)
        a = (L - S) // 2
        x = np.pad(x, (a, max(d - a, 0)), mode='reflect')
    if c['remove_dc_offset']:
        x = lfilter([1, -1], [1, -.999], x)
    e = np.log(np.sum(frames(x, L, S) ** 2, 1) + 1e-15)
    if c['preemph_coeff']:
        x = x - c['preemph_coeff'] * np.r_[0, x[:-1]]
    X = np.fft.rfft(frames(x, L, S) * win, n=N, axis=1)
    F = np.abs(X)
    if not c['raw_energy']:
        e = np.log(np.mean(F ** 2, 1) + 1e-10)
    e = np.maximum(e, np.log(c['energy_floor'] + 1e-15))
    if c['use_fft2']:
        F = F ** 2
    S_ = np.log(F + 1e-10)
    M = np.log(F.dot(B) + 1e-10)
    C = dct(M, type=2, norm='ortho', axis=1)[:, :c['num_ceps']]
    if c['cepstral_lifter']:
        C = C * (1 + .5 * c['cepstral_lifter'] * np.sin(np.pi * np.arange(c['num_ceps']) / c['cepstral_lifter']))
    out = dict(fft=X, fft_mag=F, log_spec=S_, logfb=M, cepstrum=C)
    if c['use_energy']:
        for k in out:
            y = out[k].copy()
            if k == 'logfb':
                y = np.hstack((e[:, None], y))
            else:
                y[:, 0] = e
            out[k] = y
    return out, dict(fft=X, fft_mag=F, logfb=M)


def near(ctx, got, want, k, label, info):
    """values of a step; spectra are single precision"""
    want = np.asarray(want)
    if k in ('fft', 'fft_mag'):
        ctx.close(got, want, label, rtol=1e-4, atol=1e-5 * (np.abs(want).max() + 1e-30), info=info)
    else:
        g = np.asarray(got)
        if ctx.check(g.shape == want.shape, label, g.shape, want.shape, info):
            ctx.check(np.all(np.abs(g - want) <= 5e-3 + 1e-4 * np.abs(want)) or np.mean(np.abs(g - want)) < 1e-3 and np.max(
                np.abs(g - want)) < 1., label, float(np.abs(g - want).max()), info)


@case(quick=250, mult=12)
def filter_banks(ctx):
    from hyperion.feats import FilterBankFactory as FBF
    fs, N, K = ctx.pick([8000, 16000, 22050]), ctx.pick([256, 512, 1024]), ctx.int(4, 40)
    lo, hi = ctx.pick([0, 20, 64, 300]), ctx.pick([0, 3000, 3700, fs / 2.])
    for t in ('mel_kaldi', 'mel_etsi', 'linear'):
        want = banks(t, K, N, fs, lo, hi)
        norm = ctx.flip(.4) and not any(np.any(b.sum(0) == 0) for b in want)
        B = np.asarray(FBF.create(t, K, N, fs, lo, hi, norm))
        if norm:
            want = [b / b.sum(0) for b in want]
            ctx.close(B.sum(0), np.ones(K), 'weights of a normalised filter')
        ctx.same(B.shape, (N // 2 + 1, K), 'size of the filter bank')
        ctx.check(np.all(B >= 0), 'negative weight')
        ctx.check(any(np.allclose(B, b, atol=1e-7) for b in want), 'filter bank ' + t, fs, N, K, lo, hi,
                  min(float(np.abs(B - b).max()) for b in want))
    f = ctx.rng.uniform(0, 8000, size=5)
    ctx.close(FBF.lin2mel(f), mel(f), 'mel scale')
    ctx.close(FBF.mel2lin(mel(f)), f, 'inverse mel scale')
    ctx.raises(lambda: FBF.create('mel', K, N, fs, lo, hi, False), 'unknown filter bank taken')
    ctx.event('filters', 3 * K)
    ctx.sig(fs, N, K, lo, hi)


@case(quick=250, mult=12)
def mfcc(ctx):
    from hyperion.feats import MFCC, FilterBankFactory as FBF, FeatureWindowFactory as FWF
    c = config(ctx)
    L, S = c['frame_length'] * c['fs'] // 1000, c['frame_shift'] * c['fs'] // 1000
    x = signal(ctx, ctx.size(L + S, L + 30 * S, L + 800 * S))
    x = x / (np.abs(x).max() + 1e-9) * ctx.pick([10., 300., 3e4])
    x = x + ctx.rng.randn(len(x)) * .01 * np.abs(x).max()
    B = FBF.create(c['fb_type'], c['num_filters'], fft(c), c['fs'], c['low_freq'], c['high_freq'], c['norm_filters'])
    out, raw = steps(c, x, B, FWF.create(c['window_type'], L))
    info = str(sorted(c.items()))
    got = {}
    for k in STEPS[1:]:
        m = MFCC(output_step=k, **c)
        ret = dict(return_fft=ctx.flip(.3), return_fft_mag=k != 'fft' and ctx.flip(.3), return_logfb=k in ('logfb', 'cepstrum') and ctx.flip(.3))
        r = ctx.pure(m.compute, x, **ret)
        extra = [n for n in ('fft', 'fft_mag', 'logfb') if ret['return_' + n]]
        if extra:
            ctx.same(len(r), 1 + len(extra), 'number of answers')
            for n, y in zip(extra, r[1:]):
                if n != k:
                    near(ctx, y, raw[n], n, 'extra answer ' + n, info)
            r = r[0]
        got[k] = np.array(r)
        ctx.same(len(got[k]), len(frames(x, L, S)) if c['snip_edges'] else int(np.round(len(x) / float(S))), 'number of frames')
        near(ctx, got[k], out[k], k, 'step ' + k, info)
        # the object starts again after a reset
        m.compute(signal(ctx, L + 2 * S))
        m.reset()
        y = m.compute(x)
        ctx.close(y, got[k], 'second file after a reset differs', rtol=1e-6, atol=1e-9)
    # continuing from an intermediate step gives the same
    if B[0].max() == 0 or not c['use_energy']:
        for a in STEPS[1:5]:
            b = ctx.pick(STEPS[STEPS.index(a):][:6])
            y = ctx.pure(MFCC(input_step=a, output_step=b, **c).compute, got[a].copy())
            if b == 'fft':
                y[:, 0] = got[b][:, 0] = 0
            near(ctx, y, got[b], b, 'continuing from %s to %s' % (a, b), info)
    ctx.event('frames', 5 * len(got['fft']))
    ctx.sig(c['fb_type'], c['window_type'], c['snip_edges'], c['use_energy'], c['raw_energy'], c['remove_dc_offset'], c['preemph_coeff'])
    ctx.sample(config=info)


@case(quick=30, mult=10)
def dither(ctx):
    """dither: noise of the size asked for, the same for the same signal"""
    from hyperion.feats import MFCC
    kw = dict(fs=8000, fft_length=256, remove_dc_offset=False, preemph_coeff=0, window_type='rectangular', use_energy=False,
              output_step='fft')
    n = ctx.int(2000, 6000)
    x = signal(ctx, n)
    d = 10. ** ctx.int(-2, 2)
    z = np.zeros(n)
    a = MFCC(dither=d, **kw).compute(z)
    p = np.mean(np.abs(a) ** 2) / 200          # mean energy of a sample of a frame
    ctx.check(.7 * d * d < p < 1.4 * d * d, 'size of the dither', p, d)
    b = MFCC(dither=3 * d, **kw).compute(z)
    ctx.close(b, 3 * a, 'dither is not proportional', rtol=1e-4, atol=1e-4 * d)
    s = max(np.abs(x).max(), d) * 16
    ctx.close(ctx.pure(MFCC(dither=d, **kw).compute, x) - MFCC(dither=0, **kw).compute(x), a, 'dither is not added', rtol=1e-3, atol=1e-4 * s)
    ctx.same(MFCC(dither=d, **kw).compute(x), MFCC(dither=d, **kw).compute(x), 'features of the same signal differ')
    ctx.event('samples', n)
    ctx.sig(n, d)


@case(quick=8, mult=8)
def program(ctx):
    """the program writes what the object computes, one record per recording or feature matrix"""
    import soundfile as sf
    from hyperion.feats import MFCC
    from hyperion.io import RandomAccessDataReaderFactory as RF
    repo = os.environ.get('VT_REPO', '/repo')
    c = config(ctx)
    c['dither'] = ctx.pick([0, 1])
    c['output_step'] = ctx.pick(['logfb', 'cepstrum', 'fft_mag'])
    n = ctx.int(1, 4)
    X = {}
    with open(ctx.path('wav.scp'), 'w') as f:
        for i in range(n):
            k = 'utt-%d' % i
            x = ctx.rng.randint(-3000, 3000, size=c['fs'] // 20 + ctx.int(0, 3000)).astype('int16')
            sf.write(ctx.path(k + '.wav'), x, c['fs'])
            X[k] = x.astype(float)
            f.write('%s %s\n' % (k, ctx.path(k + '.wav')))
    P = ctx.int(1, n)
    opt = dict(fs='sample-frequency', preemph_coeff='preemphasis-coeff')
    args = sum([['--' + opt.get(k, k.replace('_', '-')), str(v)] for k, v in c.items()], [])
    got, nf = {}, {}
    comp = ctx.flip(.3)
    for p in range(1, P + 1):
        h5 = ctx.flip(.3)
        o = 'h5:' + ctx.path('f%d.h5' % p) if h5 else 'ark,scp:%s,%s' % (ctx.path('f%d.ark' % p), ctx.path('f%d.scp' % p))
        q = subprocess.run([sys.executable, os.path.join(repo, 'hyperion/bin/compute-mfcc-feats.py'), '--input', ctx.path('wav.scp'), '--output', o,
                            '--write-num-frames', ctx.path('nf'), '--part-idx', str(p), '--num-parts', str(P)] + args + (
                                ['--compress'] if comp else []),
                           env=dict(os.environ, PYTHONPATH=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=ctx.tmp)
        if not ctx.check(q.returncode == 0, 'program failed', q.stdout.decode(errors='replace')[-1500:]):
            return
        part = [l.split() for l in open(ctx.path('nf'))]
        for k, v in zip([l[0] for l in part], RF.create(o if h5 else 'scp:' + ctx.path('f%d.scp' % p)).read([l[0] for l in part])):
            ctx.check(k not in got, 'recording in two parts', k)
            got[k] = np.asarray(v)
        nf.update({a: int(b) for a, b in part})
    ctx.same(sorted(got), sorted(X), 'recordings with features')
    for k, x in X.items():
        want = MFCC(**c).compute(x)
        ctx.same((got[k].shape, nf[k]), (want.shape, len(want)), 'size of the features', k)
        if comp:
            r = want.max() - want.min() + 1e-9
            ctx.check(np.abs(got[k] - want).max() <= .02 * r, 'compressed features', float(np.abs(got[k] - want).max()), r)
        else:
            ctx.close(got[k], want, 'features of the program', rtol=1e-4, atol=1e-4 * (1 + np.abs(want).max()), info=k)
    ctx.event('recordings', n)
    ctx.sig(n, P, comp, c['output_step'])
