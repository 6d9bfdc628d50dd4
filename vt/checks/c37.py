"""C37 converters of formats and tools of features keep every record: its name, its values and, for decisions in frames, its times"""
import os

import h5py
import numpy as np

from ..core import case
from ..tool import tool
from .c33 import write_list
from .c36 import look_scores, store


def kaldi_bytes(x, kind):
    """one record after its key, in the formats of Kaldi"""
    if kind == 'text':
        rows = [' '.join('%.6g' % v for v in r) for r in np.atleast_2d(x)]
        return (' [\n  ' + '\n  '.join(rows) + ' ]\n').encode()
    t = b'F' if x.dtype == np.float32 else b'D'
    if x.ndim == 1:
        return b'\0B' + t + b'V \4' + np.int32(len(x)).tobytes() + x.tobytes()
    return b'\0B' + t + b'M \4' + np.int32(x.shape[0]).tobytes() + b'\4' + np.int32(x.shape[1]).tobytes() + x.tobytes()


def kaldi_files(ctx, data, kind):
    """records in one or several ark files with the list that points at them"""
    dirs = ctx.flip()
    base = ctx.path('base')
    os.makedirs(base)
    paths = [os.path.join(base, '%d.ark' % i) for i in range(ctx.int(1, 3))]
    fs = [open(v, 'wb') for v in paths]
    lines = []
    for k, x in data.items():
        i = ctx.int(0, len(fs) - 1)
        fs[i].write((k + ' ').encode() if kind != 'text' else k.encode())
        lines.append('%s %s:%d\n' % (k, os.path.basename(paths[i]) if dirs else paths[i], fs[i].tell()))
        fs[i].write(kaldi_bytes(x, kind))
    for q in fs:
        q.close()
    s = ctx.path('in.scp')
    open(s, 'w').writelines(lines)
    return s, base if dirs else None


def intervals(v):
    out, s = [], 0
    for i in range(1, len(v) + 1):
        if i == len(v) or v[i] != v[s]:
            out.append((s, i, 'speech' if v[s] else 'non-speech'))
            s = i
    return out


@case(quick=100, mult=10)
def converters(ctx):
    """converters of formats keep every record: Kaldi archives, frame decisions as time intervals, merged files and tables of scores"""
    from hyperion.io import HypDataWriter
    from hyperion.utils.trial_scores import TrialScores
    kind = ctx.pick(['ark2hyp', 'ark2hyp', 'arkvad2nist', 'h5vad2nist', 'merge-h5-files', 'vectors2scores', 'scores2lre_format', 'scores2lre_format'])
    n = ctx.int(1, 9)
    slash = ['q/'] if kind in ('ark2hyp', 'merge-h5-files', 'vectors2scores') else []
    names = ['%s%d' % (ctx.pick(['a', 'b-', 'z.'] + slash), i) for i in ctx.rng.permutation(50)[:n]]
    if kind == 'ark2hyp':
        enc = ctx.pick(['bin', 'bin', 'text'])
        d, dt = ctx.int(1, 4), ctx.pick(['float32', 'float64'])
        shape = (lambda: (ctx.int(1, 6), d)) if enc == 'text' or ctx.flip() else (lambda: (d,))
        data = {k: ctx.rng.randn(*shape()).astype(dt) for k in names}
        s, base = kaldi_files(ctx, data, enc)
        out = ctx.path(ctx.pick(['o.h5', 'new/dir/o.h5']))
        field, sq = ctx.pick(['', '', '/x', '.v']), ctx.flip(.4)
        here = 'new' not in out and ctx.flip(.3)
        tool(ctx, kind, ctx.tmp if here else None, input_file=s, input_dir=base, output_file='o.h5' if here else out,
             squeeze=sq, **dict({'field': field} if field else {}, **({'chunk-size': ctx.int(1, n + 2)} if ctx.flip() else {})))
        with h5py.File(out, 'r') as f:
            found = []
            f.visititems(lambda k, v: found.append(k) if isinstance(v, h5py.Dataset) else None)
            ctx.same(sorted(found), sorted(k + field for k in names), 'records of the file')
            for k, x in data.items():
                ctx.close(f[k + field][()], np.squeeze(x) if sq else x, 'record', rtol=1e-5, atol=1e-5)
    elif kind in ('arkvad2nist', 'h5vad2nist'):
        data = {k: (np.cumsum(ctx.rng.rand(ctx.int(1, 400)) < ctx.pick([.02, .5, 0.])) % 2).astype('float32') for k in names}
        for k in names:
            if ctx.flip():
                data[k] = 1 - data[k]
        out = ctx.path(ctx.pick(['vad', 'new/vad']))
        if kind == 'arkvad2nist':
            s, base = kaldi_files(ctx, data, 'bin')
            tool(ctx, kind, None, input_file=s, input_dir=base, output_dir=out)
        else:
            w = HypDataWriter(ctx.path('v.h5'))
            w.write(names, '', list(data.values()))
            w.f.close()
            tool(ctx, kind, None, input_file=ctx.path('v.h5'), output_dir=out)
        ctx.same(sorted(os.listdir(out)), sorted(k + '.txt' for k in names), 'files of intervals')
        for k, v in data.items():
            rows = [l.rstrip('\n').split('\t') for l in open(os.path.join(out, k + '.txt'))]
            ctx.same(rows, [['X', 'X', 'X', 'SAD', k, '%.2f' % (a * .01), '%.2f' % (b * .01), t, '1.00'] for a, b, t in intervals(v)], 'intervals', k)
            ctx.event('intervals', len(rows))
    elif kind == 'merge-h5-files':
        data = {k: ctx.rng.randn(*[ctx.int(1, 4) for i in range(ctx.int(1, 2))]).astype('float32') for k in names}
        groups = [names[i::3] for i in range(3)]
        groups = [v for v in groups if v]
        files = []
        for i, v in enumerate(groups):
            files.append(ctx.path('in%d.h5' % i))
            w = HypDataWriter(files[-1])
            w.write(v, '', [data[k] for k in v])
            w.f.close()
        out = ctx.path('all.h5')
        tool(ctx, kind, None, input_files=files, output_path=out, **({'chunk-size': ctx.int(1, n + 1)} if ctx.flip() else {}))
        with h5py.File(out, 'r') as f:
            found = []
            f.visititems(lambda k, v: found.append(k) if isinstance(v, h5py.Dataset) else None)
            ctx.same(sorted(found), sorted(names), 'records of the merged file')
            for k, x in data.items():
                ctx.close(f[k][()], x, 'merged record', rtol=1e-6, atol=1e-6)
    elif kind == 'vectors2scores':
        K = ctx.int(2, 5)
        classes = [str(v) for v in ctx.rng.permutation(['b', 'a', 'C', 'd', 'c2'])[:K]]
        v = ctx.rng.randn(n, K).astype('float32')
        src = store(ctx, names, v)
        cf = write_list(ctx.path('c'), [(k, str(i)) if ctx.flip() else (k,) for i, k in enumerate(classes)], ' ')
        out = ctx.path(ctx.pick(['o.h5', 'o.txt']))
        if src.startswith('h5:'):               # sequential reading in the order of the file
            at = sorted(range(n), key=lambda i: names[i].split('/'))
            v, names = v[at], [names[i] for i in at]
        tool(ctx, kind, None, input_file=src, output_file=out, class_file=cf)
        look_scores(ctx, out, classes, names, v.T, kind, rtol=1e-4, atol=1e-4)
    else:
        m = ctx.int(1, 5)
        models = ['c%d' % i for i in ctx.rng.permutation(9)[:m]]
        v = ctx.rng.randn(m, n) * 3
        mask = ctx.rng.rand(m, n) < ctx.pick([1.1, .8])
        f = ctx.path('s.h5')
        TrialScores(models, names, np.where(mask, v, 0), mask).save(f)
        v = np.where(mask, v, -100)
        o, rows, cols = {}, list(names), list(models)
        ext = dict.fromkeys(rows, '')
        if ctx.flip(.7):
            rows = [str(k) for k in ctx.rng.permutation(rows + ['n%d' % i for i in range(ctx.int(0, 2))])][:ctx.int(1, n)]
            if ctx.flip() and not any('.' in k for k in rows):
                ext = {k: ctx.pick(['.wav', '.sph', '']) for k in rows}
                o['add-ext'] = True
            else:
                ext = dict.fromkeys(rows, '')
            o['test-list'] = ctx.path('tl')
            with open(o['test-list'], 'w') as q:
                q.write('segmentid\n' if ctx.flip() else '')
                for k in rows:
                    q.write('%s%s%s\n' % (k, ext[k], ctx.pick(['', ' x y'])))
        if ctx.flip(.7):
            cols = [str(k) for k in ctx.rng.permutation(cols + ['new%d' % i for i in range(ctx.int(0, 2))])][:ctx.int(1, m)]
            o['class-file'] = write_list(ctx.path('c'), [(k, '0') if ctx.flip() else (k,) for k in cols], ' ')
        out = ctx.path('o.tsv')
        tool(ctx, kind, None, input_file=f, output_file=out, **o)
        t = [l.rstrip('\n').split('\t') for l in open(out)]
        ctx.same(t[0][0], 'segmentid', 'heading of the table')
        if 'class-file' in o:
            ctx.same(t[0][1:], cols, 'classes of the table')
        else:
            ctx.same(sorted(t[0][1:]), sorted(cols), 'classes of the table')
        got = [r[0] for r in t[1:]]
        if 'test-list' in o:
            ctx.same(got, [k + ext[k] for k in rows], 'segments of the table')
        else:
            ctx.same(sorted(got), sorted(rows), 'segments of the table')
        back = {k + ext[k]: k for k in rows}
        for r in t[1:]:
            k = back[r[0]]
            want = [v[models.index(c), names.index(k)] if c in models and k in names else -100 for c in t[0][1:]]
            ctx.close(np.array(r[1:], float), want, 'scores of the table', rtol=1e-5, atol=1e-5)
            ctx.event('scores', len(want))
    ctx.sig(kind, n)
    ctx.sample(kind=kind, n=n)


@case(quick=100, mult=10)
def archives(ctx):
    """the reader of Kaldi archives: records by name, in sequence, from a position and to the end"""
    from hyperion.io import KaldiDataReader
    enc = ctx.pick(['bin', 'bin', 'text'])
    n, d = ctx.int(1, 9), ctx.int(1, 4)
    names = ['r%d' % i for i in ctx.rng.permutation(50)[:n]]
    dt = ctx.pick(['float32', 'float64'])
    data = {k: ctx.rng.randn(*((ctx.int(1, 6), d) if enc == 'text' or ctx.flip() else (ctx.int(1, 9),))).astype(dt) for k in names}
    s, base = kaldi_files(ctx, data, enc)
    r = KaldiDataReader(s, base) if base or ctx.flip() else KaldiDataReader(s)

    def look(got, keys, squeeze, how):
        x, k = got
        ctx.same(list(k), list(keys), 'names ' + how)
        ctx.same(len(x), len(keys), 'records ' + how)
        for a, b in zip(x, keys):
            w = np.squeeze(data[b]) if squeeze else data[b]
            ctx.close(a, w, 'record ' + how, rtol=1e-5, atol=1e-5)
        ctx.event('records', len(keys))
    pos = 0
    for _ in range(ctx.int(1, 8)):
        sq = ctx.flip(.3)
        kw = dict(squeeze=True) if sq else {}
        how = ctx.pick(['keys', 'some', 'rest', 'from', 'reset'])
        if how == 'keys':
            ks = [names[i] for i in ctx.rng.randint(0, n, ctx.int(1, 4))]
            look(r.read(keys=ks, **kw), ks, sq, how)
        elif how == 'some':
            m = ctx.int(1, n + 1)
            look(r.read(num_records=m, **kw), names[pos: pos + m], sq, how)
            pos = min(n, pos + m)
        elif how == 'rest':
            look(r.read(**kw), names[pos:], sq, how)
            pos = n
        elif how == 'from':
            f, m = ctx.int(0, n - 1), ctx.int(1, n)
            look(r.read(num_records=m, first_record=f, **kw), names[f: f + m], sq, how)
            pos = min(n, f + m)
        else:
            r.reset()
            pos = 0
        ctx.same(bool(r.eof()), pos == n, 'end of the archive')
    ctx.sig(enc, n, d, dt, base is None)


@case(quick=40, mult=8)
def features(ctx):
    """the tool of features writes those of the object for every recording, also when the extraction is divided into steps with files between them"""
    import soundfile as sf
    from hyperion.feats import MFCC
    from hyperion.io import RandomAccessDataReaderFactory as RF
    from .c22 import config
    c = config(ctx)
    n, X = ctx.int(1, 4), {}
    names = ['%s%d' % (ctx.pick(['utt-', 'a/', 'b.']), i) for i in ctx.rng.permutation(30)[:n]]
    with open(ctx.path('wav.scp'), 'w') as f:
        for i, k in enumerate(names):
            x = ctx.rng.randint(-3000, 3000, size=c['fs'] // 20 + ctx.int(0, 2000)).astype('int16')
            w = ctx.path('%d.%s' % (i, ctx.pick(['wav', 'flac'])))
            sf.write(w, x, c['fs'])
            X[k] = x.astype(float)
            f.write('%s %s\n' % (k, w if ctx.flip(.7) else 'cat %s |' % w))
    opt = dict(fs='sample-frequency', preemph_coeff='preemphasis-coeff')
    o = {opt.get(k, k.replace('_', '-')): v for k, v in c.items()}
    o = {k: str(v) for k, v in o.items()}
    way = ['wave'] + [s for s in ('fft_mag', 'log_spec', 'logfb') if ctx.flip(.4)] + ['cepstrum']
    if ctx.flip(.3) and len(way) > 2:
        way = way[:-1]
    if c['use_energy'] and c['raw_energy'] and len(way) > 2:        # the energy of the signal is known in its first step only
        o['raw-energy'] = 'False'
        c['raw_energy'] = False
    if len(way) > 2:
        o['use-energy'] = 'False'
        c['use_energy'] = False
    src, last = ctx.path('wav.scp'), len(way) - 2
    for i in range(len(way) - 1):
        h5 = ctx.flip(.4)
        out = 'h5:' + ctx.path('f%d.h5' % i) if h5 else 'ark,scp:%s,%s' % (ctx.path('f%d.ark' % i), ctx.path('f%d.scp' % i))
        e = dict(o, **{'input-step': way[i], 'output-step': way[i + 1]})
        if way[i] == 'wave' and ctx.flip():
            del e['input-step']
        nf = ctx.path('nf') if i == last else None
        tool(ctx, 'compute-mfcc-feats', None, input=src, output=out, write_num_frames=nf, **e)
        src = out if h5 else ctx.pick(['scp:' + ctx.path('f%d.scp' % i), 'ark:' + ctx.path('f%d.ark' % i)])
    rows = [l.split() for l in open(ctx.path('nf'))]
    ctx.same(sorted(r[0] for r in rows), sorted(names), 'recordings with a number of frames')
    got = RF.create(out if h5 else 'scp:' + ctx.path('f%d.scp' % last)).read(names)
    nf = dict(rows)
    for k, g in zip(names, got):
        want = MFCC(**dict(c, output_step=way[-1])).compute(X[k])
        ctx.same((g.shape, int(nf[k])), (want.shape, len(want)), 'size of the features', k)
        big = np.max(np.abs(want))
        ctx.close(g, want, 'features of the tool', rtol=1e-3, atol=2e-3 * (1 + big) if way[-1] in ('logfb', 'cepstrum') else 1e-3 * (1 + big), info=way)
    ctx.event('recordings', n)
    ctx.sig(n, tuple(way), h5)
    ctx.sample(way=way, n=n)


@case(quick=40, mult=8)
def decisions(ctx):
    """tools that decide on frames: scale of the signal, parts of the list, reference segments as decisions"""
    import soundfile as sf
    from hyperion.feats import EnergyVAD
    from hyperion.io import RandomAccessDataReaderFactory as RF
    c = dict(fs=8000, dither=0., vad_energy_mean_scale=ctx.pick([.5, .2]), vad_energy_threshold=ctx.pick([5., 8.]), vad_frames_context=ctx.int(0, 3),
             vad_proportion_threshold=ctx.pick([.6, .3]), snip_edges=ctx.flip(), frame_length=ctx.pick([25, 20]), frame_shift=ctx.pick([10, 12]))
    n, X = ctx.int(1, 5), {}
    with open(ctx.path('wav.scp'), 'w') as f:
        for i in range(n):
            k = 'utt-%d' % i
            x = ctx.rng.randn(ctx.int(4000, 9000)) * 30
            x = (x * (1 + 30 * (np.arange(len(x)) // 1500 % 2))).astype('int16')
            sf.write(ctx.path(k + '.wav'), x, 8000)
            X[k] = x.astype(float)
            f.write('%s %s\n' % (k, ctx.path(k + '.wav')))
    P, got = ctx.int(1, n), {}
    scale = ctx.pick([None, 2. ** 15, 1000., 1.])
    o = {k.replace('_', '-'): str(v) for k, v in c.items() if k != 'fs'}
    o['sample-frequency'] = 8000
    for p in range(1, P + 1):
        e = dict(o, **({} if P == 1 and ctx.flip() else {'part-idx': p, 'num-parts': P}))
        tool(ctx, 'compute-energy-vad', None, input=ctx.path('wav.scp'), wav_scale=scale,
             output='ark,scp:%s,%s' % (ctx.path('v%d.ark' % p), ctx.path('v%d.scp' % p)), **e)
        ks = [l.split()[0] for l in open(ctx.path('v%d.scp' % p))]
        for k, v in zip(ks, RF.create('scp:' + ctx.path('v%d.scp' % p)).read(ks)):
            ctx.check(k not in got, 'recording in two parts', k)
            got[k] = np.asarray(v)
    ctx.same(sorted(got), sorted(X), 'recordings with decisions')
    for k, x in X.items():
        x = x * ((scale or 2. ** 15) / 2 ** 15)
        want = EnergyVAD(**c).compute(x)
        ctx.same(got[k].astype(int).tolist(), want.astype(int).tolist(), 'decisions of the tool', k, scale)
        ctx.event('frames', len(want))
    ctx.sig(n, P, scale, str(c))
    ctx.sample(n=n, parts=P, scale=scale)
