"""C01 archives give back what was written"""
import os
import struct

import numpy as np

from ..core import case
from ..iolib import *
from .c05 import decode


def order(c, keys, arrays, via):
    if c['h5'] and via == 'arch':
        idx = sorted(range(len(keys)), key=lambda i: keys[i].split('/'))
        return [keys[i] for i in idx], [arrays[i] for i in idx]
    return keys, arrays


def read_back(ctx, c, s, keys, arrays, sep, tag):
    from hyperion.io import SequentialDataReaderFactory as SF, RandomAccessDataReaderFactory as RF
    for via in ('arch', 'scp'):
        if via == 'scp' and s['scp'] is None:
            continue
        spec = s[via + '_spec']
        wk, wa = order(c, keys, arrays, via)
        mode = ctx.int(0, 2)
        with SF.create(spec, scp_sep=sep) as r:
            if mode == 0:
                gk, gd = r.read()
            elif mode == 1:
                gk, gd = [], []
                for k, d in r:
                    gk.append(k)
                    gd.append(d)
            else:
                gk, gd = [], []
                while not r.eof():
                    k, d = r.read(ctx.int(1, 5))
                    gk += list(k)
                    gd += list(d)
                    if not k:
                        break
        ctx.check(not open_files(ctx), 'a closed reader holds a file', open_files(ctx))
        ctx.event('sequential-' + via)
        ctx.same(list(gk), list(wk), 'keys:%s:%s' % (tag, via), c['kind'])
        ctx.check(len(gd) == len(wk), 'count:' + via)
        for k, g, w in zip(gk, gd, wa):
            compare(ctx, c, g, w, 'values:%s:%s' % (tag, via), k)
    # by key
    if c['h5'] or s['scp'] is not None:
        via = 'scp' if s['scp'] is not None and (not c['h5'] or ctx.flip()) else 'arch'
        with RF.create(s[via + '_spec'], scp_sep=sep) as r:
            perm = [int(i) for i in ctx.rng.permutation(len(keys))]
            perm += [ctx.int(0, len(keys) - 1) for _ in range(2)]
            gd = r.read([keys[i] for i in perm])
            ctx.check(len(gd) == len(perm), 'random-count')
            for i, g in zip(perm, gd):
                compare(ctx, c, g, arrays[i], 'values:%s:random-%s' % (tag, via), keys[i])
            i = perm[0]
            one = r.read(keys[i])
            compare(ctx, c, one[0], arrays[i], 'values:%s:random-one' % tag, keys[i])
        ctx.check(not open_files(ctx), 'a closed reader holds a file', open_files(ctx))
        ctx.event('random-' + via)


@case(quick=260, mult=10)
def roundtrip(ctx):
    """tables of any format, written in batches, read in sequence, chunks, by iteration and by key, from the archive and the script"""
    c = container(ctx)
    sep = ctx.pick([' ', ' ', ' ', '=', ','])
    keys, arrays, ndim = gen_table(ctx, c, same_dim=ctx.flip(.6), sep=sep)
    if ctx.flip(.08):       # masks, counts and other types of numbers
        t = ctx.pick(['int64', 'int32', 'int16', 'uint8', 'float16', '>f4', '>f8', '>i4'] + ['bool'] * (not c['compress']))
        arrays = [np.clip(np.round(a), 0, ctx.pick([1, 100])).astype(t) for a in arrays]
        ctx.event('other types of numbers')
    script = ctx.flip(.8)
    ctx.tmp
    s = write_table(ctx, c, keys, arrays, script=script, sep=sep)
    ctx.sig(c['kind'], c['method'], len(keys) > 1, ndim, script, sep, len({a.shape for a in arrays}) > 1)
    ctx.sample(container=c['kind'], method=str(c['method']), keys=keys[:4], shapes=str([a.shape for a in arrays[:4]]))
    read_back(ctx, c, s, keys, arrays, sep, c['kind'])


@case(quick=40, mult=10)
def special_values(ctx):
    """extreme, signed-zero, denormal and non-finite values and empty matrices in the exact formats"""
    c = container(ctx, ['ark', 'h5'])
    n = ctx.int(1, 5)
    keys = gen_keys(ctx, n, c['h5'])
    pool = np.array([0., -0., 1e-38, -3e38, 3.4028235e38, 1e-45, np.inf, -np.inf, np.nan, 1, -1, 2 ** 24 + 1.],
                    dtype='float32')
    arrays = []
    for i in range(n):
        shape = ctx.pick([(ctx.int(1, 4), ctx.int(1, 4)), (ctx.int(1, 5),), (1, 1), (0, 3)])
        a = pool[ctx.rng.randint(len(pool), size=shape)].astype(ctx.pick(['float32', 'float64']))
        arrays.append(a)
    ctx.sig(c['kind'], tuple(sorted({a.shape for a in arrays}))[:2])
    ctx.tmp
    s = write_table(ctx, c, keys, arrays)
    read_back(ctx, c, s, keys, arrays, ' ', 'special')


@case(quick=60, mult=8)
def empty_in_text(ctx):
    """a text archive has no place for the number of columns of a matrix without rows; it is read as empty, and so are its neighbours as they are"""
    from hyperion.io import SequentialDataReaderFactory as SF, RandomAccessDataReaderFactory as RF
    c = container(ctx, ['text'])
    n = ctx.int(1, 5)
    keys = gen_keys(ctx, n, False)
    arrays = [np.zeros(ctx.pick([(0, 3), (0, 1), (0,)])) if ctx.flip(.4) else np.round(ctx.rng.randn(*ctx.pick([(2, 3), (1, 4), (5,), (1,)])), 3)
              for _ in keys]
    s = write_table(ctx, c, keys, arrays)
    got = []
    for sp in (s['arch_spec'], s['scp_spec']):
        with SF.create(sp) as r:
            k, d = r.read()
            ctx.same(list(k), keys, 'records')
            got.append(d)
    with RF.create(s['scp_spec']) as r:
        got.append(r.read(keys))
    for d in got:
        for x, y in zip(d, arrays):
            if y.size == 0:
                ctx.same(np.asarray(x).size, 0, 'empty matrix')
            else:
                ctx.same(x.shape, y.shape, 'shape next to an empty matrix')
                ctx.close(x, y, 'values next to an empty matrix', atol=1e-6)
    ctx.event('empty records', sum(a.size == 0 for a in arrays))
    ctx.sig('empty text', tuple(a.shape for a in arrays))


@case(quick=40, mult=8)
def double_precision_text_of_kaldi(ctx):
    """archives as another Kaldi tool writes them: double precision binary, text with scientific notation"""
    import struct
    from hyperion.io import SequentialDataReaderFactory as SF
    n = ctx.int(1, 5)
    keys = gen_keys(ctx, n)
    path = ctx.path('k.ark')
    text = ctx.flip(.4)
    arrays = []
    with open(path, 'wb') as f:
        for k in keys:
            ndim = ctx.pick([1, 2])
            a = ctx.rng.randn(*((ctx.int(1, 5), 3) if ndim == 2 else (4,))) * 10. ** ctx.int(-8, 8)
            if text:
                s = k + '  ['
                if ndim == 1:
                    s += ' ' + ' '.join('%.7g' % v for v in a) + ' ]\n'
                else:
                    s += ''.join('\n  ' + ' '.join('%.7g' % v for v in row) + ' ' for row in a) + ']\n'
                f.write(s.encode())
                arrays.append(a)
            else:
                f.write(k.encode() + b' \0B' + (b'DM ' if ndim == 2 else b'DV '))
                if ndim == 2:
                    f.write(b'\4' + struct.pack('<i', a.shape[0]))
                f.write(b'\4' + struct.pack('<i', a.shape[-1]))
                f.write(a.astype('<f8').tobytes())
                arrays.append(a)
    ctx.sig(text, n, tuple(a.ndim for a in arrays))
    gk, gd = SF.create('ark:' + path).read()
    ctx.same(list(gk), keys, 'kaldi-keys')
    for g, w in zip(gd, arrays):
        if text:
            ctx.close(g, w, 'kaldi-text', rtol=2e-6, atol=0)
        else:
            ctx.close(g, w, 'kaldi-double', rtol=1e-15, atol=0)


@case(quick=80, mult=10)
def forms(ctx):
    """arrays of other layouts and types, stacked arrays and Kaldi matrices as data; names of files relative to the working directory; two readers at once"""
    from hyperion.io import DataWriterFactory as WF, SequentialDataReaderFactory as SF, RandomAccessDataReaderFactory as RF
    from hyperion.utils.kaldi_matrix import KaldiMatrix, KaldiCompressedMatrix
    c = container(ctx, ['ark', 'text', 'h5', 'ark-c', 'h5-c'])
    n = ctx.int(1, 6)
    keys = gen_keys(ctx, n, c['h5'])
    ndim = 2 if c['compress'] else ctx.pick([1, 2])
    same = ctx.flip()
    rows, dim = ctx.int(1, 9), ctx.int(1, 6)
    arrays = [gen_array(ctx, ndim, dim, rows if same else ctx.int(1, 9), 10.0) for _ in keys]
    if c['compress']:
        arrays = [fit_to_method(c['method'], a) for a in arrays]
    form = ctx.pick(['fortran', 'strided', 'reversed', 'readonly', 'swapped', 'stack', 'kaldi', 'kaldi-c', 'tuple'])
    if form == 'stack' and not (same or ndim == 1) or form.startswith('kaldi') and (c['h5'] or ndim == 1 and form == 'kaldi-c') or form == 'kaldi-c' and not c['compress']:
        form = 'readonly'
    if form == 'fortran':
        data = [np.asfortranarray(a) for a in arrays]
    elif form == 'strided':
        data = [np.repeat(np.repeat(a, 2, axis=0), 3, axis=-1)[::2, ::3] if ndim == 2 else np.repeat(a, 3)[::3] for a in arrays]
    elif form == 'reversed':
        data = [np.ascontiguousarray(a[::-1])[::-1] for a in arrays]
    elif form == 'swapped':
        data = [a.astype(a.dtype.newbyteorder()) for a in arrays]
    elif form == 'stack':
        data = np.stack([a.astype('float64') for a in arrays])
    elif form == 'kaldi':
        data = [KaldiMatrix(a.astype('float32')) for a in arrays]
    elif form == 'kaldi-c':
        data = [KaldiCompressedMatrix.compress(a.astype('float32'), c['method']) for a in arrays]
    else:
        data = [a.copy() for a in arrays]
    if form == 'readonly':
        for a in data:
            a.setflags(write=False)
    if form == 'tuple':
        data, ks = tuple(data), tuple(keys)
    else:
        ks = np.array(keys) if ctx.flip(.2) else keys
    ext = 'h5' if c['h5'] else 'ark'
    d = ctx.pick(['', '', './', 'sub/', 'new/dir/'])
    kw = dict(compress=True, compression_method=c['method']) if c['compress'] else {}
    old = os.getcwd()
    os.chdir(ctx.tmp)
    try:
        script = ctx.flip(.7)
        a, s = '%sx.%s' % (d, ext), ctx.pick([d, ''])+ 'x.scp'
        opts = ext + (',t' if c['kind'] == 'text' else '')
        with WF.create('%s,scp:%s,%s' % (opts, a, s) if script else '%s:%s' % (opts, a), **kw) as w:
            w.write(ks, data)
        r1 = SF.create(ext + ':' + a)
        r2 = SF.create(('scp:' + s) if script else ext + ':' + a)
        k1, k2, d1, d2 = [], [], [], []
        for r, k, v in [(r1, k1, d1), (r2, k2, d2)] * n:          # two readers of one file in turn
            kk, vv = r.read(1)
            k += kk
            v += vv
        wk, wa = order(c, keys, arrays, 'arch')
        ctx.same(list(k1), list(wk), 'keys')
        for k, g, v in zip(k1, d1, wa):
            compare(ctx, c, g, v, 'values of ' + form, k)
        wk, wa = (keys, arrays) if script else (wk, wa)
        ctx.same(list(k2), list(wk), 'keys of the second reader')
        for k, g, v in zip(k2, d2, wa):
            compare(ctx, c, g, v, 'values of the second reader of ' + form, k)
        if script or c['h5']:
            with RF.create(('scp:' + s) if script else 'h5:' + a) as r:
                i = ctx.int(0, n - 1)
                compare(ctx, c, r.read([keys[i]])[0], arrays[i], 'value by key of ' + form, keys[i])
        r1.close()
        r2.close()
    finally:
        os.chdir(old)
    ctx.sig(c['kind'], form, d, ndim, same)


@case(quick=40, mult=10)
def boundaries(ctx):
    """records whose key, marker or sizes lie across the limits of the blocks in which files are read"""
    from hyperion.io import DataWriterFactory as WF, SequentialDataReaderFactory as SF, RandomAccessDataReaderFactory as RF
    kind = ctx.pick(['ark', 'ark', 'text'])
    opts = 'ark,t' if kind == 'text' else 'ark'

    def size(n):
        with WF.create('%s:%s' % (opts, ctx.path('m'))) as w:
            w.write('k', np.ones(n, dtype='float32'))
        return os.path.getsize(ctx.path('m')) - 2
    b1 = size(5) - size(4)
    b0 = size(4) - 4 * b1
    keys, arrays, pos, at = [], [], 0, []
    L = 3
    for i in range(ctx.int(3, 8)):
        # this record has a key of L characters; the start of the data of the next one is to be at target
        shift = ctx.int(-8, 3)
        target = 4096 * ((pos + L + b0 + b1 + 20) // 4096 + ctx.int(1, 3)) + shift
        n = max(1, (target - pos - L - 1 - b0 - 4) // b1)
        keys.append(('%dk' % i + 'x' * L)[:L])
        arrays.append((np.arange(n) % 7 + 1).astype('float32'))
        pos += L + 1 + b0 + b1 * n
        L = target - pos - 1
        at.append(shift)
    keys.append(('zz%d' % len(keys)) + 'x' * L)
    arrays.append(np.ones(3, 'float32'))
    a, s = ctx.path('a.ark'), ctx.path('a.scp')
    with WF.create('%s,scp:%s,%s' % (opts, a, s)) as w:
        w.write(keys, arrays)
    hit = sum(int(l.rsplit(':', 1)[1]) % 4096 > 4080 for l in open(s))
    ctx.event('records across a limit', hit)
    gk, gd = [], []
    with SF.create('ark:' + a) as r:
        while not r.eof():
            k, d = r.read(ctx.int(1, 3))
            gk, gd = gk + list(k), gd + list(d)
    ctx.same(gk, keys, 'keys at the limits of blocks')
    for g, v in zip(gd, arrays):
        ctx.close(g, v, 'values at the limits of blocks', rtol=0, atol=1e-6)
    with SF.create('ark:' + a) as r:
        k, sh = r.read_shapes(assert_same_dim=False)
    ctx.same((list(k), [tuple(v) for v in sh]), (keys, [v.shape for v in arrays]), 'shapes at the limits of blocks')
    with RF.create('scp:' + s) as r:
        for i in ctx.rng.permutation(len(keys)):
            ctx.close(r.read([keys[i]])[0], arrays[i], 'value by key at the limits of blocks', rtol=0, atol=1e-6)
    ctx.sig(kind, tuple(sorted(set(at))))


def parse_ark(raw):
    """records of an archive by the published layout: (key, place of the value, array)"""
    i, out = 0, []
    while i < len(raw):
        j = raw.index(b' ', i)
        key, i = raw[i:j].decode(), j + 1
        at = i
        if raw[i:i + 2] == b'\0B':
            j = raw.index(b' ', i + 2)
            t, i = raw[i + 2:j].decode(), j + 1
            if t in ('CM', 'CM2', 'CM3'):
                fmt = {'CM': 1, 'CM2': 2, 'CM3': 3}[t]
                R, C = struct.unpack('<ii', raw[i + 8:i + 16])
                size = {1: C * 8 + R * C, 2: 2 * R * C, 3: R * C}[fmt]
                a = decode(struct.pack('<i', fmt) + raw[i:i + 16 + size])[0]
                i += 16 + size
            else:
                assert t in ('FM', 'DM', 'FV', 'DV'), t
                shape = []
                for _ in range(2 if t[1] == 'M' else 1):
                    assert raw[i] == 4
                    shape.append(struct.unpack('<i', raw[i + 1:i + 5])[0])
                    i += 5
                ty = np.dtype('<f4' if t[0] == 'F' else '<f8')
                n = int(np.prod(shape)) * ty.itemsize
                a = np.frombuffer(raw[i:i + n], ty).reshape(shape)
                i += n
        else:
            j = raw.index(b']\n', i)
            body, i = raw[i:j].decode(), j + 2
            first, body = body.split('[', 1)
            assert first.strip(' ') == ''
            if body.startswith('\n'):
                a = np.array([[float(v) for v in r.split()] for r in body[1:].rstrip('\n').split('\n')])
            else:
                a = np.array([float(v) for v in body.split()])
        out.append((key, at, a))
    return out


@case(quick=80, mult=10)
def layout(ctx):
    """what is written is laid out as published: a program that knows only the format finds each record, in the archive and by the script"""
    import h5py
    c = container(ctx, ['ark', 'text', 'h5', 'ark-c'])
    keys, arrays, ndim = gen_table(ctx, c, same_dim=ctx.flip())
    s = write_table(ctx, c, keys, arrays)
    lines = [l.split(' ', 1) for l in open(s['scp']).read().splitlines()]
    ctx.same([l[0] for l in lines], keys, 'keys of the script')
    if c['h5']:
        ctx.same([l[1] for l in lines], [s['arch']] * len(keys), 'files of the script')
        with h5py.File(s['arch'], 'r') as f:
            for k, a in zip(keys, arrays):
                compare(ctx, c, f[k][()], a, 'data set of the file')
    else:
        rec = parse_ark(open(s['arch'], 'rb').read())
        ctx.same([r[0] for r in rec], keys, 'records of the file')
        for (k, at, x), a, l in zip(rec, arrays, lines):
            compare(ctx, c, x, a, 'record of the file')
            ctx.same(l[1], '%s:%d' % (s['arch'], at), 'place in the script')
    ctx.event('records parsed', len(keys))
    ctx.sig('layout', c['kind'], c['method'], ndim, min(len(keys), 4))


@case(quick=50, mult=10)
def transformed(ctx):
    """readers that are given a transform return the transform of what was written"""
    from hyperion.io import SequentialDataReaderFactory as SF, RandomAccessDataReaderFactory as RF
    from hyperion.transforms import TransformList, LNorm, MVN, CentWhiten
    c = container(ctx, ['ark', 'h5'])
    n, dim = ctx.int(1, 6), ctx.int(1, 5)
    keys = gen_keys(ctx, n, c['h5'])
    arrays = [gen_array(ctx, 2, dim, ctx.int(1, 9), 3.).astype('float32').reshape(-1, dim) + np.float32(.01) for _ in keys]
    s = write_table(ctx, c, keys, arrays)
    A, b = ctx.rng.randn(dim, ctx.int(1, 4)), ctx.rng.randn(dim)
    t = TransformList([MVN(mu=b, s=ctx.rng.rand(dim) + .5, name='m'), CentWhiten(mu=b, T=A, name='w')] + ([LNorm(name='l')] if ctx.flip() else []))
    if ctx.flip(.4):
        arg = ctx.path('t.h5')
        t.save(arg)
    else:
        arg = ctx.pick([t, TransformList([t])])
    via = ctx.pick(['arch', 'scp'])
    part = ctx.flip(.4)
    kw = dict(row_offset=0, num_rows=1) if part else {}
    wk, wa = order(c, keys, arrays, via)
    gk, gd = [], []
    with SF.create(s[via + '_spec'], transform=arg) as r:
        while not r.eof():
            k, d = r.read(ctx.int(1, 3), **kw)
            gk, gd = gk + list(k), gd + list(d)
    ctx.same(gk, list(wk), 'keys of transformed data')
    want = {k: t.predict(a[:1].astype('float64') if part else a.astype('float64')) for k, a in zip(keys, arrays)}
    for k, d in zip(gk, gd):
        ctx.close(d, want[k], 'transformed data in sequence', rtol=1e-4, atol=1e-4)
    with RF.create(s[('arch' if c['h5'] and ctx.flip() else 'scp') + '_spec'], transform=arg) as r:
        ks = [keys[i] for i in ctx.rng.permutation(n)]
        for k, d in zip(ks, r.read(ks, **kw)):
            ctx.close(d, want[k], 'transformed data by key', rtol=1e-4, atol=1e-4)
    ctx.event('transformed', n)
    ctx.sig('t', c['kind'], via, part, type(arg).__name__)
