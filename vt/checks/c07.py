"""C07 copying and merging"""
import os
import subprocess
import sys

import numpy as np

from ..core import case
from ..iolib import *


def read_all(spec, sep=' '):
    from hyperion.io import SequentialDataReaderFactory as SF
    with SF.create(spec, scp_sep=sep) as r:
        k, d = r.read()
    return list(k), [np.asarray(x) for x in d]


def settle(c, keys):
    return sorted(keys, key=lambda k: k.split('/')) if c['h5'] else list(keys)


@case(quick=250, mult=10)
def copy(ctx):
    """format to format, with parts, any chunk size"""
    from hyperion.io import CopyFeats
    ci, co = container(ctx), container(ctx, ['ark', 'text', 'h5', 'ark-c', 'h5-c'])
    sep = ctx.pick([' ', ' ', '='])
    keys = gen_keys(ctx, ctx.int(1, 14), True, sep)
    dim = ctx.int(1, 6)
    ndim = 2 if ci['compress'] or co['compress'] else ctx.pick([1, 2])
    x = [gen_array(ctx, ndim, dim, ctx.int(1, 15), 10.0 ** ctx.int(-1, 2)) for _ in keys]
    for c in (ci, co):
        if c['compress']:
            x = [fit_to_method(c['method'], a) for a in x]
    s = write_table(ctx, ci, keys, x, name='in', sep=sep)
    via = ctx.pick(['arch', 'scp'])
    P = 1
    if (via == 'scp' or ci['h5']) and ctx.flip():
        P = ctx.int(1, len(keys))
    src_k, src_d = read_all(s[via + '_spec'], sep)
    model = dict(zip(src_k, src_d))
    allk = []
    for p in range(1, P + 1):
        od = ctx.path('out%d' % p)
        ext = 'h5' if co['h5'] else 'ark'
        arch, scp = od + '/o.' + ext, od + '/o.scp'
        spec = ext + (',t' if co['kind'] == 'text' else '') + ',scp:' + arch + ',' + scp
        kw = dict(compress=True, compression_method=co['method']) if co['compress'] else {}
        chunk = ctx.pick([1, 2, 3, 100])
        isp = s[via + '_spec']
        CopyFeats(isp if ctx.flip() else [isp], spec, part_idx=p, num_parts=P, chunk_size=chunk, scp_sep=sep, **kw)
        k, d = read_all('scp:' + scp, sep)
        for a, b in zip(k, d):
            w = model[a]
            if co['compress']:
                # what the codec does to this very value, bounded
                w2 = w.astype('float32').astype('float64')
                ok = np.all(np.abs(b - w2) <= codec_bound(co['method'], w2)) if b.shape == w2.shape else False
                ctx.check(ok, 'copied value', co, a, b, w2)
            else:
                compare(ctx, co, b, w, 'copied value', a)
        k2, d2 = read_all(ext + ':' + arch)
        ctx.same(k2, settle(co, k), 'archive and script of the copy differ')
        allk += k
    ctx.same(allk, src_k, 'keys of the copy', ci['kind'], co['kind'], P)
    ctx.event('records-copied', len(allk))
    ctx.sig(ci['kind'], co['kind'], via, P > 1, sep, ndim)
    ctx.sample(src=ci['kind'], dst=co['kind'], parts=P)


@case(quick=80, mult=10)
def merge(ctx):
    """several inputs into one output, in the order given"""
    from hyperion.io import CopyFeats
    co = container(ctx, ['ark', 'text', 'h5'])
    dim = ctx.int(1, 5)
    specs, want = [], []
    for t in range(ctx.int(1, 4)):
        ci = container(ctx, ['ark', 'text', 'h5', 'ark-c', 'h5-c'])
        keys = ['t%d_%s' % (t, k) for k in gen_keys(ctx, ctx.int(1, 6), True)]
        x = [gen_array(ctx, 2, dim, ctx.int(1, 9), 1.0) for _ in keys]
        if ci['compress']:
            x = [fit_to_method(ci['method'], a) for a in x]
        s = write_table(ctx, ci, keys, x, name='in%d' % t)
        via = ctx.pick(['arch', 'scp'])
        specs.append(s[via + '_spec'])
        k, d = read_all(specs[-1])
        want += list(zip(k, d))
    ext = 'h5' if co['h5'] else 'ark'
    arch, scp = ctx.path('o/o.' + ext), ctx.path('o/o.scp')
    CopyFeats(specs, ext + (',t' if co['kind'] == 'text' else '') + ',scp:' + arch + ',' + scp, chunk_size=ctx.int(1, 5))
    k, d = read_all('scp:' + scp)
    ctx.same(k, [a for a, _ in want], 'keys of the merge')
    for (a, w), b in zip(want, d):
        compare(ctx, co, b, w, 'merged value', a)
    ctx.raises(lambda: CopyFeats([specs[0]] * 2, ext + ':' + ctx.path('o/p.' + ext), part_idx=1, num_parts=2),
               'merging and splitting at once')
    ctx.sig(co['kind'], len(specs), len(want))


@case(quick=60, mult=10)
def h5_merge(ctx):
    """HDF5 files merged with any chunk size hold the union"""
    from hyperion.io import HypDataWriter, HypDataReader, H5Merger
    model = {}
    files = []
    for t in range(ctx.int(1, 4)):
        p = ctx.path('m%d.h5' % t)
        w = HypDataWriter(p)
        keys = ['t%d_%s' % (t, k) for k in gen_keys(ctx, ctx.int(1, 7), True)]
        x = [gen_array(ctx, ctx.pick([1, 2]), ctx.int(1, 4), ctx.int(1, 6)) for _ in keys]
        if len(keys) == 1 and ctx.flip():
            w.write(keys[0], '', x[0])
        else:
            w.write(keys, '', x)
        w.f.close()
        files.append(p)
        model.update(zip(keys, x))
    out = ctx.path('merged.h5')
    m = H5Merger(files, out, ctx.pick([None, 1, 2, 3, 50]))
    m.merge()
    r = HypDataReader(out)
    ctx.same(sorted(r.get_datasets()), sorted(model), 'data sets of the merge')
    q = [ctx.pick(sorted(model)) for _ in range(8)] + sorted(model)
    for k, g in zip(q, r.read(q)):
        ctx.same(np.asarray(g, dtype=float), model[k].astype('float32').astype(float), 'merged value', k)
    r.f.close()
    ctx.sig(len(files), len(model))


@case(quick=80, mult=10)
def h5_fields(ctx):
    """per-key fields, row counts, slices and random row samples of the HDF5 reader"""
    from hyperion.io import HypDataWriter, HypDataReader
    p = ctx.path('f.h5')
    keys = gen_keys(ctx, ctx.int(1, 6), True)
    fields = ctx.pick([[''], ['.x', '.y'], ['/feats', '/vad']])
    w = HypDataWriter(p)
    model = {}
    dim = ctx.int(1, 4)
    rows = ctx.int(2, 12)
    tens = ctx.flip()
    for f in fields:
        x = [gen_array(ctx, 2, dim, rows if tens else ctx.int(1, 12)) for _ in keys]
        w.write(keys, f, x)
        model.update({(k, f): a.astype('float32').astype(float) for k, a in zip(keys, x)})
    w.f.close()
    r = HypDataReader(p)
    f = ctx.pick(fields)
    q = [ctx.pick(keys) for _ in range(ctx.int(1, 6))]
    qq = np.array(q) if ctx.flip() else q
    g = r.read(qq, f)
    for k, a in zip(q, g):
        ctx.same(np.asarray(a, dtype=float), model[k, f], 'field value')
    if tens:
        T = r.read(qq, f, return_tensor=True)
        ctx.same(np.asarray(T), np.stack([model[k, f] for k in q]), 'tensor')
    ctx.same([int(i) for i in r.get_num_rows(qq, f)], [model[k, f].shape[0] for k in q], 'row counts')
    k = q[0]
    M = model[k, f]
    R = len(M)
    a = ctx.int(0, R - 1)
    n = ctx.int(1, R - a)
    ctx.same(np.asarray(r.read_slice(k, a, n, field=f), dtype=float), M[a:a + n], 'slice')
    n = ctx.int(1, R)
    S, i = r.read_random_slice(k, n, np.random.RandomState(ctx.seedint()), field=f)
    ctx.check(0 <= i <= R - n, 'random slice start', i, n, R)
    ctx.same(np.asarray(S, dtype=float), M[i:i + n], 'random slice')
    rep = ctx.flip()
    S, _ = r.read_random_samples(k, n, np.random.RandomState(ctx.seedint()), field=f, replace=rep)
    S = np.asarray(S, dtype=float)
    ctx.same(S.shape, (n, dim), 'random samples shape')
    used = []
    for row in S:
        hit = np.where((M == row).all(axis=1))[0]
        ctx.check(len(hit) > 0, 'sampled row is not in the data')
        used.append(tuple(row))
    if not rep:
        for row in set(used):
            ctx.check(used.count(row) <= (M == np.array(row)).all(axis=1).sum(), 'row sampled twice without replacement')
    ctx.raises(lambda: r.read(['none'], f), 'missing data set')
    r.f.close()
    ctx.sig(len(fields), tens, rep, R)


@case(quick=4, mult=6)
def command(ctx):
    """the copy-feats program"""
    ci, co = container(ctx, ['ark', 'text', 'h5']), container(ctx, ['ark', 'text', 'h5'])
    keys = gen_keys(ctx, ctx.int(2, 6), True)
    x = [gen_array(ctx, 2, 3, ctx.int(1, 5), 1.0) for _ in keys]
    s = write_table(ctx, ci, keys, x, name='in')
    ext = 'h5' if co['h5'] else 'ark'
    out = ctx.path('o/o.' + ext)
    cmd = [sys.executable, os.path.join(os.environ['VT_REPO'], 'hyperion/bin/copy-feats.py'), '--input', s['scp_spec'],
           '--output', ext + (',t' if co['kind'] == 'text' else '') + ',scp:' + out + ',' + ctx.path('o/o.scp')]
    n = ctx.int(1, 2)
    p = ctx.int(1, n)
    cmd += ['--num-parts', str(n), '--part-idx', str(p)]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    ctx.check(r.returncode == 0, 'copy-feats failed', r.stdout.decode(errors='replace')[-800:])
    k, d = read_all('scp:' + ctx.path('o/o.scp'))
    a, b = (p - 1) * len(keys) // n, p * len(keys) // n
    ctx.same(k, keys[a:b], 'keys copied by the program')
    model = dict(zip(*read_all(s['scp_spec'])))
    for key, g in zip(k, d):
        compare(ctx, co, g, model[key], 'value copied by the program', key)
    ctx.sig(ci['kind'], co['kind'], n)
