"""C02 access by key, and metadata agreeing with data"""
import numpy as np

from ..core import case
from ..iolib import *


def spec_for(ctx, c, s, permissive, sep=' '):
    via = 'scp' if not c['h5'] or ctx.flip() else 'h5'
    path = s['scp'] if via == 'scp' else s['arch']
    return via, via + (',p' if permissive else '') + ':' + path


@case(quick=260, mult=10)
def by_key(ctx):
    """random queries with repetitions and missing keys, their shapes, rows and dimensions, before and after refusals"""
    from hyperion.io import RandomAccessDataReaderFactory as RF
    c = container(ctx)
    sep = ctx.pick([' ', ' ', '='])
    same = ctx.flip()
    keys, arrays, ndim = gen_table(ctx, c, same_dim=same, sep=sep)
    s = write_table(ctx, c, keys, arrays, sep=sep)
    permissive = ctx.flip()
    via, spec = spec_for(ctx, c, s, permissive, sep)
    model = dict(zip(keys, arrays))
    missing = ['no_such_key', keys[0] + 'x', 'zz']
    missing = [m for m in missing if m not in model and m[:len(keys[0]) + 1] not in model]
    with RF.create(spec, scp_sep=sep) as r:
        for rep in range(ctx.int(1, 4)):
            q = [ctx.pick(keys) for _ in range(ctx.int(1, 10) if len(keys) < 100 or ctx.flip() else ctx.int(50, 600))]
            nm = 0
            if permissive and ctx.flip(.6):
                for _ in range(ctx.int(1, 3)):
                    q.insert(ctx.int(0, len(q)), ctx.pick(missing))
                    nm += 1
            got = r.read(q if ctx.flip(.7) else np.array(q))
            ctx.check(len(got) == len(q), 'number of answers', q)
            for k, g in zip(q, got):
                if k in model:
                    compare(ctx, c, g, model[k], 'wrong value for key', k)
                else:
                    ctx.check(np.asarray(g).size == 0, 'missing key is not empty', k, g)
            shapes = r.read_shapes(q, assert_same_dim=False)
            want = [model[k].shape if k in model else (0,) for k in q]
            ctx.same([tuple(int(i) for i in x) for x in shapes], want, 'shapes', via)
            if nm == 0:
                ctx.same([int(i) for i in r.read_num_rows(q, assert_same_dim=False)],
                         [x[0] if len(x) == 2 else 1 for x in want], 'num_rows')
                if len({x[-1] for x in want}) == 1:
                    ctx.same([int(i) for i in r.read_dims(q)], [x[-1] for x in want], 'dims')
                    r.read_shapes(q)
                else:
                    ctx.same([int(i) for i in r.read_dims(q, assert_same_dim=False)], [x[-1] for x in want], 'dims')
                    ctx.raises(lambda: r.read_dims(q, assert_same_dim=True), 'dims differ but no error')
            ctx.event('keys-read', len(q))
        if not permissive:
            m = ctx.pick(missing)
            ctx.raises(lambda: r.read([keys[0], m]), 'missing key without error', via)
            ctx.raises(lambda: r.read_shapes(m), 'missing key without error in shapes', via)
            # and the reader still serves after the refusal
            compare(ctx, c, r.read(keys[-1])[0], model[keys[-1]], 'after a refused key')
    ctx.sig(c['kind'], c['method'], via, permissive, same, sep, ndim)
    ctx.sample(spec=spec, keys=keys[:3])


@case(quick=100, mult=10)
def squeezed(ctx):
    """equal-size arrays stacked into one, with zeros for the missing keys when permissive"""
    from hyperion.io import RandomAccessDataReaderFactory as RF, SequentialDataReaderFactory as SF
    c = container(ctx)
    n = ctx.int(1, 8)
    keys = gen_keys(ctx, n, c['h5'])
    ndim = 2 if c['compress'] else ctx.pick([1, 2])
    dim, rows = ctx.int(1, 9), ctx.int(1, 12)
    scale = 10.0 ** ctx.int(-1, 3) if c['kind'] == 'text' else None
    arrays = [gen_array(ctx, ndim, dim, rows, scale) for _ in keys]
    if c['compress']:
        arrays = [fit_to_method(c['method'], a) for a in arrays]
    s = write_table(ctx, c, keys, arrays)
    permissive = ctx.flip()
    via, spec = spec_for(ctx, c, s, permissive)
    model = dict(zip(keys, arrays))
    q = [ctx.pick(keys) for _ in range(ctx.int(1, 8))]
    where = 'none'
    if permissive and ctx.flip(.7):
        where = ctx.pick(['first', 'mid', 'last'])
        q.insert({'first': 0, 'mid': len(q) // 2, 'last': len(q)}[where], 'absent-key')
    with RF.create(spec) as r:
        got = r.read(q, squeeze=True)
    shape = arrays[0].shape
    ctx.check(isinstance(got, np.ndarray) and got.shape == (len(q),) + shape, 'squeezed shape', got, q)
    for k, g in zip(q, got):
        if k in model:
            compare(ctx, c, g, model[k], 'squeezed value', k)
        else:
            ctx.same(g, np.zeros(shape), 'missing key is not zeros')
    with SF.create(('h5:' + s['arch']) if c['h5'] else 'ark:' + s['arch']) as r:
        k2, d2 = r.read(squeeze=True)
    ctx.check(d2.shape == (n,) + shape, 'sequential squeezed shape')
    for k, g in zip(k2, d2):
        compare(ctx, c, g, model[k], 'sequential squeezed value', k)
    ctx.sig(c['kind'], ndim, permissive, where, via)


@case(quick=80, mult=10)
def metadata(ctx):
    """sequential shapes, row counts and dimensions describe what read returns"""
    from hyperion.io import SequentialDataReaderFactory as SF
    c = container(ctx)
    keys, arrays, ndim = gen_table(ctx, c, same_dim=ctx.flip(.7))
    s = write_table(ctx, c, keys, arrays)
    via = ctx.pick(['arch', 'scp'])
    spec = s[via + '_spec']
    model = dict(zip(keys, arrays))
    with SF.create(spec) as r:
        k0, d0 = r.read()
    for what in ('shapes', 'num_rows', 'dims'):
        with SF.create(spec) as r:
            fn = getattr(r, 'read_' + what)
            gk, gv = [], []
            while len(gk) < len(keys):
                if ctx.flip(.3):
                    # data read in between carry on where the metadata were left
                    k, v = r.read(ctx.int(1, 3))
                    for i, j in zip(k, v):
                        compare(ctx, c, j, model[i], 'data after metadata', i)
                    v = [{'shapes': j.shape, 'num_rows': j.shape[0] if j.ndim == 2 else 1, 'dims': j.shape[-1]}[what] for j in v]
                else:
                    k, v = fn(ctx.int(0, 4), assert_same_dim=False)
                if not len(k):
                    break
                gk += list(k)
                gv += list(v)
            ctx.same(gk, list(k0), 'metadata keys', what)
            for k, v in zip(gk, gv):
                sh = model[k].shape
                want = {'shapes': sh, 'num_rows': sh[0] if len(sh) == 2 else 1, 'dims': sh[-1]}[what]
                v = tuple(int(i) for i in v) if what == 'shapes' else int(v)
                ctx.same(v, want, 'metadata', what, k)
            # nothing is left
            k, v = fn(2, assert_same_dim=True)
            ctx.check(len(k) == 0 and len(v) == 0, 'metadata after the end', what)
    ctx.sig(c['kind'], via, len(keys), len({a.shape for a in arrays}) > 1)


@case(quick=60, mult=10)
def several(ctx):
    """a script over several archives, of different formats, not in order and used by turns; several readers of it at once"""
    from hyperion.io import RandomAccessDataReaderFactory as RF, SequentialDataReaderFactory as SF
    h5 = ctx.flip(.4)
    n = ctx.int(2, 5)
    lines, model, kind = [], {}, {}
    for t in ctx.rng.permutation(9)[:n]:
        c = container(ctx, ['h5', 'h5-c'] if h5 else ['ark', 'text', 'ark-c', 'ark-d'])
        keys = ['%s%d-%d' % (ctx.pick('azM'), t, i) for i in range(ctx.int(1, 5))]
        nd = 2 if c['compress'] else ctx.pick([1, 2])
        arrays = [gen_array(ctx, nd, ctx.int(1, 4), ctx.int(1, 8), 10.0) for _ in keys]
        if c['compress']:
            arrays = [fit_to_method(c['method'], a) for a in arrays]
        s = write_table(ctx, c, keys, arrays, name='t%d' % t)
        lines += open(s['scp']).read().splitlines()
        model.update(zip(keys, arrays))
        kind.update((k, c) for k in keys)
    how = ctx.pick(['turns', 'shuffled', 'blocks'])
    if how == 'turns':
        lines.sort(key=lambda l: l.split(' ')[0].split('-')[1])
    elif how == 'shuffled':
        lines = [lines[i] for i in ctx.rng.permutation(len(lines))]
    p = ctx.path('all.scp')
    open(p, 'w').write(''.join(l + '\n' for l in lines))
    keys = [l.split(' ')[0] for l in lines]
    rs = [RF.create('scp:' + p) for i in range(ctx.int(1, 2))]
    for rep in range(ctx.int(2, 6)):
        r = ctx.pick(rs)
        q = [ctx.pick(keys) for _ in range(ctx.int(1, 8))]
        for k, g in zip(q, r.read(q)):
            compare(ctx, kind[k], g, model[k], 'wrong value for key', k)
        ctx.same([tuple(int(i) for i in x) for x in r.read_shapes(q, assert_same_dim=False)], [model[k].shape for k in q], 'shapes')
        if ctx.flip(.2):
            r.close()                       # opens again when needed
    for r in rs:
        r.close()
    with SF.create('scp:' + p) as r:
        k, d = r.read(ctx.pick([0, len(keys)]))
    ctx.same(list(k), keys, 'keys in sequence')
    for a, g in zip(k, d):
        compare(ctx, kind[a], g, model[a], 'value in sequence', a)
    ctx.event('archives', n)
    ctx.sig(h5, n, how, tuple(sorted({v['kind'] for v in kind.values()})), len(rs))
