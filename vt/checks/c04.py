"""C04 sequential reading: cursor, end of data, parts"""
import numpy as np

from ..core import case
from ..iolib import *


def written(ctx, c=None, n=None):
    c = c or container(ctx)
    keys, arrays, ndim = gen_table(ctx, c, n=n)
    s = write_table(ctx, c, keys, arrays)
    return c, keys, arrays, s


@case(quick=250, mult=10)
def cursor(ctx):
    """any mix of read/read_shapes/read_dims/read_num_rows/next/reset walks the records once, in order"""
    from hyperion.io import SequentialDataReaderFactory as SF
    c, keys, arrays, s = written(ctx)
    via = ctx.pick(['arch', 'scp'])
    order = sorted(keys, key=lambda k: k.split('/')) if c['h5'] and via == 'arch' else keys
    model = dict(zip(keys, arrays))
    N = len(order)
    ops = []
    with SF.create(s[via + '_spec']) as r:
        pos = 0
        for _ in range(ctx.int(2, 25)):
            op = ctx.pick(['read', 'read', 'read', 'shapes', 'rows', 'dims', 'next', 'reset', 'eof', 'all'])
            n = ctx.int(1, 5) if N < 100 or ctx.flip() else ctx.int(50, 600)
            ops.append(op)
            if op == 'reset':
                r.reset()
                pos = 0
                continue
            if op == 'eof':
                if r.eof():
                    ctx.same(pos, N, 'eof before the last record')
                continue
            if op == 'all':
                n = 0
            if op == 'next':
                n = 1
            want = order[pos:] if n == 0 else order[pos:pos + n]
            if op in ('read', 'all'):
                k, d = r.read(n)
            elif op == 'shapes':
                k, d = r.read_shapes(n, assert_same_dim=False)
            elif op == 'rows':
                k, d = r.read_num_rows(n, assert_same_dim=False)
            elif op == 'dims':
                k, d = r.read_dims(n)
            else:
                want = want[:1]
                try:
                    k, d = next(r)
                    k, d = [k], [d]
                except StopIteration:
                    k, d = [], []
            ctx.same(list(k), want, 'records', c['kind'], via, str(ops))
            ctx.check(len(d) == len(want), 'number of values')
            for key, v in zip(k, d):
                w = model[key]
                if op in ('read', 'all', 'next'):
                    compare(ctx, c, v, w, 'value after ' + ','.join(ops[-4:]), key)
                elif op == 'shapes':
                    ctx.same(tuple(int(i) for i in v), w.shape, 'shape')
                elif op == 'rows':
                    ctx.same(int(v), w.shape[0] if w.ndim == 2 else 1, 'rows')
                else:
                    ctx.same(int(v), w.shape[-1], 'dim')
            pos += len(want)
            if len(want) < n or n == 0:
                ctx.check(r.eof(), 'end not reported')
        ctx.event('operations', len(ops))
    ctx.sig(c['kind'], via, tuple(ops[:4]), N)
    ctx.sample(container=c['kind'], via=via, ops=' '.join(ops))


@case(quick=200, mult=10)
def parts(ctx):
    """the parts of a data set are disjoint, in order, balanced and cover it"""
    from hyperion.io import SequentialDataReaderFactory as SF
    c = container(ctx)
    c, keys, arrays, s = written(ctx, c, n=ctx.int(1, 25))
    via = 'arch' if c['h5'] and ctx.flip() else 'scp'
    order = sorted(keys, key=lambda k: k.split('/')) if c['h5'] and via == 'arch' else keys
    model = dict(zip(keys, arrays))
    P = ctx.int(1, len(keys)) if ctx.flip(.8) else ctx.int(1, 3)
    P = min(P, len(keys))
    seen = []
    sizes = []
    for p in range(1, P + 1):
        with SF.create(s[via + '_spec'], part_idx=p, num_parts=P) as r:
            gk = []
            while not r.eof():
                k, d = r.read(ctx.int(0, 4))
                for a, b in zip(k, d):
                    compare(ctx, c, b, model[a], 'value in part', a)
                gk += list(k)
        seen += gk
        sizes.append(len(gk))
    ctx.same(seen, order, 'parts do not make up the data set', c['kind'], via, P)
    ctx.check(min(sizes) >= 1, 'empty part', sizes)
    ctx.check(max(sizes) - min(sizes) <= P, 'unbalanced parts', sizes)
    ctx.event('parts', P)
    ctx.sig(c['kind'], via, len(keys), P)


@case(quick=120, mult=10)
def parts_by_key(ctx):
    """with grouping, all the lines of one key land in one part, and the parts cover the script"""
    from hyperion.io import SequentialDataReaderFactory as SF
    c = container(ctx)
    n = ctx.int(2, 10)
    c, keys, arrays, s = written(ctx, c, n=n)
    pos = dict(l.rstrip('\n').split(' ', 1) for l in open(s['scp']))
    lines = []
    for k in sorted(keys):
        lines += [k] * ctx.int(1, 4)
    if ctx.flip():
        ctx.rng.shuffle(lines)
    p2 = s['scp'] + '.rep'
    open(p2, 'w').write(''.join('%s %s\n' % (k, pos[k]) for k in lines))
    P = ctx.int(1, n)
    owner = {}
    seen = []
    for p in range(1, P + 1):
        with SF.create('scp:' + p2, part_idx=p, num_parts=P, split_by_key=True) as r:
            k, d = r.read()
        for a, b in zip(k, d):
            ctx.check(owner.setdefault(a, p) == p, 'key in two parts', a, lines)
            compare(ctx, c, b, dict(zip(keys, arrays))[a], 'value in part', a)
        seen += list(k)
    ctx.same(sorted(seen), sorted(lines), 'parts do not make up the script')
    ctx.sig(c['kind'], n, P, lines == sorted(lines))


@case(quick=60, mult=10)
def prefix_and_files(ctx):
    """a script over several archives with a path prefix, order interleaved"""
    from hyperion.io import SequentialDataReaderFactory as SF, RandomAccessDataReaderFactory as RF
    c = container(ctx, ['ark', 'ark-d', 'text', 'h5', 'ark-c', 'h5-c'])
    tabs = []
    used = set()
    for t in range(ctx.int(1, 3)):
        n = ctx.int(1, 5)
        keys = ['t%d-%s' % (t, k) for k in gen_keys(ctx, n, c['h5'])]
        arrays = [gen_array(ctx, 2, 4, ctx.int(1, 9), 1.0) for _ in keys]
        if c['compress']:
            arrays = [fit_to_method(c['method'], a) for a in arrays]
        s = write_table(ctx, c, keys, arrays, name='tab%d' % t)
        tabs += [(l.rstrip('\n').split(' ', 1), a) for l, a in zip(open(s['scp']), arrays)]
    ctx.rng.shuffle(tabs) if False else None
    perm = ctx.rng.permutation(len(tabs))
    tabs = [tabs[i] for i in perm]
    base = ctx.tmp
    cutlen = ctx.pick([len(base), len(base) - 3])
    p = ctx.path('all.scp')
    with open(p, 'w') as f:
        for (k, loc), a in tabs:
            f.write('%s %s\n' % (k, loc[cutlen:]))
    with SF.create('scp:' + p, path_prefix=base[:cutlen]) as r:
        k, d = r.read()
    ctx.same(list(k), [t[0][0] for t in tabs], 'keys')
    for (t, a), g in zip(tabs, d):
        compare(ctx, c, g, a, 'value with prefix', t[0])
    with RF.create('scp:' + p, path_prefix=base[:cutlen]) as r:
        q = [tabs[ctx.int(0, len(tabs) - 1)] for _ in range(6)]
        d = r.read([t[0][0] for t in q])
    for (t, a), g in zip(q, d):
        compare(ctx, c, g, a, 'value by key with prefix', t[0])
    ctx.sig(c['kind'], len(tabs), len({t[0][1].split(':')[0] for t in tabs}))
