"""C03 row ranges are slices of the whole"""
import numpy as np

from ..core import case
from ..iolib import *


def ranged_script(ctx, s, keys, arrays, sep=' '):
    """a second script over the same archive whose lines carry row ranges; written by hand"""
    lines = [l.rstrip('\n').split(sep, 1) for l in open(s['scp'])]
    pos = dict(lines)
    path = s['scp'] + '.rng'
    items = []
    n = ctx.int(1, 2 * len(keys))
    with open(path, 'w') as f:
        for j in range(n):
            i = ctx.int(0, len(keys) - 1)
            R = arrays[i].shape[0]
            kind = ctx.int(0, 3)
            if kind == 0 or j == 0 and ctx.flip(.3):
                rng, a, b = '', 0, R
            elif kind == 1:
                a = ctx.int(0, R - 1)
                b = R
                rng = '[%d:]' % a
            elif kind == 2:
                a = 0
                b = ctx.int(1, R)
                rng = '[:%d]' % b if ctx.flip() else '[0:%d]' % b
            else:
                a = ctx.int(0, R - 1)
                b = ctx.int(a + 1, R)
                rng = '[%d:%d]' % (a, b)
            items.append((keys[i], i, a, b))
            f.write('%s%s%s%s\n' % (keys[i], sep, pos[keys[i]], rng))
    return path, items


def table(ctx):
    c = container(ctx, ['ark', 'ark-d', 'h5', 'ark-c', 'h5-c', 'ark-c'])
    keys, arrays, _ = gen_table(ctx, c, ndim=2, same_dim=ctx.flip(.7))
    return c, keys, arrays, write_table(ctx, c, keys, arrays)


def whole(spec):
    from hyperion.io import SequentialDataReaderFactory as SF
    with SF.create(spec) as r:
        k, d = r.read()
    return dict(zip(k, d))


def draw(ctx, R):
    """(offset, rows) with rows=0 for the rest"""
    a = ctx.int(0, R - 1) if ctx.flip(.7) else ctx.pick([0, R - 1])
    n = 0 if ctx.flip(.3) else ctx.int(1, R - a)
    return a, n


def cut(x, a, n):
    return x[a:] if n == 0 else x[a:a + n]


@case(quick=200, mult=10)
def requested(ctx):
    """row_offset/num_rows given to read, scalar and per record, sequential and by key"""
    from hyperion.io import SequentialDataReaderFactory as SF, RandomAccessDataReaderFactory as RF
    c, keys, arrays, s = table(ctx)
    model = dict(zip(keys, arrays))
    via = ctx.pick(['arch', 'scp'])
    full = whole(s['arch_spec'])
    per = ctx.flip()
    with SF.create(s[via + '_spec']) as r:
        order = [k for k, _ in zip(r.read()[0], keys)]
        r.reset()
        pos = 0
        while pos < len(keys):
            m = ctx.int(1, len(keys) - pos)
            chunk = order[pos:pos + m]
            if per:
                rr = [draw(ctx, model[k].shape[0]) for k in chunk]
                off, num = [a for a, _ in rr], [b for _, b in rr]
                if ctx.flip():
                    off, num = np.array(off), np.array(num)
                if ctx.flip(.2):
                    num = 0
                    rr = [(a, 0) for a, _ in rr]
            else:
                a, n = draw(ctx, min(model[k].shape[0] for k in chunk))
                rr = [(a, n)] * m
                off, num = a, n
            k2, d2 = r.read(m, row_offset=off, num_rows=num)
            ctx.same(list(k2), chunk, 'keys of a ranged read')
            for k, g, (a, n) in zip(chunk, d2, rr):
                ctx.same(np.asarray(g), cut(np.asarray(full[k]), a, n), 'sequential range', c, via, k, a, n)
            ctx.event('ranges', m)
            pos += m
    if c['h5'] or via == 'scp':
        with RF.create(s[via + '_spec']) as r:
            for _ in range(ctx.int(1, 3)):
                q = [ctx.pick(keys) for _ in range(ctx.int(1, 6))]
                rr = [draw(ctx, model[k].shape[0]) for k in q]
                d2 = r.read(q, row_offset=[a for a, _ in rr], num_rows=[b for _, b in rr])
                for k, g, (a, n) in zip(q, d2, rr):
                    ctx.same(np.asarray(g), cut(np.asarray(full[k]), a, n), 'by-key range', c, via, k, a, n)
                ctx.event('ranges', len(q))
    ctx.sig(c['kind'], c['method'], via, per)
    ctx.sample(container=c['kind'], via=via, per_record=per)


@case(quick=200, mult=10)
def in_script(ctx):
    """ranges in the script, alone and combined with requested ranges; shapes agree"""
    from hyperion.io import SequentialDataReaderFactory as SF, RandomAccessDataReaderFactory as RF
    c, keys, arrays, s = table(ctx)
    full = whole(s['arch_spec'])
    path, items = ranged_script(ctx, s, keys, arrays)
    with SF.create('scp:' + path) as r:
        k, d = r.read()
        ctx.same(list(k), [i[0] for i in items], 'keys of a ranged script')
        for (key, i, a, b), g in zip(items, d):
            ctx.same(np.asarray(g), np.asarray(full[key])[a:b], 'range in script', c, key, a, b)
        r.reset()
        k, sh = r.read_shapes(assert_same_dim=False)
        ctx.same([tuple(int(x) for x in z) for z in sh], [(b - a, arrays[i].shape[1]) for _, i, a, b in items],
                 'shapes of ranges')
        r.reset()
        k, nr = r.read_num_rows(assert_same_dim=False)
        ctx.same([int(x) for x in nr], [b - a for _, i, a, b in items], 'row counts of ranges')
        # a range of the range
        r.reset()
        for key, i, a, b in items:
            o, n = draw(ctx, b - a)
            k, g = r.read(1, row_offset=o, num_rows=n)
            ctx.same(k[0], key, 'key')
            ctx.same(np.asarray(g[0]), cut(np.asarray(full[key])[a:b], o, n), 'range of a script range', c, key, a, b, o, n)
        ctx.event('ranges', 3 * len(items))
    uniq = {}
    for it in items:
        uniq[it[0]] = it          # by key, the last line of a repeated key is the one indexed
    if len(uniq) == len(items):
        with RF.create('scp:' + path) as r:
            q = [ctx.pick(sorted(uniq)) for _ in range(ctx.int(1, 6))]
            rr = [draw(ctx, uniq[k][3] - uniq[k][2]) for k in q]
            if ctx.flip():
                rr = [(0, 0)] * len(q)
            d = r.read(q, row_offset=[a for a, _ in rr], num_rows=[b for _, b in rr])
            sh = r.read_shapes(q, assert_same_dim=False)
            for k, g, z, (o, n) in zip(q, d, sh, rr):
                _, i, a, b = uniq[k]
                ctx.same(np.asarray(g), cut(np.asarray(full[k])[a:b], o, n), 'by-key range of a script range', c, k, a, b, o, n)
                ctx.same(tuple(int(x) for x in z), (b - a, arrays[i].shape[1]), 'by-key shapes of ranges')
    ctx.sig(c['kind'], c['method'], len({i[0] for i in items}) < len(items), any(i[2] for i in items))


@case(quick=100, mult=10)
def beyond(ctx):
    """asking for more rows than there are is refused, never padded or taken from elsewhere"""
    from hyperion.io import SequentialDataReaderFactory as SF, RandomAccessDataReaderFactory as RF
    c, keys, arrays, s = table(ctx)
    j = ctx.int(0, len(keys) - 1)
    R = arrays[j].shape[0]
    a = ctx.int(0, R)
    n = R - a + ctx.int(1, 3)
    with RF.create(s['scp_spec']) as r:
        ctx.raises(lambda: r.read(keys[j], row_offset=a, num_rows=n), 'rows beyond the end', c, R, a, n)
    with SF.create(s['scp_spec']) as r:
        r.read(j) if j else None
        ctx.raises(lambda: r.read(1, row_offset=a, num_rows=n), 'rows beyond the end (sequential)', c, R, a, n)
    pos = dict(l.rstrip('\n').split(' ', 1) for l in open(s['scp']))
    p = s['scp'] + '.b'
    b0 = ctx.int(0, R - 1)
    b1 = R + ctx.int(1, 3)
    open(p, 'w').write('%s %s[%d:%d]\n' % (keys[j], pos[keys[j]], b0, b1))
    ctx.raises(lambda: SF.create('scp:' + p).read(), 'script range beyond the end', c, R, b0, b1)
    # within the record but beyond the script's range
    if R >= 3:
        b0, b1 = 0, ctx.int(1, R - 1)
        open(p, 'w').write('%s %s[%d:%d]\n' % (keys[j], pos[keys[j]], b0, b1))
        o = ctx.int(0, b1 - 1)
        m = b1 - o + 1
        for F in (SF, RF):
            def go():
                with F.create('scp:' + p) as r:
                    return r.read(*([1] if F is SF else [keys[j]]), row_offset=o, num_rows=m)
            ctx.raises(go, 'rows beyond the script range', c, R, b0, b1, o, m)
    ctx.sig(c['kind'], c['method'], a == R, R > 2)
