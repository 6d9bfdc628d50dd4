"""C08 interrupted and damaged archives"""
import os
import resource
import signal

import numpy as np

from ..core import case
from ..iolib import *


def seq(path, one_by_one=True):
    """(records, how it ended)"""
    from hyperion.io import SequentialDataReaderFactory as SF
    recs = []
    try:
        with SF.create(path) as r:
            while True:
                k, d = r.read(1)
                if not k:
                    return recs, 'end'
                recs.append((k[0], np.asarray(d[0])))
    except Exception as e:
        return recs, type(e).__name__


def table(ctx, kinds, n=None, big=False):
    c = container(ctx, kinds)
    n = n or ctx.int(1, 4)
    keys = gen_keys(ctx, n, True)
    keys = [k[:10] for k in keys]
    keys = ['%s%d' % (k, i) for i, k in enumerate(keys)]
    nd = 2 if c['compress'] else ctx.pick([1, 2])
    x = [gen_array(ctx, nd, ctx.int(1, 3), ctx.int(1, 6), 10.0) for _ in keys]
    if c['compress']:
        x = [fit_to_method(c['method'], a) for a in x]
    return c, keys, x


@case(quick=60, mult=10)
def every_cut(ctx):
    """an archive cut at every byte: what is returned is a prefix of what was written, each record whole"""
    from hyperion.io import RandomAccessDataReaderFactory as RF
    c, keys, x = table(ctx, ['ark', 'text', 'ark-c'])
    s = write_table(ctx, c, keys, x)
    raw = open(s['arch'], 'rb').read()
    whole, end = seq(s['arch_spec'])
    ctx.same([k for k, _ in whole], keys, 'whole archive')
    starts = [int(l.rsplit(':', 1)[1]) for l in open(s['scp'])]
    cutp = ctx.path('cut.ark')
    scp = ctx.path('cut.scp')
    open(scp, 'w').write(''.join('%s %s:%d\n' % (k, cutp, p) for k, p in zip(keys, starts)))
    if c['kind'] == 'text':
        ends = [raw.index(b']', p) + 1 for p in starts]
    else:
        ends = [p - len(k) - 1 for p, k in zip(starts[1:], keys[1:])] + [len(raw)]
    cuts = range(len(raw)) if len(raw) <= 400 else sorted(set(
        [int(i) for i in ctx.rng.choice(len(raw), 300, replace=False)] + [e + d for e in ends for d in (-1, 0, 1) if 0 <= e + d < len(raw)]))
    ndec = 0
    for n in cuts:
        open(cutp, 'wb').write(raw[:n])
        recs, how = seq('ark:' + cutp)
        complete = sum(e <= n for e in ends)
        ctx.check(len(recs) == complete, 'records out of a cut archive', c, 'cut at %d of %d' % (n, len(raw)),
                  'records end at %s' % ends, [(k, d) for k, d in recs[complete:]])
        for (k, d), (k0, d0) in zip(recs, whole):
            ctx.check(k == k0 and d.shape == d0.shape and np.array_equal(d, d0), 'record of a cut archive changed', c, n, k, d, d0)
        if n % 5 == 0 or n in ends:
            with RF.create('scp:' + scp) as r:
                for i, k in enumerate(keys):
                    if ends[i] <= n:
                        d = np.asarray(r.read(k)[0])
                        ctx.check(d.shape == whole[i][1].shape and np.array_equal(d, whole[i][1]), 'whole record by key', k)
                    elif c['kind'] != 'text' or True:
                        ctx.raises(lambda: r.read(k), 'cut record by key without error', c, 'cut at %d, record %d..%d' % (
                            n, starts[i], ends[i]))
        ndec += 1
    ctx.event('cut-points', ndec)
    ctx.sig(c['kind'], c['method'], len(keys), tuple(a.shape for a in x[:2]))
    ctx.sample(container=c['kind'], bytes=len(raw), cuts=ndec)


@case(quick=120, mult=10)
def killed(ctx):
    """a writer with flushing that dies right after a write has lost nothing it was given"""
    from hyperion.io import DataWriterFactory as WF
    c, keys, x = table(ctx, ['ark', 'text', 'ark-c', 'h5', 'h5-c'], n=ctx.int(1, 8))
    ext = 'h5' if c['h5'] else 'ark'
    arch, scp = ctx.path('w/a.' + ext), ctx.path('w/a.scp')
    spec = ext + (',t' if c['kind'] == 'text' else '') + ',f,scp:' + arch + ',' + scp
    n = ctx.int(1, len(keys))
    batch = ctx.flip()
    refuse = ctx.flip()
    bad = ctx.pick(['', 'a b', 'x\ty'])
    pid = os.fork()
    if pid == 0:
        try:
            kw = dict(compress=True, compression_method=c['method']) if c['compress'] else {}
            w = WF.create(spec, **kw)
            if batch and refuse:
                try:
                    w.write(keys[:n] + [bad] + ['never'], x[:n] + [x[0], x[0]])
                except Exception:
                    pass
            elif batch:
                w.write(keys[:n], x[:n])
            else:
                for k, a in zip(keys[:n], x[:n]):
                    w.write([k], [a])
            os.kill(os.getpid(), signal.SIGKILL)
        finally:
            os._exit(3)
    _, st = os.waitpid(pid, 0)
    ctx.check(os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGKILL, 'writer failed before the kill', c, st)
    ctx.same(len(open(scp).read().splitlines()), n, 'script lines after the kill', c)
    for sp in (ext + ':' + arch, 'scp:' + scp):
        recs, how = seq(sp)
        ctx.same(how, 'end', 'reading after the kill', c, sp)
        ctx.same(sorted(k for k, _ in recs), sorted(keys[:n]), 'records after the kill', c, sp)
        for k, d in recs:
            compare(ctx, c, d, dict(zip(keys, x))[k], 'value after the kill', k)
    ctx.event('kills')
    ctx.sig(c['kind'], n, batch, batch and refuse)


@case(quick=100, mult=10)
def no_space(ctx):
    """when the file system refuses more bytes the writer reports it, and what is on disk is a prefix"""
    from hyperion.io import DataWriterFactory as WF
    c, keys, x = table(ctx, ['ark', 'text', 'ark-c'], n=ctx.int(2, 8))
    ref = write_table(ctx, c, keys, x, name='ref', script=False)
    size = os.path.getsize(ref['arch'])
    whole, _ = seq(ref['arch_spec'])
    limit = ctx.int(1, size - 2)      # the last byte of a text record is only the end of line
    arch, scp = ctx.path('w/a.ark'), ctx.path('w/a.scp')
    flush = ctx.flip()
    spec = 'ark' + (',t' if c['kind'] == 'text' else '') + (',f' if flush else '') + ':' + arch
    kw = dict(compress=True, compression_method=c['method']) if c['compress'] else {}
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            w = WF.create(spec, **kw)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            try:
                with w:
                    w.write(keys, x)
                code = 7
            except OSError:
                code = 0
            except Exception:
                code = 0
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    ctx.check(os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0, 'write beyond the limit not reported', c, limit, size, st)
    ctx.check(os.path.getsize(arch) <= limit, 'file larger than the limit')
    recs, how = seq('ark:' + arch)
    for (k, d), (k0, d0) in zip(recs, whole):
        ctx.check(k == k0 and d.shape == d0.shape and np.array_equal(d, d0), 'record after a failed write', c, k)
    ctx.check(len(recs) < len(whole), 'all records from a file that could not hold them')
    ctx.event('refused-writes')
    ctx.sig(c['kind'], flush, len(recs), len(keys))


@case(quick=80, mult=10)
def refused_input(ctx):
    """a key or value the writer refuses leaves the records written before readable"""
    from hyperion.io import DataWriterFactory as WF
    c, keys, x = table(ctx, ['ark', 'text', 'ark-c', 'h5'], n=ctx.int(1, 4))
    ext = 'h5' if c['h5'] else 'ark'
    arch, scp = ctx.path('w/a.' + ext), ctx.path('w/a.scp')
    spec = ext + (',t' if c['kind'] == 'text' else '') + ',scp:' + arch + ',' + scp
    kw = dict(compress=True, compression_method=c['method']) if c['compress'] else {}
    bad = ctx.pick([('a b', x[0]), ('', x[0]), ('a\tb', x[0]), ('a\nb', x[0]), ('bad', 'a string'), ('bad', {'a': 1}), ('bad', None), ('bad', [[1.]])] +
                   [('bad', np.array([[1., v]] * ctx.int(1, 9))) for v in (np.inf, -np.inf, np.nan) if c['compress'] and ('auto' in c['method'] or c['method'] == 'speech-feat')])
    batch = ctx.flip()
    with WF.create(spec, **kw) as w:
        if batch:
            ctx.raises(lambda: w.write(keys + [bad[0], 'never'], x + [bad[1], x[0]]), 'unusable key or value taken', bad)
        else:
            w.write(keys, x)
            ctx.raises(lambda: w.write([bad[0]], [bad[1]]), 'unusable key or value taken', bad)
        w.write('after', x[0])
    for sp in (ext + ':' + arch, 'scp:' + scp):
        recs, how = seq(sp)
        ctx.same(how, 'end', 'reading after a refused key', c, bad)
        ctx.same(sorted(k for k, _ in recs), sorted(keys + ['after']), 'records after a refused key', bad)
        for k, d in recs:
            compare(ctx, c, d, dict(zip(keys + ['after'], x + [x[0]]))[k], 'value', k)
    ctx.sig(c['kind'], bad[0], type(bad[1]).__name__, batch, len(keys))
