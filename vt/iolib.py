"""Workload generators for the archive readers/writers. Only numpy here: the
model of what was written is kept apart from the code under test."""
import os
import struct

import numpy as np

ALPHA = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
METHODS = ['auto', 'speech-feat', '2byte-auto', '2byte-signed-integer', '1byte-auto',
           '1byte-unsigned-integer', '1byte-0-1']


def gen_keys(ctx, n, h5=False, sep=' ', uni=False):
    extra = '_-.+#@~' if sep == ' ' else '_-.+~'
    extra += '/'
    keys = []
    seen = set()
    style = ctx.int(0, 2)
    while len(keys) < n:
        if style == 0:
            k = 'utt%d' % ctx.int(0, 10 * n + 10)
        elif style == 1:
            k = '%s-%s' % (ctx.pick(['spkA', 'spkB', 's1', 'id10']), ''.join(
                ctx.pick(ALPHA) for _ in range(ctx.int(1, 6))))
        else:
            k = ctx.pick(ALPHA) + ''.join(ctx.pick(ALPHA + extra) for _ in range(ctx.int(0, 24)))
            if ctx.flip(.04):
                k = ctx.pick(['NA', 'nan', 'null', 'None', 'true', '1e3', '007', '-5', '0x1f', '1_0', 'inf', 'N', 'C', 'B'])
            if uni and ctx.flip(.04):
                k = ctx.pick(['Ñandú', 'é', '日本', 'ß-1', 'Ωmega'])
            if k.endswith('/') or k.endswith('.') or '//' in k:
                k = k.replace('/', 'x').replace('.', 'y')
        if k in seen or sep in k:
            continue
        # in HDF5 a / separates groups: a name cannot be the group of another, and . is the group itself
        if h5 and ('/.' in k or './' in k or any((k + '/').startswith(o + '/') or (o + '/').startswith(k + '/') for o in seen)):
            continue
        seen.add(k)
        keys.append(k)
    if ctx.flip(.3):
        keys.sort()
    return keys


def gen_array(ctx, ndim, dim, rows=None, scale=None, dtype=None):
    """finite values, representable in single precision"""
    r = ctx.rng
    rows = ctx.int(1, 40) if rows is None else rows
    shape = (rows, dim) if ndim == 2 else (dim,)
    kind = ctx.int(0, 5) if scale is None else 0
    s = scale if scale is not None else 10.0 ** ctx.int(-3, 4)
    x = r.randn(*shape) * s
    if kind == 1:
        x = np.round(x)
    elif kind == 2:
        x = np.full(shape, float(r.randn() * s))
    elif kind == 3:
        x = x * (r.uniform(size=shape) < .3)
    elif kind == 4:
        x = x + 100 * s
    x = x.astype('float32')
    if dtype is None:
        dtype = ctx.pick(['float32', 'float64', 'float64'])
    x = x.astype(dtype)
    lay = ctx.int(0, 7)
    if lay == 0:
        x = np.asfortranarray(x)
    elif lay == 1:
        big = np.repeat(x, 2, axis=0)
        x = big[::2]
    elif lay == 2:
        x = x[::-1]
    return x


def container(ctx, kinds=None):
    """one way of storing a table of arrays"""
    kind = ctx.pick(kinds or ['ark', 'ark', 'ark-d', 'text', 'h5', 'ark-c', 'h5-c'])
    c = dict(kind=kind, method=None, compress=False)
    if kind in ('ark-c', 'h5-c'):
        c['compress'] = True
        c['method'] = ctx.pick(METHODS)
    c['h5'] = kind.startswith('h5')
    return c


def fit_to_method(method, x):
    """values that the method's range covers"""
    x = x.astype('float64')
    if method == '2byte-signed-integer':
        x = np.clip(x, -32768, 32767)
    elif method == '1byte-unsigned-integer':
        x = np.clip(np.abs(x), 0, 255)
    elif method == '1byte-0-1':
        m = np.max(np.abs(x)) if x.size else 1
        x = np.abs(x) / (m if m > 0 else 1)
    return x.astype('float32')


def codec_bound(method, x):
    """largest error the format's resolution allows, per element"""
    x = x.astype('float64')
    lo, hi = float(np.min(x)), float(np.max(x))
    rng = hi - lo
    big = max(abs(lo), abs(hi), 1e-30)
    if rng == 0:
        rng = 1 + abs(lo)
    eps = 3e-6 * big + 1e-9
    if method == 'auto':
        method = 'speech-feat' if x.shape[0] > 8 else '2byte-auto'
    if method == '2byte-auto':
        return rng / 65535 * .6 + eps
    if method == '2byte-signed-integer':
        return .6
    if method == '1byte-auto':
        return rng / 255 * .6 + eps
    if method == '1byte-unsigned-integer':
        return .6
    if method == '1byte-0-1':
        return .6 / 255 + 1e-7
    # speech-feat: the column is cut at its quartiles, 64/128/63 steps between them,
    # the cut points themselves on a 16 bit grid
    out = np.zeros(x.shape)
    q = rng / 65535
    for j in range(x.shape[1]):
        v = np.sort(x[:, j])
        n = len(v)
        if n >= 5:
            q1, q3 = v[n // 4], v[3 * (n // 4)]
            p = [v[0], q1, q3, v[-1]]
        else:
            p = [v[0]] * 4
            for i in range(4):
                p[i] = v[min(i, n - 1)]
        step = max((p[1] - p[0]) / 64, (p[2] - p[1]) / 128, (p[3] - p[2]) / 63) if n >= 5 else max(
            (p[3] - p[0]) / 60, 0)
        out[:, j] = step * .75 + 6 * q
    return out + eps


def open_files(ctx):
    """files of this case that the process holds open"""
    r = []
    for f in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + f)
        except OSError:
            continue
        if p.startswith(os.path.realpath(ctx.tmp) + os.sep):
            r.append(p)
    return r


def write_table(ctx, c, keys, arrays, name='a', script=True, sep=' ', batches=True, flush=None):
    """write with the real code; returns dict of specs/paths"""
    from hyperion.io import DataWriterFactory
    d = ctx.path(name + '_dir%d' % ctx.int(0, 3) if ctx.flip(.3) else name)
    if ctx.flip(.1):
        d += ctx.pick([' and more', '=' if sep == ',' else sep + '1'])     # a directory with the separator in its name
    ext = 'h5' if c['h5'] else 'ark'
    arch = os.path.join(d, 'x.%s' % ext)
    scp = os.path.join(d, 'x.scp')
    opts = ext
    if c['kind'] == 'text':
        opts += ',t'
    if flush if flush is not None else ctx.flip(.2):
        opts += ',f'
    spec = (opts + ',scp:' + arch + ',' + scp) if script else opts + ':' + arch
    kw = {}
    if c['compress']:
        kw = dict(compress=True, compression_method=c['method'])
    if sep != ' ':
        kw['scp_sep'] = sep
    snap = [a.copy() for a in arrays]
    if c['kind'] == 'ark-d':
        # as another Kaldi tool writes it: double (some single) precision
        os.makedirs(d, exist_ok=True)
        with open(arch, 'wb') as f, open(scp, 'w') as fs:
            for k, a in zip(keys, arrays):
                f.write(k.encode() + b' ')
                fs.write('%s%s%s:%d\n' % (k, sep, arch, f.tell()))
                t = ctx.pick('DDF')
                f.write(b'\0B' + t.encode() + (b'M ' if a.ndim == 2 else b'V '))
                for n in a.shape:
                    f.write(b'\4' + struct.pack('<i', n))
                f.write(a.astype('<f8' if t == 'D' else '<f4').tobytes())
        if not script:
            os.remove(scp)
        return dict(arch=arch, scp=scp if script else None, ext=ext, arch_spec=ext + ':' + arch, scp_spec='scp:' + scp)
    with DataWriterFactory.create(spec, **kw) as w:
        i = 0
        while i < len(keys):
            n = ctx.int(1, len(keys)) if batches else len(keys)
            if n == 1 and ctx.flip():
                w.write(keys[i], arrays[i])
            else:
                w.write(keys[i:i + n], arrays[i:i + n])
            i += n
    ctx.check(not open_files(ctx), 'a closed writer holds a file', open_files(ctx))
    for a, s in zip(arrays, snap):
        ctx.check(a.dtype == s.dtype and np.array_equal(a, s, equal_nan=True), 'write-modifies-input', s, a)
    return dict(arch=arch, scp=scp if script else None, ext=ext,
                arch_spec=ext + ':' + arch, scp_spec='scp:' + scp)


def compare(ctx, c, got, want, label, info=''):
    g = np.asarray(got)
    if g.shape != want.shape:
        return ctx.fail(label, 'shape got %s want %s (%s %s)' % (g.shape, want.shape, c, info))
    ctx.event('arrays-compared')
    if c['kind'] in ('ark', 'ark-d', 'h5'):
        return ctx.same(g.astype('float64'), want.astype('float32').astype('float64'), label, str(c), info)
    if c['kind'] == 'text':
        return ctx.close(g, want, label, rtol=2e-7, atol=.6e-6, info=info)
    w = want.astype('float64')
    b = codec_bound(c['method'], w) if w.size else 0
    return ctx.check(np.all(np.abs(g - w) <= b), label, str(c), info, g, w,
                     'max excess %r' % (np.max(np.abs(g - w) - b) if w.size else 0))


def gen_table(ctx, c, n=None, min_rows=1, max_rows=40, ndim=None, same_dim=True, sep=' '):
    size = ctx.rng.uniform() if n is None else 1
    if size < .015:
        n, max_rows = ctx.pick([100, 257, 1025, ctx.int(100, 1500)]), max(min_rows, 3)
    n = ctx.int(1, 12) if n is None else n
    keys = gen_keys(ctx, n, c['h5'], sep)
    if ndim is None:
        ndim = 2 if c['compress'] else ctx.pick([2, 2, 2, 1])
    if same_dim:
        dim = [ctx.int(1, 12)] * n
    else:
        dim = [ctx.int(1, 12) for _ in range(n)]
    scale = 10.0 ** ctx.int(-1, 3) if c['kind'] == 'text' else None
    rows = [ctx.int(min_rows, max_rows) for _ in range(n)]
    if .015 < size < .03:
        if ndim == 2 and ctx.flip():
            rows[ctx.int(0, n - 1)] = ctx.pick([1000, 4097, ctx.int(1000, 70000)])
        else:
            wide = ctx.pick([1000, 4097, ctx.int(1000, 6000 if c['compress'] else 70000)])
            n = min(n, 4)
            keys, rows, dim = keys[:n], rows[:n], [wide] * n if same_dim else dim[:n - 1] + [wide]
            rows = [min(r, max(min_rows, 4)) for r in rows]
    arrays = [gen_array(ctx, ndim, dim[i], rows[i], scale) for i in range(n)]
    if c['compress']:
        arrays = [fit_to_method(c['method'], a) for a in arrays]
    return keys, arrays, ndim
