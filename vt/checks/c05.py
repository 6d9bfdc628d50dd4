"""C05 compressed matrices: format and accuracy"""
import io
import struct

import numpy as np

from ..core import case
from ..iolib import METHODS, codec_bound, fit_to_method

FORMAT = {'speech-feat': 1, '2byte-auto': 2, '2byte-signed-integer': 2, '1byte-auto': 3,
          '1byte-unsigned-integer': 3, '1byte-0-1': 3}


def decode(raw):
    """the published layout of a compressed matrix, decoded on its own"""
    fmt, lo, rng, R, C = struct.unpack('<iffii', raw[:20])
    body = raw[20:]
    if fmt == 2:
        q = np.frombuffer(body, '<u2')
        assert q.size == R * C
        return (lo + rng * q.astype(float) / 65535).reshape(R, C), fmt
    if fmt == 3:
        q = np.frombuffer(body, 'u1')
        assert q.size == R * C
        return (lo + rng * q.astype(float) / 255).reshape(R, C), fmt
    assert fmt == 1
    heads = np.frombuffer(body[:8 * C], '<u2').reshape(C, 4).astype(float)
    p = lo + rng * heads / 65535
    q = np.frombuffer(body[8 * C:], 'u1')
    assert q.size == R * C
    q = q.reshape(C, R).astype(float)
    out = np.zeros((R, C))
    for j in range(C):
        p0, p25, p75, p100 = p[j]
        b = q[j]
        out[:, j] = np.where(b <= 64, p0 + (p25 - p0) * b / 64,
                             np.where(b <= 192, p25 + (p75 - p25) * (b - 64) / 128,
                                      p75 + (p100 - p75) * (b - 192) / 63))
    return out, fmt


def matrix(ctx, method):
    R, C = ctx.int(1, 40), ctx.int(1, 8)
    if ctx.flip(.3):
        R = ctx.int(1, 9)
    s = 10. ** ctx.int(-4, 4)
    kind = ctx.int(0, 6)
    x = ctx.rng.randn(R, C) * s
    if kind == 1:
        x = np.full((R, C), float(ctx.rng.randn() * s))
    elif kind == 2:
        x = np.round(x)
    elif kind == 3:
        x[:, 0] = x[0, 0]
    elif kind == 4:
        x = np.exp(np.clip(x, -20, 5))
    elif kind == 5:
        x = np.sort(x, axis=0)
    elif kind == 6:
        x = x * (ctx.rng.uniform(size=x.shape) < .2)
    x = fit_to_method(method, x.astype('float32'))
    return x if ctx.flip() else x.astype('float64'), kind


@case(quick=900, mult=12)
def codec(ctx):
    from hyperion.utils.kaldi_matrix import KaldiCompressedMatrix as KC, KaldiMatrix as KM
    method = ctx.pick(METHODS)
    x, kind = matrix(ctx, method)
    if ctx.flip(.2):
        x = np.asfortranarray(x)
    m = ctx.pure(KC.compress, x, method) if ctx.flip(.7) else KC.compress(KM(x), method)
    y = np.asarray(m.to_ndarray())
    want, fmt = decode(m.data)
    eff = method if method != 'auto' else ('speech-feat' if x.shape[0] > 8 else '2byte-auto')
    ctx.same(fmt, FORMAT[eff], 'format of method', method)
    tol = 2e-6 * (abs(m.min_value) + abs(m.data_range))
    ctx.close(y, want, 'decoded values', rtol=0, atol=tol, info=method)
    x64 = x.astype('float64')
    b = codec_bound(method, x64)
    err = np.abs(y - x64)
    ctx.check(np.all(err <= b), 'accuracy of ' + method, x.shape, 'worst excess %r' % np.max(err - b), x, y)
    ctx.same((int(m.num_rows), int(m.num_cols)), x.shape, 'size')
    if method in ('2byte-signed-integer', '1byte-unsigned-integer') and kind in (2,):
        ctx.check(np.all(np.abs(np.round(y) - x64) < .01), 'integers not kept', x, y)
    # binary, text and hdf5-attribute forms give the same matrix
    f = io.BytesIO()
    m.write(f, True)
    f = io.BufferedReader(io.BytesIO(f.getvalue()))
    ctx.close(np.asarray(KC.read(f, True).to_ndarray()), y, 'binary form', rtol=0, atol=tol, info=method)
    f.seek(0)
    ctx.close(np.asarray(KM.read(f, True).to_ndarray()), y, 'binary form read as plain matrix', rtol=0, atol=tol, info=method)
    ctx.check(f.read() == b'', 'bytes left after the matrix')
    f.seek(0)
    ctx.same(tuple(int(i) for i in KM.read_shape(f, True)), x.shape, 'shape')
    ctx.check(f.read() == b'', 'bytes left after the shape')
    d, attrs = m.get_data_attrs()
    ctx.same(tuple(d.shape), x.shape, 'attr data shape')
    m2 = KC.build_from_data_attrs(d, attrs)
    ctx.close(np.asarray(m2.to_ndarray()), y, 'rebuilt from data and attributes', rtol=0, atol=tol, info=method)
    a, n = ctx.int(0, x.shape[0] - 1), 0
    n = ctx.int(1, x.shape[0] - a)
    m3 = KC.build_from_data_attrs(d[a:a + n], attrs)
    ctx.close(np.asarray(m3.to_ndarray()), y[a:a + n], 'rows rebuilt from data and attributes', rtol=0, atol=tol, info=method)
    f.seek(0)
    ctx.close(np.asarray(KC.read(f, True, a, n).to_ndarray()), y[a:a + n], 'rows of the binary form', rtol=0, atol=tol, info=method)
    ctx.check(f.read() == b'', 'bytes left after the rows')
    # scaling acts on the values
    al = float(ctx.pick([2.0, .5, 3.25, .125, -1., -2.5]))
    m.scale(al)
    ctx.close(m.to_ndarray(), al * y, 'scaled', rtol=1e-5, atol=abs(al) * tol)
    ctx.close(KC(m.data).to_ndarray(), al * y, 'scaled, from bytes', rtol=1e-5, atol=abs(al) * tol)
    ctx.event('matrices')
    ctx.sig(method, fmt, kind, x.shape[0], x.shape[1], str(x.dtype))
    ctx.sample(method=method, shape=str(x.shape), worst=float(err.max()))


@case(quick=150, mult=12)
def order_and_clip(ctx):
    """larger inputs never decode to smaller outputs, and values outside a fixed range go to its ends"""
    from hyperion.utils.kaldi_matrix import KaldiCompressedMatrix as KC
    method = ctx.pick(METHODS)
    x, kind = matrix(ctx, method)
    y = KC.compress(x, method).to_ndarray()
    for j in range(x.shape[1]):
        i = np.argsort(x[:, j], kind='stable')
        ctx.check(np.all(np.diff(y[i, j]) >= -1e-6 * (1 + np.abs(y).max())), 'order lost', method, x[i, j], y[i, j])
    lim = {'2byte-signed-integer': (-32768., 32767.), '1byte-unsigned-integer': (0., 255.), '1byte-0-1': (0., 1.)}
    if method in lim:
        lo, hi = lim[method]
        z = np.array([[lo - 5, hi + 7, lo - 1e6, hi + 1e6]], dtype='float32')
        ctx.close(KC.compress(z, method).to_ndarray(), [[lo, hi, lo, hi]], 'clipping', rtol=0, atol=1e-2 if hi > 1 else 1e-6)
    else:
        bad = x.copy()
        bad[ctx.int(0, x.shape[0] - 1), ctx.int(0, x.shape[1] - 1)] = ctx.pick([np.nan, np.inf, -np.inf])
        ctx.raises(lambda: KC.compress(bad, method), 'not finite but compressed', method)
    ctx.sig(method, kind, x.shape)


@case(quick=100, mult=12)
def stable(ctx):
    """compressing what was decoded changes nothing more than one step of the grid"""
    from hyperion.utils.kaldi_matrix import KaldiCompressedMatrix as KC
    method = ctx.pick([m for m in METHODS if m not in ('auto', 'speech-feat')])
    x, kind = matrix(ctx, method)
    y = KC.compress(x, method).to_ndarray()
    z = KC.compress(y, method).to_ndarray()
    ctx.check(np.all(np.abs(z - y) <= .05 * codec_bound(method, y) + 4e-6 * np.abs(y).max() + 1e-12), 'second pass moved values',
              method, y, z)
    ctx.sig(method, kind, x.shape)
