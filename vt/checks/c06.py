"""C06 read/write specifiers select what they say"""
import os

import numpy as np

from ..core import case
from ..iolib import gen_keys, gen_array


def name(ctx):
    return ctx.path('d') + '/' + ''.join(ctx.pick('abcXYZ019_-+@.') for _ in range(ctx.int(1, 10))) + ctx.pick(['x', '1', 'ark'])


def gen_wspec(ctx):
    kind = ctx.pick(['h5', 'ark'])
    arch, scp = name(ctx), name(ctx) + '.scp'
    both = ctx.flip()
    main = [kind] + (['scp'] if both else [])
    if both and ctx.flip(.4):
        main.reverse()
    paths = [arch if m != 'scp' else scp for m in main]
    extra = [o for o in ['t', 'f', 'b', 'nf', 'p'] if ctx.flip(.25)]
    opts = list(main)
    for e in extra:
        opts.insert(ctx.int(0, len(opts)), e)
    sp = ctx.pick(['', ' ']) if ctx.flip(.2) else ''
    spec = sp + ','.join(opts) + ':' + ','.join(paths) + sp
    want = dict(archive=arch, script=scp if both else None, type='BOTH' if both else 'ARCHIVE', atype=kind.upper(),
                binary=not (kind == 'ark' and 't' in extra), flush='f' in extra,
                permissive=kind == 'ark' and 'p' in extra)
    return spec, want, extra


@case(quick=400, mult=12)
def write_specs(ctx):
    from hyperion.io.rw_specifiers import WSpecifier
    spec, want, _ = gen_wspec(ctx)
    w = WSpecifier.create(spec)
    got = dict(archive=w.archive, script=w.script, type=w.spec_type.name, atype=w.archive_type.name,
               binary=bool(w.binary), flush=bool(w.flush), permissive=bool(w.permissive))
    ctx.same(got, want, 'write specifier', spec)
    ctx.check(WSpecifier.create(spec) == w and not (WSpecifier.create(spec) != w), 'equality')
    spec2, want2, _ = gen_wspec(ctx)
    ctx.same(bool(WSpecifier.create(spec2) == w), want2 == want, 'equality of different ones')
    # specifiers that differ in one thing
    import copy
    for what in want:
        v = copy.copy(w)
        attr = dict(type='spec_type', atype='archive_type').get(what, what)
        old = getattr(w, attr)
        setattr(v, attr, not old if isinstance(old, bool) else 'another' if what in ('archive', 'script') else
                [t for t in type(old) if t != old][0])
        ctx.check(not (v == w) and v != w and not (w == v), 'specifiers that differ are equal', what)
        setattr(v, attr, old)
        ctx.check(v == w and not (v != w), 'equal specifiers differ', what)
    plain = name(ctx)
    w = WSpecifier.create(plain)
    ctx.same((w.archive, w.script, w.spec_type.name, w.archive_type.name, w.binary, w.flush, w.permissive),
             (plain, None, 'ARCHIVE', 'H5', True, False, False), 'bare file name')
    ctx.sig(tuple(sorted(k + str(v) for k, v in want.items() if k not in ('archive', 'script'))), spec.index(':'))
    ctx.sample(spec=spec)


@case(quick=300, mult=12)
def read_specs(ctx):
    from hyperion.io.rw_specifiers import RSpecifier
    kind = ctx.pick(['h5', 'ark', 'scp'])
    path = name(ctx)
    extra = [o for o in ['o', 's', 'cs', 'p', 'bg', 'b', 't'] if ctx.flip(.25)]
    opts = [kind]
    for e in extra:
        opts.insert(ctx.int(0, len(opts)), e)
    atype = kind
    sep = ' '
    if kind == 'scp':
        os.makedirs(os.path.dirname(path), exist_ok=True)
        atype = ctx.pick(['h5', 'ark'])
        sep = ctx.pick([' ', ' ', '='])
        with open(path, 'w') as f:
            for i in range(ctx.int(1, 3)):
                f.write('k%d%s/some/where/f.%s%s%s\n' % (i, sep, atype, ':%d' % ctx.int(0, 99) if atype == 'ark' else '',
                                                         '[%d:%d]' % (i, i + 4) if ctx.flip(.3) else ''))
    spec = ','.join(opts) + ':' + path
    r = RSpecifier.create(spec) if sep == ' ' else RSpecifier.create(spec, scp_sep=sep)
    ark = atype == 'ark'
    got = (r.archive, r.script, r.spec_type.name, r.archive_type.name, bool(r.permissive), bool(r.once), bool(r.is_sorted),
           bool(r.called_sorted), bool(r.background))
    want = (path, path, 'SCRIPT' if kind == 'scp' else 'ARCHIVE', atype.upper(), 'p' in extra, ark and 'o' in extra,
            ark and 's' in extra, ark and 'cs' in extra, ark and 'bg' in extra)
    ctx.same(got, want, 'read specifier', spec)
    import copy
    ctx.check(r == copy.copy(r) and not (r != copy.copy(r)), 'equality of read specifiers')
    for what in ('archive', 'spec_type', 'archive_type', 'permissive', 'once', 'is_sorted', 'called_sorted', 'background'):
        v = copy.copy(r)
        old = getattr(r, what)
        setattr(v, what, not old if isinstance(old, bool) else 'another' if what == 'archive' else [t for t in type(old) if t != old][0])
        ctx.check(not (v == r) and v != r and not (r == v), 'read specifiers that differ are equal', what)
    ctx.check(RSpecifier.create(path) == RSpecifier.create('h5:' + path) and RSpecifier.create(path) != RSpecifier.create('ark:' + path),
              'bare file name is HDF5')
    ctx.sig(kind, atype, tuple(extra), sep)
    ctx.sample(spec=spec)


@case(quick=200, mult=5)
def malformed(ctx):
    from hyperion.io.rw_specifiers import WSpecifier, RSpecifier
    p, q, z = name(ctx), name(ctx), name(ctx)
    bad_w = ['h5,ark:%s,%s' % (p, q), 'ark,ark:%s,%s' % (p, q), 'ark,scp:%s' % p, 'scp,scp:%s,%s' % (p, q), 'xyz:%s' % p,
             'ark,zz:%s' % p, 'f:%s' % p, 't,f:%s' % p, 'ark:%s:%s' % (p, q), '', '  ', 'ark,scp,h5:%s,%s,%s' % (p, q, z),
             'Ark:%s' % p, ':%s' % p]
    bad_r = ['h5,ark:%s' % p, 'ark,scp:%s' % p, 'ark:%s,%s' % (p, q), 'xyz:%s' % p, 'ark,zz:%s' % p, 'p:%s' % p,
             'o,s:%s' % p, 'ark:%s:%s' % (p, q), '', ' ', ':%s' % p, 'scp:%s.none' % p, 'h5,h5:%s' % p]
    b = ctx.pick(bad_w)
    ctx.raises(lambda: WSpecifier.create(b), 'malformed write specifier taken', b)
    b2 = ctx.pick(bad_r)
    ctx.raises(lambda: RSpecifier.create(b2), 'malformed read specifier taken', b2)
    ctx.sig(bad_w.index(b), bad_r.index(b2))


@case(quick=160, mult=8)
def effect(ctx):
    """the writer made from a specifier writes the files, format and flushing it names, and readers open it"""
    from hyperion.io import DataWriterFactory as WF, SequentialDataReaderFactory as SF, RandomAccessDataReaderFactory as RF
    spec, want, extra = gen_wspec(ctx)
    keys = gen_keys(ctx, ctx.int(1, 4), h5=True)
    x = [gen_array(ctx, 2, 3, ctx.int(1, 5), 1.0) for _ in keys]
    comp = ctx.flip(.25)
    w = WF.create(spec, compress=comp)
    w.write(keys, x)
    if want['flush'] and want['atype'] == 'ARK':
        raw = open(want['archive'], 'rb').read()
        ctx.check(all(k.encode() + b' ' in raw for k in keys), 'flush option leaves data in memory', spec)
        if want['script']:
            ctx.same(len(open(want['script']).read().splitlines()), len(keys), 'flush option and the script')
    w.close()
    raw = open(want['archive'], 'rb').read()
    if want['atype'] == 'H5':
        ctx.check(raw[:8] == b'\x89HDF\r\n\x1a\n', 'not an HDF5 file', spec)
    else:
        head = raw[len(keys[0]) + 1:len(keys[0]) + 6]
        ctx.check(raw.startswith(keys[0].encode() + b' '), 'archive does not start with the key')
        if want['binary']:
            ctx.check(head.startswith(b'\0BCM') if comp else head.startswith(b'\0BFM'), 'binary header', raw[:40])
        else:
            ctx.check(b'\0' not in raw and head.strip().startswith(b'['), 'text archive', raw[:40])
    ctx.same(os.path.exists(want['script']) if want['script'] else True, True, 'script file')
    tol = 0 if not comp else .05
    if not want['binary']:
        tol += 1e-6
    rs = [('h5:' if want['atype'] == 'H5' else 'ark:') + want['archive']]
    if want['script']:
        rs.append('scp:' + want['script'])
        ctx.same([l.split(' ')[0] for l in open(want['script'])], keys, 'script keys')
    model = dict(zip(keys, x))
    for r in rs:
        with SF.create(r) as rd:
            k, d = rd.read()
        ctx.same(sorted(k), sorted(keys), 'keys read', r)
        for a, b in zip(k, d):
            ctx.close(b, model[a], 'values', rtol=0, atol=tol * (np.ptp(model[a]) + 1) + 1e-12)
    if want['atype'] == 'ARK':
        ctx.raises(lambda: RF.create(rs[0]), 'random access to a bare archive')
    if want['atype'] == 'H5' or want['script']:
        with RF.create(rs[-1]) as rd:
            ctx.close(rd.read(keys[0])[0], model[keys[0]], 'value by key', rtol=0, atol=tol * (np.ptp(model[keys[0]]) + 1) + 1e-12)
    ctx.sig(want['atype'], want['type'], want['binary'], want['flush'], comp, tuple(extra))
