"""C13 segments, diarization files and the speech masks made from them"""
import os
import subprocess
import sys

import numpy as np

from ..core import case
from ..iolib import gen_keys


def gen_segs(ctx, nf=None, dur=20., share=True, maxper=5, uni=True):
    """[(segment id, file id, tbeg, tend)] times in ms resolution, by file and time"""
    nf = nf or ctx.size(1, 6, 66)
    maxper = maxper if nf > 6 else ctx.size(maxper, maxper, 66)
    style = ctx.int(0, 2)
    files = gen_keys(ctx, nf, uni=uni) if style else ['%04d' % i for i in ctx.rng.permutation(200)[:nf]]
    out = []
    for f in files:
        t = 0.
        for j in range(ctx.int(1, maxper)):
            b = round(ctx.rng.uniform(0, dur), 3) if not share else round(t + ctx.rng.uniform(0, 2) * ctx.int(0, 1), 3)
            e = round(b + ctx.pick([0., .01, .25]) + ctx.rng.uniform(0, 3) * ctx.int(0, 1), 3)
            out.append(['%s-%d' % (f, j), f, b, e])
            t = e
    return out


def mk(ctx, segs, by):
    from hyperion.utils import SegmentList
    c = list(zip(*segs))
    a = ctx.flip()
    return SegmentList.create(*[list(x) if a else np.array(x) for x in c], index_by_file=by)


def rows(s):
    return [(str(a), str(b), round(float(c), 6), round(float(d), 6)) for a, b, c, d in zip(s.segment_id, s.file_id, s.tbeg, s.tend)]


def T(segs):
    return [tuple(x[:2]) + (round(x[2], 6), round(x[3], 6)) for x in segs]


def look(ctx, s, segs, by, when):
    ctx.same(rows(s), T(segs), 'segments after ' + when)
    ctx.same(len(s), len(segs), 'length after ' + when)
    files = sorted({x[1] for x in segs})
    ctx.same([str(f) for f in s.uniq_file_id], files, 'files after ' + when)
    x = ctx.pick(segs)
    of = [y for y in segs if y[1] == x[1]]
    ctx.check(x[0] in s and 'no-such-segment' not in s, 'membership after ' + when, x[0])
    ctx.same([str(i) for i in s.segments_ids_from_file(x[1])], [y[0] for y in of], 'segments of a file after ' + when)
    one = lambda r: (str(r['segment_id']), str(r['file_id']), round(float(r['tbeg']), 6), round(float(r['tend']), 6))
    if by:
        ctx.same(rows(s[x[1]]), T(of), 'segments by file after ' + when)
        i = ctx.int(0, len(files) - 1)
        ctx.same(rows(s[i]), T([y for y in segs if y[1] == files[i]]), 'file by position after ' + when)
        ctx.raises(lambda: s[len(files)], 'file beyond the end')
        it = [rows(q) for q in s]
        ctx.same(it, [T([y for y in segs if y[1] == f]) for f in files], 'iteration after ' + when)
    else:
        ctx.same(one(s[x[0]]), T([x])[0], 'segment by id after ' + when)
        i = ctx.int(0, len(segs) - 1)
        ctx.same(one(s[i]), T([segs[i]])[0], 'segment by position after ' + when)
        ctx.raises(lambda: s[len(segs)], 'segment beyond the end')
        ctx.same([one(q) for q in s], T(segs), 'iteration after ' + when)


@case(quick=250, mult=12)
def segment_lists(ctx):
    from hyperion.utils import SegmentList
    segs = gen_segs(ctx)
    by = ctx.flip()
    if ctx.flip(.3):
        ctx.rng.shuffle(segs)
        segs = [list(x) for x in segs]
    s = mk(ctx, segs, by)
    ops = []
    for _ in range(ctx.int(1, 5)):
        op = ctx.pick(['file', 'filter', 'filter-out', 'split', 'merge', 'index', 'copy'])
        ops.append(op)
        s0, before = s, [list(x) for x in segs]
        idx = (lambda x: x[1]) if by else (lambda x: x[0])
        names = list(dict.fromkeys(idx(x) for x in segs))
        if op == 'file':
            p = ctx.path('segments')
            sep = ctx.pick([' ', '\t', ','])
            s.save(p, sep=sep)
            ctx.same(open(p).read().splitlines(), ['%s%s%s%s%.3f%s%.3f' % (x[0], sep, x[1], sep, x[2], sep, x[3]) for x in segs],
                     'segments file')
            s = SegmentList.load(p, sep=sep, index_by_file=by)
        elif op in ('filter', 'filter-out'):
            sel = [k for k in names if ctx.flip(.6)]
            ctx.rng.shuffle(sel)
            if op == 'filter' and sel:
                s = s.filter(np.array(sel) if ctx.flip() else sel)
                segs = [x for k in sel for x in segs if idx(x) == k]
                ctx.raises(lambda: s0.filter(list(sel) + ['no-such']), 'filtering by a name that is not there')
            elif op == 'filter-out' and len(sel) < len(names):
                s = s.filter(sel, keep=False)
                want = [x for x in segs if idx(x) not in sel]
                ctx.same(sorted(rows(s)), sorted(T(want)), 'segments left')
                segs = [list(x) for x in rows(s)]
        elif op == 'split':
            names = sorted(names) if by else names
            P = ctx.int(1, len(names))
            parts = [s.split(i, P) for i in range(1, P + 1)]
            got = sum([rows(p) for p in parts], [])
            ctx.same(got, T([x for k in names for x in segs if idx(x) == k]), 'parts do not make up the list', by, P)
            cnt = [len({r[1 if by else 0] for r in rows(p)}) for p in parts]
            ctx.check(min(cnt) >= 1 and max(cnt) - min(cnt) <= 1, 'unbalanced parts', cnt)
            s = ctx.pick(parts)
            segs = [list(x) for x in rows(s)]
        elif op == 'merge':
            o = [['n%d%s' % (len(ops), x[0])] + x[1:] for x in gen_segs(ctx, ctx.int(1, 2))]
            s = SegmentList.merge([s, mk(ctx, o, by)], index_by_file=by)
            segs = segs + o
        elif op == 'index':
            by = not by
            s = s.copy()
            s.index_by_file = by
        else:
            s = s.copy()
            ctx.check(s == s0 and not (s != s0), 'copy is not equal')
        if s is not s0 and op != 'index':
            ctx.same(rows(s0), T(before), 'the original changed on ' + op)
        look(ctx, s, segs, by, op)
        # equality tells lists apart
        i, j = ctx.int(0, len(segs) - 1), ctx.int(0, 3)
        other = [list(x) for x in segs]
        if j == 2 and other[i][2] < .002:
            j = 3
        other[i][j] = other[i][j] + '~' if j < 2 else other[i][j] + (-.001 if j == 2 else .001)
        if all(a[1] != b[1] or a[2] <= b[2] for a, b in zip(other, other[1:])):
            a, b = mk(ctx, segs, by), mk(ctx, other, by)
            ctx.check(not (a == b) and a != b, 'different lists compare equal', segs[i], other[i])
            ctx.check(mk(ctx, segs, by) == a, 'equal lists compare different')
    if ctx.flip(.3):
        e = s.filter(sorted({x[1 if by else 0] for x in segs}), keep=False)
        for when in ('filtering all out', 'loading'):
            ctx.check(len(e) == 0 and rows(e) == [] and list(e) == [] and segs[0][1 if by else 0] not in e, 'empty list after ' + when)
            e.save(ctx.path('none'))
            e = SegmentList.load(ctx.path('none'), index_by_file=by)
        some = [mk(ctx, segs, by), e]
        ctx.rng.shuffle(some)
        look(ctx, SegmentList.merge(some, index_by_file=by), segs, by, 'merging with an empty list')
    bad = [list(x) for x in segs]
    bad[ctx.int(0, len(bad) - 1)][3] = -1.
    ctx.raises(lambda: mk(ctx, bad, by), 'segment that ends before it begins')
    ctx.event('operations', len(ops))
    ctx.sig(tuple(ops[:3]), by)
    ctx.sample(ops=' '.join(ops), segments=len(segs))


def frames(iv, shift, n):
    """(mask, frames whose rounding is a tie)"""
    v = np.zeros(n, dtype=int)
    for b, e in iv:
        i, j = b * 1000. / shift, e * 1000. / shift
        lo, hi = int(np.floor(i + .5)), int(np.floor(j + .5))
        v[max(lo, 0):max(hi + 1, 0)] = 1
    tie = any(abs(x * 1000. / shift % 1 - .5) < 1e-6 for t in iv for x in t)
    return v, tie


@case(quick=200, mult=12)
def masks(ctx):
    """to_bin_vad marks exactly the frames between the limits of the segments"""
    segs = gen_segs(ctx, share=ctx.flip())
    by = ctx.flip()
    s = mk(ctx, segs, by)
    for _ in range(3):
        x = ctx.pick(segs)
        shift = ctx.pick([10, 10, 5, 12.5, 16])
        of = [y for y in segs if y[1] == x[1]]
        iv = [(y[2], y[3]) for y in (of if by else [x])]
        last = max(y[3] for y in of)
        n = None
        nn = int(round(last * 1000. / shift))
        if ctx.flip(.7):
            n = nn = max(1, int(last * 1000. / shift * ctx.pick([.5, 1., 1.2]) + ctx.int(0, 3)))
        want, tie = frames(iv, shift, nn)
        if tie or (n is None and (nn < 1 or abs(last * 1000. / shift % 1 - .5) < 1e-6)):
            continue
        v = s.to_bin_vad(x[1] if by else x[0], frame_shift=shift, num_frames=n)
        ctx.same(np.asarray(v), want, 'speech mask', by, shift, n, str(iv))
        ctx.event('masks')
        ctx.sig(by, shift, n is None, len(iv))
    ctx.check(True, 'done')


# ---------------------------------------------------------------- RTTM
def gen_rttm(ctx, nf=None, overlap=False, uni=True):
    nf = nf or ctx.size(1, 5, 66)
    most = 6 if nf > 5 else ctx.size(6, 6, 66)
    files = gen_keys(ctx, nf, uni=uni) if ctx.flip() else ['%03d' % i for i in ctx.rng.permutation(900)[:nf]]
    out = []
    for f in files:
        t = 0.
        for j in range(ctx.int(1, most)):
            b = round(t + ctx.pick([0., .05, .5, 1.5]), 3)
            d = round(ctx.pick([.2, 1., 3.]) + ctx.int(0, 99) / 1000., 3)
            out.append([f, b, d, ctx.pick(['A', 'B', '01', 'spk-c'])])
            t = b + d if not overlap or ctx.flip() else b + d * ctx.pick([.2, .5, .9])
            t = round(t, 3)
    return out


def mkr(segs, by=True):
    from hyperion.utils import RTTM
    c = list(zip(*segs))
    return RTTM.create_spkdiar(list(c[0]), list(c[1]), list(c[2]), list(c[3]), index_by_file=by)


def rrows(r):
    return [(str(a), round(float(b), 6), round(float(c), 6), str(d)) for a, b, c, d in zip(r.file_id, r.tbeg, r.tdur, r.name)]


def TR(x):
    return [tuple(y) for y in x]


@case(quick=200, mult=12)
def diarization(ctx):
    from hyperion.utils import RTTM, SegmentList
    segs = gen_rttm(ctx, overlap=ctx.flip(.3))
    by = ctx.flip(.7)
    r = mkr(segs, by)
    ops = []
    for _ in range(ctx.int(1, 4)):
        op = ctx.pick(['file', 'filter', 'filter-out', 'split', 'merge', 'copy'])
        ops.append(op)
        before = [list(x) for x in segs]
        r0 = r
        files = list(dict.fromkeys(x[0] for x in segs))
        if op == 'file':
            p = ctx.path('a.rttm')
            r.save(p)
            ctx.same([l.split() for l in open(p)], [['SPEAKER', f, '1', '%.3f' % b, '%.3f' % d, '<NA>', '<NA>', n, '<NA>', '<NA>']
                                                    for f, b, d, n in segs], 'rttm file')
            r = RTTM.load(p, index_by_file=by)
        elif op in ('filter', 'filter-out') and by:
            sel = [f for f in files if ctx.flip(.6)]
            if op == 'filter' and sel:
                r = r.filter(sel)
                segs = [x for f in sel for x in segs if x[0] == f]
            elif op == 'filter-out' and len(sel) < len(files):
                r = r.filter(sel, keep=False)
                ctx.same(sorted(rrows(r)), sorted(TR(x for x in segs if x[0] not in sel)), 'segments left')
                segs = [list(x) for x in rrows(r)]
        elif op == 'split' and by:
            P = ctx.int(1, len(files))
            parts = [r.split(i, P) for i in range(1, P + 1)]
            ctx.same(sum([rrows(p) for p in parts], []), TR(x for f in files for x in segs if x[0] == f), 'parts do not make up the list')
            ctx.check(min(len(p) for p in parts) > 0, 'empty part')
            r = ctx.pick(parts)
            segs = [list(x) for x in rrows(r)]
        elif op == 'merge':
            o = [['n%d%s' % (len(ops), x[0])] + x[1:] for x in gen_rttm(ctx, ctx.int(1, 2))]
            r = RTTM.merge([r, mkr(o, by)], index_by_file=by)
            segs = segs + o
        else:
            r = r.copy()
            ctx.check(r == r0 and not (r != r0), 'copy is not equal')
            i = ctx.int(0, len(segs) - 1)
            other = [list(x) for x in segs]
            other[i][3] += '~'
            ctx.check(not (mkr(other, by) == mkr(segs, by)) and mkr(other, by) != mkr(segs, by), 'different diarizations compare equal')
        if r is not r0:
            ctx.same(rrows(r0), TR(before), 'the original changed on ' + op)
        ctx.same(rrows(r), TR(segs), 'segments after ' + op)
        files = list(dict.fromkeys(x[0] for x in segs))
        ctx.same((len(r), r.num_files), (len(segs), len(files)), 'sizes after ' + op)
        ctx.same(int(r.total_num_spks), len({x[3] for x in segs}), 'number of speakers after ' + op)
        ctx.same({str(k): int(v) for k, v in r.num_spks_per_file.items()}, {f: len({x[3] for x in segs if x[0] == f}) for f in files},
                 'speakers per file after ' + op)
        ctx.close(r.avg_num_spks_per_file, np.mean([len({x[3] for x in segs if x[0] == f}) for f in files]), 'average speakers')
        if by:
            f = ctx.pick(files)
            ctx.check(f in r and 'no-such-file' not in r, 'membership after ' + op)
            ctx.same(rrows(r[f]), TR(x for x in segs if x[0] == f), 'segments of a file after ' + op)
            ctx.same([rrows(q) for q in r], [TR(x for x in segs if x[0] == g) for g in files], 'iteration after ' + op)
        f = ctx.pick(files)
        mine = {x[3] for x in segs if x[0] == f}
        ctx.same([str(g) for g in r.get_files_with_names_diff_to_file(f)],
                 list(dict.fromkeys(x[0] for x in segs if x[3] not in mine)), 'files with other speakers after ' + op)
    if by:
        sl = r.to_segment_list()
        ctx.same([x[1:] for x in rows(sl)], [(f, round(b, 6), round(b + d, 6)) for f, b, d, n in segs], 'segments of the diarization')
        ids = [x[0] for x in rows(sl)]
        ctx.same(len(set(ids)), len({(f, round(b, 3), round(b + d, 3)) for f, b, d, n in segs}), 'different ids of the segments of the diarization')
        sl.index_by_file = False
        i = ctx.int(0, len(segs) - 1)
        if ids.count(ids[i]) == 1:
            x = sl[ids[i]]
            ctx.same((str(x['file_id']), round(float(x['tbeg']), 6)), (segs[i][0], round(segs[i][1], 6)), 'a segment of the diarization by id')
        sl.index_by_file = True
        back = RTTM.create_spkdiar_from_segments(sl, [x[3] for x in segs], prepend_file_id=True)
        ctx.same(rrows(back), [(f, round(b, 6), round(d, 6), f + '_' + n) for f, b, d, n in segs], 'diarization from segments')
    if by and ctx.flip(.3):
        e = r.filter(sorted({x[0] for x in segs}), keep=False)
        for when in ('filtering all out', 'loading'):
            ctx.check(len(e) == 0 and rrows(e) == [] and segs[0][0] not in e and e.num_files == 0, 'empty diarization after ' + when)
            e.save(ctx.path('none'))
            e = RTTM.load(ctx.path('none'), index_by_file=by)
        some = [mkr(segs, by), e]
        ctx.rng.shuffle(some)
        ctx.same(rrows(RTTM.merge(some, index_by_file=by)), TR(segs), 'merging with an empty diarization')
    r.prepend_file_id_to_name()
    ctx.same(rrows(r), [(f, b, d, f + '_' + n) for f, b, d, n in segs], 'speaker names with file')
    bad = mkr(segs, by) if len(segs) < 2 or segs[0][0] != segs[1][0] or segs[0][1] == segs[1][1] else None
    if bad is None:
        ctx.raises(lambda: mkr([segs[1], segs[0]] + segs[2:], by), 'segments of a file out of order taken')
    ctx.event('operations', len(ops))
    ctx.sig(tuple(ops), by)


@case(quick=150, mult=12)
def adjacent(ctx):
    """merging adjacent segments of a speaker covers the same time plus the gaps up to the margin"""
    segs = gen_rttm(ctx, overlap=ctx.flip())
    r = mkr(segs, ctx.flip())
    m = ctx.pick([0, .049, .1, .51, 2.])
    want = []
    prev = None
    for x in segs:      # rows that follow each other
        if prev is not None and prev[0] == x[0] and prev[3] == x[3]:
            gap = x[1] - prev[1] - prev[2]
            if abs(gap - m) < 1e-6 and m != 0:
                return ctx.check(True, 'tie')
            if gap <= m + 1e-9:
                want[-1][2] = max(want[-1][2], x[1] + x[2] - want[-1][1])
                prev = x
                continue
        want.append(list(x))
        prev = x
    if m == 0 and any(a[0] == b[0] and a[3] == b[3] and 0 < abs(b[1] - a[1] - a[2]) < 1e-9 for a, b in zip(segs, segs[1:])):
        return ctx.check(True, 'tie')
    r.merge_adjacent_segments(t_margin=m)
    g = rrows(r)
    ctx.same([x[::3] for x in g], [(x[0], x[3]) for x in want], 'merged segments', str(segs), m)
    ctx.close([x[1:3] for x in g], [x[1:3] for x in want], 'times of merged segments', atol=1e-6, info=str(segs))
    ctx.event('merged', len(segs) - len(want))
    ctx.sig(len(segs) - len(want), m)


@case(quick=150, mult=12)
def segment_types(ctx):
    """lists that hold segments of several types: only those of speakers count as such, and only equals are joined"""
    from hyperion.utils import RTTM
    segs = [x + [ctx.pick(['SPEAKER', 'SPEAKER', 'NON-SPEECH', 'NOISE'])] for x in gen_rttm(ctx)]
    by = ctx.flip(.7)
    c = [list(x) for x in zip(*segs)]
    # the other columns: any of them, and some not given
    cols = {k: ['%s%d' % (k, ctx.int(0, 4)) for _ in segs] for k in ('ortho', 'stype', 'conf', 'slat') if ctx.flip(.6)}
    segs = [x + [tuple(cols[k][i] if k in cols else '<NA>' for k in ('ortho', 'stype', 'conf', 'slat'))] for i, x in enumerate(segs)]
    r = RTTM.create(c[4], c[0], tbeg=c[1], tdur=c[2], name=c[3], index_by_file=by, **cols)
    full = lambda r: [tuple(x) + (str(t),) for x, t in zip(rrows(r), r.segments['segment_type'])]
    files = list(dict.fromkeys(c[0]))
    if ctx.flip(.4):
        r.save(ctx.path('t.rttm'))
        r = RTTM.load(ctx.path('t.rttm'), index_by_file=by)
    if by and ctx.flip(.4):
        P = ctx.int(1, len(files))
        r = RTTM.merge([r.split(i, P) for i in range(1, P + 1)], index_by_file=by)
    if by and ctx.flip(.4):
        files = [f for f in files if ctx.flip(.7)] or files[:1]
        segs = [x for f in files for x in segs if x[0] == f]
        r = r.filter(files)
    ctx.same([tuple('<NA>' if v != v or v is None else str(v) for v in x) for x in zip(*[r.segments[k] for k in ('ortho', 'stype', 'conf', 'slat')])],
             [x[5] for x in segs], 'columns of the segments')
    segs = [x[:5] for x in segs]
    ctx.same(full(r), TR(segs), 'segments with their types')
    spk = [x for x in segs if x[4] == 'SPEAKER']
    ctx.same(int(r.total_num_spks), len({x[3] for x in spk}), 'number of speakers among types')
    per = {f: len({x[3] for x in spk if x[0] == f}) for f in files}
    ctx.same({str(k): int(v) for k, v in r.num_spks_per_file.items()}, per, 'speakers per file among types')
    ctx.close(r.avg_num_spks_per_file, np.mean(list(per.values())), 'average speakers among types')
    t = ctx.pick(['SPEAKER', 'NOISE'])
    f = ctx.pick(files)
    mine = {x[3] for x in segs if x[0] == f and x[4] == t}
    ctx.same([str(g) for g in r.get_files_with_names_diff_to_file(f, segment_type=t)],
             list(dict.fromkeys(x[0] for x in segs if x[4] == t and x[3] not in mine)), 'files with other names of a type')
    r.prepend_file_id_to_name(segment_type=t)
    segs = [x[:3] + [(x[0] + '_' if x[4] == t else '') + x[3], x[4]] for x in segs]
    ctx.same(full(r), TR(segs), 'names with file for a type')
    want = []
    for a, x in zip([None] + segs[:-1], segs):
        if a is not None and a[0] == x[0] and a[3:] == x[3:] and x[1] - a[1] - a[2] <= .7:
            want[-1][2] = round(max(want[-1][2], x[1] + x[2] - want[-1][1]), 6)
        else:
            want.append(list(x))
    r.merge_adjacent_segments(t_margin=.7)      # gaps are 0, .05, .5 or 1.5
    g = full(r)
    ctx.same([x[::3] + x[4:] for x in g], [(x[0], x[3], x[4]) for x in want], 'merged segments among types', str(segs))
    ctx.close([x[1:3] for x in g], [x[1:3] for x in want], 'times of merged segments among types', atol=1e-5, info=str(segs))
    ctx.event('other types', len(segs) - len(spk))
    ctx.sig(by, len(files), len(segs), len(want))


@case(quick=8, mult=10)
def programs(ctx):
    """the programs that turn segments and diarization files into masks"""
    from hyperion.io import RandomAccessDataReaderFactory as RF
    which = ctx.pick(['segments', 'rttm'])
    repo = os.environ.get('VT_REPO', '/repo')
    if which == 'segments':
        segs = gen_segs(ctx, nf=ctx.int(2, 5), uni=False)
        s = mk(ctx, segs, True)
        iv = {}
        for x in segs:
            iv.setdefault(x[1], []).append((x[2], x[3]))
    else:
        segs = gen_rttm(ctx, nf=ctx.int(2, 5), overlap=ctx.flip(), uni=False)
        s = mkr(segs)
        iv = {}
        for f, b, d, n in segs:
            iv.setdefault(f, []).append((b, round(b + d, 3)))
    s.save(ctx.path('in'))
    shift = ctx.pick([10, 16])
    n = {f: max(1, int(max(e for _, e in v) * 1000. / shift) + ctx.int(-2, 4)) for f, v in iv.items()}
    extra = ctx.pick(['silent-file', 'NA', 'nan', '07'])
    if extra in iv:
        extra = 'silent-file'
    n[extra] = 17
    with open(ctx.path('nf'), 'w') as f:
        for k in n:
            f.write('%s %d\n' % (k, n[k]))
    P = ctx.pick([1, 2])
    table = ctx.flip(.8) or any(max(e for _, e in v) < .2 for v in iv.values())
    env = dict(os.environ, PYTHONPATH=repo)
    got = {}
    for p in range(1, P + 1):
        cmd = [sys.executable, os.path.join(repo, 'hyperion/bin', which + '-to-bin-vad.py'), '--' + which, ctx.path('in'),
               '--frame-shift', str(shift), '--output-path', 'ark,scp:%s,%s' % (ctx.path('v%d.ark' % p), ctx.path('v%d.scp' % p)),
               '--part-idx', str(p), '--num-parts', str(P)]
        if table:
            cmd += ['--num-frames', ctx.path('nf')]
        q = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=ctx.tmp)
        ctx.check(q.returncode == 0, 'program failed', q.stdout.decode(errors='replace')[-1500:])
        ks = [l.split()[0] for l in open(ctx.path('v%d.scp' % p))]
        for k, v in zip(ks, RF.create('scp:' + ctx.path('v%d.scp' % p)).read(ks)):
            ctx.check(k not in got, 'file in two parts')
            got[k] = np.asarray(v)
    ctx.same(sorted(got), sorted(iv) + ([extra] if which == 'rttm' and table else []) if extra > max(iv) else
             sorted(list(iv) + ([extra] if which == 'rttm' and table else [])), 'files with a mask')
    for f, v in iv.items():
        nn = n[f] if table else int(round(max(e for _, e in v) * 1000. / shift))
        w, tie = frames(v, shift, nn)
        if not tie:
            ctx.same(got[f], w.astype(float), 'mask of a file', which, f, str(v), shift, nn)
    if extra in got:
        ctx.same(got[extra], np.ones(17), 'mask of a file without segments')
    ctx.event('files', len(got))
    ctx.sig(which, P, table, shift)


@case(quick=150, mult=12)
def overlaps_and_names(ctx):
    """overlaps cut in the middle; who speaks in a list of segments; frames of each speaker of a file"""
    from hyperion.utils import SegmentList
    segs = gen_rttm(ctx, overlap=ctx.flip(.7))
    by = ctx.flip()
    r = mkr(segs, by)
    # names in the segments of another list: any order of files, inside, around or across the turns
    q = []
    for f in sorted({x[0] for x in segs} | {'absent'}):
        for b in sorted(round(ctx.rng.rand() * 8, 3) + .0003 for _ in range(ctx.int(0, 4))):
            q.append((f, b, b + ctx.pick([.05, .4, 2., 20.])))
    q = q or [(segs[0][0], .0003, 5.)]
    sl = SegmentList.create(['q%03d' % i for i in range(len(q))], [x[0] for x in q], [x[1] for x in q], [x[2] for x in q])
    want = []
    for f, b, e in q:
        want.append(list(dict.fromkeys(x[3] for x in segs if x[0] == f and x[1] < e and x[1] + x[2] > b)))
    for get in (r.get_segment_names, r.get_segment_names_slow):
        names, n = get(sl, sep='@')
        ctx.same([int(i) for i in n], [len(w) for w in want], 'number of speakers in a segment', str(segs), q)
        ctx.same([str(a) for a in names], ['@'.join(w) if w else '<NA>' for w in want], 'speakers in a segment', str(segs), q)
    # frames
    f = ctx.pick([x[0] for x in segs])
    mine = [x for x in segs if x[0] == f]
    s = ctx.pick([.01, .001, .1])
    fr = lambda t: int(np.round(t / s))
    if all(abs(t / s - np.floor(t / s) - .5) > 1e-3 for x in mine for t in (x[1], x[1] + x[2])):
        who = sorted({x[3] for x in mine})
        M = np.zeros((max(fr(x[1] + x[2]) for x in mine), len(who)), dtype=int)
        for x in mine:
            M[fr(x[1]): fr(x[1] + x[2]), who.index(x[3])] = 1
        ctx.same(np.asarray(r.to_matrix(f, frame_shift=s)), M, 'frames of the speakers of a file', str(mine), s)
    d = np.array([x[2] for x in segs])
    info, (cnt, edges), spk = r.compute_stats() if ctx.flip() else r.compute_stats(nbins_dur=ctx.int(1, 9))
    ctx.close([info[k] for k in ('mean', 'median', 'min', 'max')], [d.mean(), np.median(d), d.min(), d.max()], 'statistics of the durations')
    if len(d) > 1:
        ctx.close(info['std'], d.std(ddof=1), 'deviation of the durations')
    ctx.same((int(np.sum(cnt)), spk), (len(d), len({x[3] for x in segs})), 'histogram and speakers')
    ctx.same(rrows(r), TR(segs), 'diarization after looking at it')
    # overlaps, none of them with a turn inside another one
    keep = [segs[0]]
    for x in segs[1:]:
        y = keep[-1]
        if x[0] != y[0] or x[1] + x[2] >= y[1] + y[2]:
            keep.append(x)
    r = mkr(keep, by)
    r.eliminate_overlaps()
    n = 0
    want = [[x[0], x[1], x[1] + x[2], x[3]] for x in keep]
    for i in range(1, len(keep)):
        a, b = keep[i - 1], keep[i]
        if a[0] == b[0] and b[1] < a[1] + a[2]:
            want[i - 1][2] = want[i][1] = (a[1] + a[2] + b[1]) / 2
            n += 1
    g = rrows(r)
    ctx.same([x[::3] for x in g], [(x[0], x[3]) for x in want], 'turns after removing overlaps')
    ctx.close([[x[1], x[1] + x[2]] for x in g], [x[1:3] for x in want], 'times after removing overlaps', atol=1e-5, info=str(keep))
    ctx.event('overlaps', n)
    ctx.event('names', len(q))
    ctx.sig(by, min(n, 4), len(q), len(keep))
