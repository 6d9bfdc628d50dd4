"""C11 script lists and utterance information lists keep their lines together"""
import copy

import numpy as np

from ..core import case
from ..iolib import gen_keys


# ---------------------------------------------------------------- SCPList
def gen_lines(ctx, n, dup, off, rng):
    keys = gen_keys(ctx, n, uni=True)
    if dup and n > 1:
        keys = [ctx.pick(keys[:max(1, n // 2)]) for _ in range(n)]
    nf = ctx.int(1, max(1, n))
    odd = ctx.pick(['', '', ' ', '=', ',', ' (new) '])      # in the names of the files
    files = ['/d%d%s/f%s%d.ark' % (ctx.int(0, 3), ctx.pick(['', odd]), odd, i) for i in range(nf)]
    lines = []
    for k in keys:
        r = None
        if rng:
            a = ctx.int(0, 3) * ctx.int(0, 40)
            r = ctx.pick([(0, 0), (a, 0), (a, ctx.int(1, 50))])
        lines.append((k, ctx.pick(files), ctx.int(0, 10 ** ctx.int(1, 10)) if off else None, r))
    return lines


def build(ctx, lines, off, rng):
    from hyperion.utils import SCPList
    aslist = ctx.flip()
    col = (lambda x: x) if aslist else np.array
    o = [l[2] for l in lines] if off else None
    r = [list(l[3]) for l in lines] if rng else None
    if not aslist:
        o = None if o is None else np.array(o, dtype='int64')
        r = None if r is None else np.array(r, dtype='int64')
    return SCPList(col([l[0] for l in lines]), col([l[1] for l in lines]), o, r)


def lines_of(s):
    out = []
    n = len(s.key)
    for i in range(n):
        out.append((str(s.key[i]), str(s.file_path[i]), None if s.offset is None else int(s.offset[i]),
                    None if s.range_spec is None else tuple(int(x) for x in s.range_spec[i])))
    return out


def first(lines):
    """positions by key: any of the lines of a repeated key"""
    d = {}
    for i, l in enumerate(lines):
        d.setdefault(l[0], []).append(i)
    return d


def look(ctx, s, lines, when):
    """every way of looking at the list agrees with the model"""
    ctx.same(lines_of(s), lines, 'lines after ' + when)
    ctx.check(len(s) == len(lines) and s.len() == len(lines), 'length after ' + when)
    pos = first(lines)
    for _ in range(3):
        if not lines:
            break
        i = ctx.int(0, len(lines) - 1)
        l = lines[i]
        norm = lambda t: tuple(tuple(int(v) for v in x) if isinstance(x, np.ndarray) else (None if x is None else (
            int(x) if isinstance(x, (int, np.integer)) else str(x))) for x in t)
        ctx.same(norm(s[i]), l, 'line by position after ' + when)
        j = s.get_index(l[0])
        ctx.check(j in pos[l[0]], 'position of a key after ' + when, l[0], j, pos[l[0]])
        ctx.check(norm(s[l[0]]) in [lines[p][1:] for p in pos[l[0]]], 'line by key after ' + when, l[0], s[l[0]])
        ctx.check(l[0] in s, 'membership after ' + when, l[0])
    ctx.check('no-such-key-anywhere' not in s, 'membership of an absent key after ' + when)


@case(quick=400, mult=12)
def script_list(ctx):
    """a history of operations on a script list against a plain list of lines"""
    from hyperion.utils import SCPList
    n = ctx.size(1, 15, 600)
    dup, off, rng = ctx.flip(.3), ctx.flip(), ctx.flip()
    lines = gen_lines(ctx, n, dup, off, rng)
    s = build(ctx, lines, off, rng)
    if ctx.flip():
        look(ctx, s, lines, 'creation')
    ops = []
    for _ in range(ctx.int(1, 6)):
        op = ctx.pick(['sort', 'shuffle', 'split', 'split-by-key', 'filter', 'filter-out', 'index', 'index-out', 'paths',
                       'paths-out', 'merge', 'prefix', 'file', 'copy'])
        ops.append(op)
        before = list(lines)
        s0 = s
        if op == 'sort':
            s.sort()
            got = lines_of(s)
            ctx.same([g[0] for g in got], sorted(l[0] for l in lines), 'sorted keys')
            ctx.same(sorted(map(repr, got)), sorted(map(repr, lines)), 'lines lost or mixed when sorting')
            lines = got
        elif op == 'shuffle':
            seed = ctx.seedint()
            if ctx.flip():
                idx = s.shuffle(seed=seed)
            else:
                idx = s.shuffle(rng=np.random.RandomState(seed))
            ctx.same(sorted(int(i) for i in idx), list(range(len(lines))), 'shuffle is not a permutation')
            s2 = build(ctx, before, off, rng)
            ctx.same(np.asarray(s2.shuffle(seed=seed)), np.asarray(idx), 'shuffling with the same seed differs')
            lines = [lines[int(i)] for i in idx]
        elif op in ('split', 'split-by-key') and lines:
            by = op == 'split-by-key'
            uk = sorted({l[0] for l in lines})
            P = ctx.int(1, min(100, len(uk) if by else len(lines)))
            parts = [s.split(i, P, group_by_key=by) for i in range(1, P + 1)]
            pl = [lines_of(p) for p in parts]
            if by:
                owner = {}
                for i, q in enumerate(pl):
                    for l in q:
                        ctx.check(owner.setdefault(l[0], i) == i, 'lines of a key in two parts', l[0])
                ctx.same(sorted(map(repr, sum(pl, []))), sorted(map(repr, lines)), 'parts by key do not make up the list')
                ctx.same([l[0] for l in sum(pl, [])], sorted(l[0] for l in lines), 'order of the keys over the parts')
                for k in uk:
                    ctx.same([l for l in sum(pl, []) if l[0] == k], [l for l in lines if l[0] == k], 'order inside a key')
                cnt = [len({l[0] for l in q}) for q in pl]
            else:
                ctx.same(sum(pl, []), lines, 'parts do not make up the list', P)
                cnt = [len(q) for q in pl]
            ctx.check(min(cnt) >= 1 and max(cnt) - min(cnt) <= 1, 'unbalanced parts', cnt)
            i = ctx.int(0, P - 1)
            s, lines = parts[i], pl[i]
        elif op in ('filter', 'filter-out') and lines:
            uk = sorted({l[0] for l in lines})
            sel = [k for k in uk if ctx.flip(.6)]
            ctx.rng.shuffle(sel)
            arg = np.array(sel) if sel and ctx.flip() else sel
            keep = op == 'filter'
            s = s.filter(arg, keep=keep)
            lines = [l for l in lines if (l[0] in sel) == keep]
            if keep:
                ctx.raises(lambda: s0.filter(list(sel) + ['no-such-key']), 'filtering by a key that is not there')
        elif op in ('paths', 'paths-out') and lines:
            up = sorted({l[1] for l in lines})
            sel = [k for k in up if ctx.flip(.6)]
            keep = op == 'paths'
            s = s.filter_paths(sel, keep=keep)
            lines = [l for l in lines if (l[1] in sel) == keep]
        elif op in ('index', 'index-out') and lines:
            sel = [i for i in range(len(lines)) if ctx.flip(.6)]
            ctx.rng.shuffle(sel)
            keep = op == 'index'
            s = s.filter_index(np.array(sel, dtype='int64'), keep=keep)
            lines = [lines[i] for i in sel] if keep else [l for i, l in enumerate(lines) if i not in sel]
        elif op == 'merge' and lines:
            rng2 = ctx.flip(.2) != rng          # one of the two may have row ranges and the other none
            m = gen_lines(ctx, ctx.int(1, 5), False, off, rng2)
            o = build(ctx, m, off, rng2)
            some = [(s, lines), (o, m)] + ([(s0, lines)] if ctx.flip(.3) else [])
            if ctx.flip(.2):
                some.append((s.filter([], keep=True), []))
            ctx.rng.shuffle(some)
            s = SCPList.merge([x[0] for x in some])
            lines = sum([x[1] for x in some], [])
            if rng or rng2:
                rng, lines = True, [l[:3] + (l[3] or (0, 0),) for l in lines]
            m = gen_lines(ctx, ctx.int(1, 5), False, not off, rng)
            some = [s, build(ctx, m, not off, rng)]
            ctx.rng.shuffle(some)
            ctx.raises(lambda: SCPList.merge(some), 'merging lists with and without positions')
        elif op == 'prefix':
            s.add_prefix_to_filepath('/root/x/')
            lines = [(l[0], '/root/x/' + l[1]) + l[2:] for l in lines]
            s0 = None
        elif op == 'file' and lines:
            p = ctx.path('l.scp')
            sep, osep = ctx.pick([' ', '=', ',', '\t']), ctx.pick([':', ';'])
            if any(sep in l[0] for l in lines):
                sep = ' '
            s.save(p, sep=sep, offset_sep=osep)
            want = ['%s%s%s%s%s' % (l[0], sep, l[1], '' if l[2] is None else '%s%d' % (osep, l[2]),
                                    '' if l[3] is None or l[3] == (0, 0) else (
                                        '[%d:]' % l[3][0] if l[3][1] == 0 else '[%d:%d]' % (l[3][0], sum(l[3])))) for l in lines]
            ctx.same(open(p).read().splitlines(), want, 'script file')
            s = SCPList.load(p, sep=sep, offset_sep=osep)
            if s.range_spec is None and rng:
                lines = [l[:3] + (None,) for l in lines]
                ctx.check(all(l[3] == (0, 0) for l in before), 'ranges lost in the file')
                rng = False
            else:
                ctx.check(s == s0 and not (s != s0), 'loaded list is not equal to the saved one')
        elif op == 'copy':
            s = s.copy()
        if s0 is not None and s is not s0:
            ctx.same(lines_of(s0), before, 'the original list changed on ' + op)
        if not lines:
            ctx.same(len(s), 0, 'list should be empty after ' + op)
            p = ctx.path('none.scp')
            s.save(p)
            ctx.same(open(p).read(), '', 'script file of an empty list')
            ctx.same(len(SCPList.load(p)), 0, 'empty list from its file')
            break
        look(ctx, s, lines, op)
        # equality
        t = build(ctx, lines, off, rng)
        ctx.check(s == t and not (s != t), 'equal lists compare different')
        j = ctx.int(0, len(lines) - 1)
        l = list(lines[j])
        w = ctx.pick([0, 1] + ([2] if off else []) + ([3] if rng else []))
        l[w] = {0: str(l[0]) + 'Q', 1: l[1] + 'Q', 2: (l[2] or 0) + 1, 3: ((l[3] or (0, 0))[0] + 1, 7)}[w]
        l2 = lines[:j] + [tuple(l)] + lines[j + 1:]
        ctx.check(not (s == build(ctx, l2, off, rng)), 'different lists compare equal', lines[j], l)
    ctx.event('operations', len(ops))
    ctx.sig(tuple(ops[:3]), dup, off, rng)
    ctx.sample(ops=' '.join(ops), lines=len(lines))


# ---------------------------------------------------------------- Utt2Info
def rows_of(u):
    k = [str(x) for x in u.key]
    inf = np.asarray(u.info)
    if inf.ndim == 1:
        inf = inf[:, None]
    return [(a,) + tuple(str(v) for v in b) for a, b in zip(k, inf)]


def lookrows(ctx, u, rows, when):
    ctx.same(rows_of(u), rows, 'rows after ' + when)
    ctx.check(len(u) == len(rows) and u.len() == len(rows), 'length after ' + when)
    ctx.same(int(u.num_info_fields), len(rows[0]) - 1, 'number of fields after ' + when)
    for _ in range(3):
        i = ctx.int(0, len(rows) - 1)
        k = rows[i][0]
        g = u[i]
        f = (g[1],) if len(rows[0]) == 2 else tuple(g[1])
        ctx.same((str(g[0]),) + tuple(str(v) for v in f), rows[i], 'row by position after ' + when)
        g = u[k]
        f = (g,) if len(rows[0]) == 2 else tuple(g)
        ctx.same(tuple(str(v) for v in f), rows[i][1:], 'row by key after ' + when)
        ctx.same(int(u.get_index(k)), i, 'position of a key after ' + when)
        ctx.check(k in u, 'membership after ' + when)
    ctx.check('no-such-key-anywhere' not in u, 'membership of an absent key after ' + when)


@case(quick=250, mult=12)
def utt_info(ctx):
    """a history of operations on an utterance information list against a plain list of rows"""
    from hyperion.utils import Utt2Info
    n, nf = ctx.size(1, 12, 600), ctx.pick([1, 1, 2, 3])
    keys = gen_keys(ctx, n, uni=True)
    if ctx.flip(.2):
        keys = ['%04d' % i for i in ctx.rng.permutation(max(50, n + 9))[:n]]
    vals = ['spk%d' % i for i in range(4)] + ['007', 'NA', '1e3', 'f']
    rows = [(k,) + tuple(ctx.pick(vals[:4]) if j else ctx.pick(vals) for j in range(nf)) for k in keys]

    def make(rows):
        info = [r[1:] for r in rows] if nf > 1 or ctx.flip(.3) else [r[1] for r in rows]
        if ctx.flip():
            info = np.array(info)
        return Utt2Info.create([r[0] for r in rows], info)
    u = make(rows)
    if ctx.flip():
        lookrows(ctx, u, rows, 'creation')
    ops = []
    for _ in range(ctx.int(1, 6)):
        op = ctx.pick(['sort', 'sort-field', 'shuffle', 'split', 'split-field', 'filter', 'filter-out', 'info', 'info-out',
                       'index', 'index-out', 'merge', 'file', 'copy'])
        ops.append(op)
        before, u0 = list(rows), u
        inplace = False
        if op == 'sort':
            u.sort()
            rows = sorted(rows)
            inplace = True
        elif op == 'sort-field':
            f = ctx.int(1, nf)
            u.sort(f)
            got = rows_of(u)
            ctx.same([r[f] for r in got], sorted(r[f] for r in rows), 'order of the field sorted by')
            ctx.same(sorted(got), sorted(rows), 'rows lost or mixed when sorting')
            rows = got
            inplace = True
        elif op == 'shuffle':
            seed = ctx.seedint()
            idx = u.shuffle(seed=seed) if ctx.flip() else u.shuffle(rng=np.random.RandomState(seed))
            ctx.same(sorted(int(i) for i in idx), list(range(len(rows))), 'shuffle is not a permutation')
            rows = [rows[int(i)] for i in idx]
            inplace = True
        elif op == 'split':
            P = ctx.int(1, min(100, len(rows)))
            parts = [u.split(i, P) for i in range(1, P + 1)]
            pr = [rows_of(p) for p in parts]
            ctx.same(sum(pr, []), rows, 'parts do not make up the list')
            cnt = [len(p) for p in pr]
            ctx.check(min(cnt) >= 1 and max(cnt) - min(cnt) <= 1, 'unbalanced parts', cnt)
            i = ctx.int(0, P - 1)
            u, rows = parts[i], pr[i]
        elif op == 'split-field':
            f = ctx.int(1, nf)
            P = ctx.int(1, len({r[f] for r in rows}))
            parts = [u.split(i, P, group_by_field=f) for i in range(1, P + 1)]
            pr = [rows_of(p) for p in parts]
            owner = {}
            for i, q in enumerate(pr):
                ctx.check(len(q) > 0, 'empty part')
                for r in q:
                    ctx.check(owner.setdefault(r[f], i) == i, 'rows of a group in two parts', r)
            ctx.same(sorted(sum(pr, [])), sorted(rows), 'parts by field do not make up the list')
            i = ctx.int(0, P - 1)
            u, rows = parts[i], pr[i]
        elif op in ('filter', 'filter-out'):
            sel = [r[0] for r in rows if ctx.flip(.6)]
            ctx.rng.shuffle(sel)
            keep = op == 'filter'
            if keep:
                u = u.filter(sel if ctx.flip() else np.array(sel)) if sel else u
                d = {r[0]: r for r in rows}
                rows = [d[k] for k in sel] if sel else rows
                ctx.raises(lambda: u0.filter(list(sel) + ['no-such-key']), 'filtering by a key that is not there')
            elif len(sel) < len(rows):
                u = u.filter(sel, keep=False)
                got = rows_of(u)
                want = [r for r in rows if r[0] not in sel]
                ctx.same(sorted(got), sorted(want), 'rows left after filtering out')
                rows = got
        elif op in ('info', 'info-out'):
            f = ctx.int(1, nf)
            have = sorted({r[f] for r in rows})
            sel = [v for v in have if ctx.flip(.6)] or have[:1]
            keep = op == 'info'
            want = [r for r in rows if (r[f] in sel) == keep]
            if want:
                u = u.filter_info(np.array(sel), field=f, keep=keep)
                rows = want
                if keep:
                    ctx.raises(lambda: u0.filter_info(np.array(list(sel) + ['no-such-info']), field=f),
                               'filtering by a value that is not there')
        elif op in ('index', 'index-out'):
            sel = [i for i in range(len(rows)) if ctx.flip(.6)]
            ctx.rng.shuffle(sel)
            keep = op == 'index'
            want = [rows[i] for i in sel] if keep else [l for i, l in enumerate(rows) if i not in sel]
            if want:
                u = u.filter_index(np.array(sel, dtype='int64'), keep=keep)
                rows = want
        elif op == 'merge':
            have = {r[0] for r in rows}
            new = [k + 'm%d' % len(ops) for k in gen_keys(ctx, ctx.int(1, 4))]
            m = [(k,) + tuple(ctx.pick(vals[:4]) for _ in range(nf)) for k in new if k not in have]
            u = Utt2Info.merge([u, make(m)])
            rows = rows + m
        elif op == 'file':
            p = ctx.path('u2i')
            sep = ctx.pick([' ', ',', '\t'])
            u.save(p, sep=sep)
            ctx.same(open(p).read().splitlines(), [sep.join(r) for r in rows], 'information file')
            u = Utt2Info.load(p, sep=sep)
            if nf == 1 and ctx.flip():
                ctx.check(u == make(rows) and not (u != make(rows)), 'loaded list is not equal to the saved one')
        else:
            u = u.copy()
        if u is not u0 and not inplace:
            ctx.same(rows_of(u0), before, 'the original list changed on ' + op)
        lookrows(ctx, u, rows, op)
        l = list(rows[0])
        l[ctx.int(0, nf)] += 'Q'
        if op != 'file':
            t = make(rows)
            ctx.check(not (u == make([tuple(l)] + rows[1:])), 'different lists compare equal')
    if ctx.flip(.3):
        e = ctx.pick([lambda: u.filter(list(u.key), keep=False), lambda: u.filter([]), lambda: u.filter_index(np.array([], dtype='int64')),
                      lambda: u.filter_info(np.unique(np.array([r[1] for r in rows])), keep=False)])()
        ctx.check(len(e) == 0 and rows[0][0] not in e, 'list with everything filtered out')
        e.save(ctx.path('none'))
        e = Utt2Info.load(ctx.path('none'))
        ctx.check(len(e) == 0 and rows[0][0] not in e, 'empty list from its file')
        if nf == 1:
            some = [make(rows), e]
            ctx.rng.shuffle(some)
            lookrows(ctx, Utt2Info.merge(some), rows, 'merging with an empty list')
    ctx.event('operations', len(ops))
    ctx.sig(tuple(ops[:3]), nf)
    ctx.sample(ops=' '.join(ops), fields=nf)


# ---------------------------------------------------------------- list functions
@case(quick=250, mult=12)
def list_functions(ctx):
    from hyperion.utils.list_utils import (ismember, sort, intersect, split_list, split_list_group_by_key, list2ndarray)
    num = ctx.flip(.4)
    gen = (lambda n: [ctx.int(-5, 9) for _ in range(n)]) if num else (
        lambda n: [ctx.pick('abcdefghij') * ctx.int(1, 3) for _ in range(n)])
    a, b = gen(ctx.int(1, 15)), gen(ctx.int(1, 15))
    A = a if ctx.flip() else np.array(a)
    B = b if ctx.flip() else np.array(b)
    f, loc = ctx.pure(ismember, A, B)
    ctx.same([bool(x) for x in f], [x in b for x in a], 'ismember')
    ctx.check(all((not x) or b[int(l)] == y for x, l, y in zip(f, loc, a)), 'ismember positions')
    ctx.check(all((not x) or int(l) == b.index(y) for x, l, y in zip(f, loc, a)), 'ismember first position')
    rev = ctx.flip()
    sa, idx = ctx.pure(sort, A, reverse=rev, return_index=True)
    ctx.same(list(sa), sorted(a, reverse=rev), 'sort')
    ctx.same([a[int(i)] for i in idx], list(sa), 'sort index')
    ctx.same(sorted(int(i) for i in idx), list(range(len(a))), 'sort index is a permutation')
    ctx.same(list(ctx.pure(sort, A, reverse=rev)), sorted(a, reverse=rev), 'sort without index')
    c, ia, ib = ctx.pure(intersect, A, B, return_index=True)
    ctx.same(list(c), sorted(set(a) & set(b)), 'intersection')
    ctx.check(all(a[int(i)] == x and b[int(j)] == x for x, i, j in zip(c, ia, ib)), 'intersection positions')
    ua, ub = list(dict.fromkeys(a)), list(dict.fromkeys(b))
    ctx.same(list(intersect(ua, ub, assume_unique=True)), sorted(set(a) & set(b)), 'intersection of unique')
    P = ctx.int(1, 9)
    got, sizes, locs = [], [], []
    for i in range(1, P + 1):
        x, l = ctx.pure(split_list, A, i, P)
        ctx.same([a[int(j)] for j in l], list(x), 'split positions')
        got += list(x)
        sizes.append(len(x))
        locs += [int(j) for j in l]
    ctx.same(got, a, 'parts do not make up the list', P)
    ctx.same(locs, list(range(len(a))), 'positions of the parts', P)
    ctx.check(max(sizes) - min(sizes) <= 1, 'unbalanced parts', sizes)
    key = None if ctx.flip() else [ctx.pick('xyzw') for _ in a]
    kk = a if key is None else key
    locs = []
    owner = {}
    for i in range(1, P + 1):
        x, l = split_list_group_by_key(A, i, P, key=key)
        ctx.same([a[int(j)] for j in l], list(x), 'split by key positions')
        for j in l:
            ctx.check(owner.setdefault(kk[int(j)], i) == i, 'key in two parts')
        locs += [int(j) for j in l]
    ctx.same(sorted(locs), list(range(len(a))), 'parts by key do not make up the list', P)
    ctx.same([kk[j] for j in locs], sorted(kk), 'groups in order')
    ctx.check(list(list2ndarray(list(a))) == a, 'list to array')
    ctx.event('lists')
    ctx.sig(num, len(a), len(b), P, rev)
