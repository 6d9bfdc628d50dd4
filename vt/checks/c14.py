"""C14 cross-validation folds and train/validation/evaluation partitions"""
import numpy as np

from ..core import case


def table(ctx, min_groups):
    """keys in groups (speakers), groups in classes (balance), mask"""
    C = ctx.int(1, 3)
    extra = ctx.size(7, 7, 128)
    keys, grp, cls = [], [], []
    for c in range(C):
        for g in range(ctx.int(min_groups, min_groups + extra)):
            for k in range(ctx.int(1, 4)):
                keys.append('u%d-%d-%d' % (c, g, k))
                grp.append('spk%d-%d' % (c, g))
                cls.append('cl%d' % c)
    i = ctx.rng.permutation(len(keys))
    return np.array(keys)[i], np.array(grp)[i], np.array(cls)[i]


def spread(ctx, part, keys, grp, cls, N, prop, mask, grouped, balanced, tag):
    sel = np.ones(len(keys), dtype=bool) if mask is None else mask
    ctx.check(np.all((part[sel] >= 0) & (part[sel] < N)), tag + ': segment without part')
    units = grp if grouped else keys
    classes = cls if balanced else np.array(['x'] * len(keys))
    for c in np.unique(classes[sel]):
        m = sel & (classes == c)
        d = {}
        for u, p in zip(units[m], part[m]):
            ctx.check(d.setdefault(u, p) == p, tag + ': group in two parts', u)
        cnt = np.bincount(list(d.values()), minlength=N)
        want = len(d) * np.asarray(prop)
        ctx.check(np.all(np.abs(cnt - want) <= 1 + 1e-9), tag + ': parts out of proportion', cnt, want)


@case(quick=400, mult=12)
def folds(ctx):
    from hyperion.utils.fold_list import FoldList
    N = ctx.int(2, 5)
    keys, grp, cls = table(ctx, N)
    grouped, balanced = ctx.flip(), ctx.flip()
    mask = None
    if ctx.flip(.3):
        mask = np.ones(len(keys), dtype=bool)
        for c in range(3):        # drop a few, keep enough groups
            mask[ctx.rng.randint(len(keys))] = False
    kw = dict(balance_by_key=cls if balanced else None, group_by_key=grp if grouped else None, mask=mask)
    shuffle, seed = ctx.flip(), ctx.seedint()
    if mask is not None:
        u = grp if grouped else keys
        c1 = cls if balanced else np.array(['x'] * len(keys))
        if any(len(set(u[mask & (c1 == c)])) < N for c in set(c1)):
            kw['mask'] = mask = None
    k0, g0, c0 = keys.copy(), grp.copy(), cls.copy()
    f = FoldList.create(keys, N, shuffle=shuffle, seed=seed, **kw)
    f2 = FoldList.create(keys, N, shuffle=shuffle, seed=seed, **kw)
    ctx.same(np.asarray(f2.fold), np.asarray(f.fold), 'folds with the same seed differ')
    ctx.check(np.array_equal(k0, keys) and np.array_equal(g0, grp) and np.array_equal(c0, cls), 'input lists changed')
    ctx.same((int(f.num_folds), len(f)), (N, N), 'number of folds')
    spread(ctx, np.asarray(f.fold), keys, grp, cls, N, [1. / N] * N, mask, grouped, balanced, 'folds')

    def parts(f, keys, fold, mask, when):
        use = set(keys if mask is None else keys[mask])
        tests = []
        for i in range(N):
            tr, te = f.get_fold(i) if ctx.flip() else f[i]
            ti, ei = f.get_fold_idx(i)
            ctx.same(list(keys[np.asarray(ti)]), list(tr), 'train indices ' + when)
            ctx.same(list(keys[np.asarray(ei)]), list(te), 'test indices ' + when)
            ctx.same(list(te), [k for k, p in zip(keys, fold) if p == i and k in use], 'test segments of a fold ' + when)
            ctx.same(list(tr), [k for k, p in zip(keys, fold) if p != i and k in use], 'train segments of a fold ' + when)
            tests += list(te)
        ctx.same(sorted(tests), sorted(use), 'test segments do not cover the list once ' + when)
    parts(f, keys, np.asarray(f.fold), mask, 'created')
    perm = ctx.rng.permutation(len(keys))
    g = f.copy()
    g.align_with_key(keys[perm])
    ctx.same(list(g.key), list(keys[perm]), 'aligned keys')
    parts(g, keys[perm], np.asarray(f.fold)[perm], None if mask is None else mask[perm], 'aligned')
    ctx.raises(lambda: f.copy().align_with_key(np.append(keys, 'absent')), 'aligning with a key that is not there')
    if mask is None:
        f.save(ctx.path('folds'))
        ctx.same(open(ctx.path('folds')).read().splitlines(), ['%d %s' % z for z in zip(f.fold, keys)], 'fold file')
        parts(FoldList.load(ctx.path('folds')), keys, np.asarray(f.fold), None, 'loaded')
    ctx.event('segments', len(keys))
    ctx.sig(N, grouped, balanced, mask is None, shuffle, len(keys))
    ctx.sample(folds=N, segments=len(keys), grouped=grouped, balanced=balanced)


@case(quick=300, mult=12)
def partitions(ctx):
    from hyperion.utils.train_val_eval_list import TrainValEvalList as TV
    N = ctx.pick([2, 3, 3, 4])
    keys, grp, cls = table(ctx, 6)
    grouped, balanced = ctx.flip(), ctx.flip()
    prop = {2: [ctx.pick([.5, .7])], 3: [ctx.pick([.4, .5]), .25], 4: [.3, .2, .2]}[N]
    full = prop + [1 - sum(prop)]
    names = None if N < 4 else ['a', 'b', 'c', 'd']
    if ctx.flip(.3):
        names = ['p-%d' % i for i in range(N)]
    mask = None
    if ctx.flip(.25):
        mask = np.ones(len(keys), dtype=bool)
        mask[ctx.rng.randint(len(keys))] = False
    shuffle, seed = ctx.flip(), ctx.seedint()
    kw = dict(part_names=names, balance_by_key=cls if balanced else None, group_by_key=grp if grouped else None, mask=mask,
              shuffle=shuffle, seed=seed)
    # a share of less than a group in every class may leave a part without segments, which the list refuses
    units = [len({(grp if grouped else keys)[i] for i in range(len(keys)) if (not balanced or cls[i] == c) and (mask is None or mask[i])})
             for c in (set(cls) if balanced else [0])]
    try:
        t = TV.create(keys, prop, **kw)
    except AssertionError:
        if any(max(units) * p < 1 + 1e-6 for p in full):
            ctx.event('too-few-groups')
            return
        raise
    ctx.same(np.asarray(TV.create(keys, prop, **kw).part), np.asarray(t.part), 'parts with the same seed differ')
    part = np.asarray(t.part)
    spread(ctx, part, keys, grp, cls, N, full, mask, grouped, balanced, 'partition')
    ctx.same((int(t.num_parts()), len(t)), (N, N), 'number of parts')
    wn = names or {2: ['train', 'eval'], 3: ['train', 'val', 'eval']}[N]

    def look(t, keys, part, when):
        use = np.ones(len(keys), dtype=bool) if mask is None else mask[np.array([list(k0).index(k) for k in keys])]
        allk = []
        for i in range(N):
            want = [k for k, p, u in zip(keys, part, use) if p == i and u]
            ctx.same(list(t.get_part(i)), want, 'segments of a part ' + when)
            ctx.same(list(t[wn[i]]), want, 'segments of a part by name ' + when)
            ctx.same(list(keys[np.asarray(t.get_part_idx(wn[i]))]), want, 'indices of a part ' + when)
            allk += want
        ctx.same(sorted(allk), sorted(keys[use]), 'parts do not make up the list ' + when)
    k0 = keys
    look(t, keys, part, 'created')
    perm = ctx.rng.permutation(len(keys))
    g = t.copy()
    g.align_with_key(keys[perm])
    look(g, keys[perm], part[perm], 'aligned')
    ctx.raises(lambda: t.copy().align_with_key(np.append(keys, 'absent')), 'aligning with a key that is not there')
    if mask is None:
        t.save(ctx.path('parts'))
        look(TV.load(ctx.path('parts')), keys, part, 'loaded')
    ctx.event('segments', len(keys))
    ctx.sig(N, grouped, balanced, mask is None, shuffle, len(keys))


@case(quick=30, mult=12)
def shuffled(ctx):
    """shuffling draws another division, another seed draws another one again"""
    from hyperion.utils.fold_list import FoldList
    from hyperion.utils.train_val_eval_list import TrainValEvalList as TV
    keys, grp, cls = table(ctx, 8)
    N = ctx.int(2, 3)
    grouped, balanced = ctx.flip(), ctx.flip()
    kw = dict(balance_by_key=cls if balanced else None, group_by_key=grp if grouped else None)
    folds = ctx.flip()

    def make(**k):
        k.update(kw)
        if folds:
            return tuple(FoldList.create(keys, N, **k).fold)
        return tuple(TV.create(keys, [.5, .25], **k).part)
    plain = make(shuffle=False)
    ctx.same(make(shuffle=False, seed=ctx.seedint()), plain, 'without shuffling the seed does not matter')
    # two draws of a division of 8 groups or more are alike with a probability below 1/70
    got = [make(shuffle=True, seed=s) for s in range(8)]
    ctx.check(len(set(got) - {plain}) > 1, 'shuffling with 8 seeds leaves the division as it is')
    ctx.event('divisions', len(got))
    ctx.sig(folds, N, grouped, balanced, len(keys))
