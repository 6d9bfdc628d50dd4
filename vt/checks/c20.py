"""C20 confusion matrices and accuracy count the right pairs"""
import io
import sys

import numpy as np

from ..core import case


def names(ctx, n, kind):
    if kind == 'int':
        v = sorted(set(int(x) for x in ctx.rng.randint(*ctx.pick([(0, n + 1), (-3, 20), (0, 300), (-120, 120), (0, 250)]), size=n)))
        return v
    pool = ['a', 'bb', 'spk-1', 'spk-10', 'a b', 'longer-class-name', 'x2', 'TEST_a', 'Z']
    return sorted(ctx.rng.choice(pool, size=min(n, len(pool)), replace=False).tolist())


def count(yt, yp, lt, lp, w):
    C = np.zeros((len(lt), len(lp)))
    for a, b, x in zip(yt, yp, w):
        if a in lt and b in lp:
            C[lt.index(a), lp.index(b)] += x
    return C


def pickl(ctx, used, cls):
    """labels to index the matrix: default, or a reordered (sub)set with at least one used"""
    if ctx.flip():
        return None, sorted(set(used))
    l = [str(x) if isinstance(x, str) else int(x) for x in ctx.rng.permutation(np.array(cls, dtype=object))]
    if ctx.flip():
        k = ctx.int(1, len(l))
        l = [used[0]] + [x for x in l if x != used[0]][:k - 1]
    return l, l


def judge(ctx, f, want, lt, what):
    C = f(False)
    ctx.close(C, want, what, rtol=1e-9, atol=1e-9)
    if np.all(want.sum(1) > 0):
        ctx.close(f(True), want / want.sum(1, keepdims=True), 'normalised ' + what)
        ctx.close(f(None), want / want.sum(1, keepdims=True), 'default ' + what)


@case(quick=300, mult=12)
def matrices(ctx):
    from hyperion.metrics.confusion_matrix import (compute_confusion_matrix as cm, compute_xlabel_confusion_matrix as xcm,
                                                   write_confusion_matrix, print_confusion_matrix)
    from hyperion.metrics.acc import compute_accuracy
    kind = ctx.pick(['int', 'str'])
    cls = names(ctx, ctx.size(1, 6, 70), kind)
    n = ctx.size(1, 40, 3000, .03)
    yt = [ctx.pick(cls) for _ in range(n)]
    yp = [y if ctx.flip(.6) else ctx.pick(cls) for y in yt]
    w = np.round(ctx.rng.uniform(.1, 2, size=n), 3) if ctx.flip(.4) else None
    W = np.ones(n) if w is None else w
    cls2 = names(ctx, ctx.int(1, 6), kind)
    box = (lambda x: np.array(x)) if ctx.flip(.6) else (lambda x: list(x))
    if kind == 'int' and ctx.flip(.4):      # as small as the labels let it be
        fits = [t for t in ('int32', 'int16', 'int8', 'uint8', 'uint16')
                if min(cls + cls2) >= np.iinfo(t).min and max(cls + cls2) <= np.iinfo(t).max]
        ity = ctx.pick(fits)
        box = lambda x: np.array(x, dtype=ity)
    A, B = box(yt), box(yp)

    def run(fn, *a, **kw):
        def go(norm):
            k = dict(kw)
            if norm is not None:
                k['normalize'] = norm
            return ctx.pure(fn, *a, sample_weight=w, **k)
        return go
    l, L = pickl(ctx, yt, cls) if ctx.flip(.7) else (None, None)
    if l is None:
        L = sorted(set(yt) | set(yp))
    C = count(yt, yp, L, L, W)
    judge(ctx, run(cm, A, B, labels=None if l is None else box(l)), C, L, 'confusion matrix')
    ctx.close(ctx.pure(compute_accuracy, A, B, sample_weight=w), sum(x for a, b, x in zip(yt, yp, W) if a == b) / W.sum(), 'accuracy')
    ctx.close(ctx.pure(compute_accuracy, A, B, normalize=False, sample_weight=w), sum(x for a, b, x in zip(yt, yp, W) if a == b),
              'number of correct decisions')
    # classifier trained on other labels
    yq = [ctx.pick(cls2) for _ in range(n)]
    D = box(yq)
    la, LA = pickl(ctx, yt, cls)
    lb, LB = pickl(ctx, yq, cls2)
    X = count(yt, yq, LA, LB, W)
    kw = {}
    if la is not None:
        kw['labels_test'] = box(la)
    if lb is not None:
        kw['labels_train'] = box(lb)
    snap = [list(A), list(D)] + [list(v) for v in kw.values()]
    judge(ctx, run(xcm, A, D, **kw), X, LA, 'cross-label confusion matrix')
    ctx.same([list(A), list(D)] + [list(v) for v in kw.values()], snap, 'labels were changed')
    # table on paper
    M = (X if w is None else np.round(X)).astype(int)
    if ctx.flip():
        M = M / max(1, M.max())
    ra, rb = ['r%d' % i for i in range(len(LA))], ['col-%d' % i for i in range(len(LB))]
    sq = M.shape[0] == M.shape[1] and ctx.flip()
    f = io.StringIO()
    if ctx.flip():
        write_confusion_matrix(f, M, ra, None if sq else rb)
    else:
        old, sys.stdout = sys.stdout, f
        try:
            print_confusion_matrix(M, ra, None if sq else rb)
        finally:
            sys.stdout = old
    rows = [r.split() for r in f.getvalue().splitlines()]
    ctx.same(rows[0], ra if sq else rb, 'heading of the table')
    ctx.same([r[0] for r in rows[1:]], ra, 'row names of the table')
    ctx.close(np.array([[float(x) for x in r[1:]] for r in rows[1:]]), M, 'table', atol=.0051)
    ctx.event('decisions', n)
    ctx.sig(kind, len(cls), len(cls2), l is None, la is None, lb is None, w is None)
    ctx.sample(kind=kind, decisions=n, classes=len(cls))
