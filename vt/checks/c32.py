"""C32 clustering: agglomerative and k-means"""
import numpy as np

from ..core import case


def merges(x, method, sim):
    """naive agglomeration of a matrix of scores (similarities or distances): (members, members, value) of each step"""
    cl = [[i] for i in range(len(x))]
    out = []
    pick = {'average': np.mean, 'single': np.max if sim else np.min, 'complete': np.min if sim else np.max}[method]
    while len(cl) > 1:
        v = {(a, b): pick([x[min(i, j), max(i, j)] for i in cl[a] for j in cl[b]]) for a in range(len(cl)) for b in range(a)}
        (a, b) = (max if sim else min)(v, key=v.get)
        out.append((sorted(cl[a]), sorted(cl[b]), v[a, b]))
        cl[b] = cl[b] + cl[a]
        del cl[a]
    return out


def partition(lab):
    return sorted(sorted(np.nonzero(lab == k)[0].tolist()) for k in np.unique(lab))


def entropy(p):
    p = np.asarray(p, dtype=float)
    p = p[p > 0] / p.sum()
    return -np.sum(p * np.log(p))


def homogeneity(true, lab):
    h = entropy(np.unique(true, return_counts=True)[1])
    if h == 0:
        return 1.
    c = sum(np.mean(lab == k) * entropy(np.unique(true[lab == k], return_counts=True)[1]) for k in np.unique(lab))
    return 1 - c / h


@case(quick=200, mult=15)
def hierarchical(ctx):
    """agglomerative clustering of scores, probabilities and distances"""
    from hyperion.clustering import AHC
    o = None
    for rep in range(ctx.int(1, 2)):
        n = ctx.size(2, 12, 64)
        metric = ctx.pick(['llr', 'llr', 'prob', 'euclidean'])
        method = ctx.pick(['average', 'average', 'single', 'complete'])
        sim = metric != 'euclidean'
        x = ctx.rng.randn(n, n) * 5 if metric == 'llr' else ctx.rng.rand(n, n)
        x = x + x.T if metric == 'llr' else (x + x.T) / 2
        m = None
        y = x
        if method != 'average' and ctx.flip(.4):
            m = ctx.rng.rand(n, n) < .8
            m = m & m.T
            y = np.where(m, x, -1e10 if sim else 1e10)
        if o is None or ctx.flip():
            o = AHC(method=method, metric=metric) if (method, metric) != ('average', 'llr') or ctx.flip() else AHC()
        o.method, o.metric = method, metric
        if m is None:
            ctx.pure(lambda a: o.fit(a), x)
        else:
            ctx.pure(lambda a, b: o.fit(a, mask=b), x, m)
        steps = merges(y, method, sim)
        real = [s for s in steps if abs(s[2]) < 1e9]       # joins of allowed pairs
        vals = np.array([s[2] for s in real])
        ctx.close(np.asarray(o.Z)[: len(real), 2], vals, 'values of the joins', rtol=1e-6, atol=1e-5 if m is not None else 1e-9)
        ctx.same(o.Z.shape, (n - 1, 4), 'shape of the tree')
        if ctx.flip():
            o.compute_flat_clusters()
        parts = [[[i] for i in range(n)]]
        for a, b, _ in real:
            parts.append(sorted([c for c in parts[-1] if c not in (a, b)] + [sorted(a + b)]))
        for k in ctx.rng.permutation(np.arange(1, n + 3))[:4]:
            p = max(n - k, 0)
            if p >= len(parts):
                continue
            lab = o.get_flat_clusters(k, criterion='num_clusters') if ctx.flip() else o.get_flat_clusters_from_num_clusters(k)
            ctx.same(partition(lab), parts[p], 'clusters for their number')
            ctx.same(sorted(set(lab.tolist())), list(range(len(parts[p]))), 'labels of the clusters')
        for thr in [ctx.pick(list(vals) or [0.]), ctx.rng.randn() * 5, vals.max() + 1 if len(vals) else 0., (vals.min() - 1 if len(vals) else 0.) if sim else (vals.max() + .5 if len(vals) else 0.)]:
            if len(vals) and np.min(np.abs(vals - thr)) < 1e-4:
                thr += 1e-4 * (1 if sim else -1)
                if np.min(np.abs(vals - thr)) < 2e-5:
                    continue
            p = int(np.sum(vals >= thr)) if sim else int(np.sum(vals <= thr))
            lab = o.get_flat_clusters(thr) if ctx.flip() else o.get_flat_clusters_from_thr(thr)
            ctx.same(partition(lab), parts[p], 'clusters for the threshold', thr)
        if len(real) == n - 1 and m is None:      # thresholds that are values of the tree
            k = ctx.int(0, n - 2)
            v = np.asarray(o.Z)[:, 2]
            p = int(np.sum(v >= v[k])) if sim else int(np.sum(v <= v[k]))
            ctx.same(partition(o.get_flat_clusters(v[k])), parts[p], 'clusters for the threshold of a join', v[k])
        if m is None and ctx.flip():
            true = ctx.rng.randint(0, 3, n)
            h, c = ctx.pure(o.evaluate_impurity_det, true)
            labs = []
            for p in parts:
                lab = np.zeros(n, dtype=int)
                for i, q in enumerate(p):
                    lab[q] = i
                labs.append(lab)
            ctx.close(h, np.array([1 - homogeneity(true, lab) for lab in labs]), 'cluster impurity', atol=1e-8)
            ctx.close(c, np.array([1 - homogeneity(lab, true) for lab in labs]), 'class impurity', atol=1e-8)
        ctx.event('joins', len(real))
        ctx.sig(n, metric, method, m is None)
    ctx.sample(n=n, metric=metric, method=method)


@case(quick=200, mult=15)
def kmeans(ctx):
    """k-means: nearest centroid, centroids are means, loss never increases, separated groups are found"""
    from hyperion.clustering import KMeans
    d, k = ctx.int(1, 4), ctx.int(1, 5)
    grouped = ctx.flip(.4)
    if grouped:
        pos = ctx.rng.permutation(20)[:k]
        c = np.outer(pos, ctx.rng.randn(d)) if ctx.flip() else ctx.rng.permutation(np.arange(20))[:k, None] * np.ones(d)
        g = np.repeat(np.arange(k), [ctx.int(1, 6) for _ in range(k)])
        g = g[ctx.rng.permutation(len(g))]
        gap = min([np.linalg.norm(c[i] - c[j]) for i in range(k) for j in range(i)] or [1.])
        x = c[g] + gap * .05 * (ctx.rng.rand(len(g), d) - .5) / np.sqrt(d)
    else:
        x = ctx.rng.randn(ctx.size(k, 40, 1000), d) * ctx.pick([1., 10.])
        if ctx.flip(.3):
            x = np.round(x)
    n = len(x)
    rt = ctx.pick([1e-3, 0.])
    epochs = ctx.pick([1, 3, 100, 100])
    o = KMeans(k, rtol=rt)
    with np.errstate(all='ignore'):
        loss, idx = ctx.pure(lambda a: o.fit(a, epochs=epochs), x)
    D = np.array([[np.sum((a - b) ** 2) for b in o.mu] for a in x])
    ctx.check(o.mu.shape == (k, d) and np.shape(idx) == (n,) and 1 <= len(loss) <= epochs, 'shapes', o.mu.shape, loss)
    tol = 1e-9 * (1 + np.max(x ** 2))
    ctx.check(np.all(D[np.arange(n), idx] <= D.min(1) + tol), 'assigned to the nearest centroid')
    ctx.close(float(loss[-1]), float(D.min(1).mean()), 'last loss', rtol=1e-9, atol=tol)
    ctx.check(np.all(np.diff(loss) <= tol), 'the loss increases', loss)
    i2, e2 = ctx.pure(o.predict, x)
    ctx.check(np.array_equal(i2, idx), 'clusters of the training data')
    ctx.close(e2, D.min(1), 'errors', rtol=1e-9, atol=tol)
    y = ctx.rng.randn(ctx.int(1, 5), d) * 3
    i3, e3 = o.predict(y)
    E = np.array([[np.sum((a - b) ** 2) for b in o.mu] for a in y])
    ctx.check(np.all(E[np.arange(len(y)), i3] <= E.min(1) + 1e-9), 'nearest centroid of new data')
    ctx.close(e3, E.min(1), 'errors of new data', rtol=1e-9, atol=1e-9)
    # same assignment twice: centroids are the means of their clusters
    if len(loss) < epochs and abs(loss[-1] - loss[-2]) <= 1e-12 * (1 + loss[-2]):
        for j in np.unique(idx):
            ctx.close(o.mu[j], x[idx == j].mean(0), 'centroids after convergence', rtol=1e-7, atol=1e-6 * (1 + np.max(np.abs(x))))
    if grouped:
        ctx.same(partition(idx), partition(g), 'separated groups')
        for j in np.unique(idx):
            ctx.close(o.mu[j], x[idx == j].mean(0), 'centroids of separated groups', rtol=1e-7, atol=1e-9 * (1 + np.max(np.abs(x))))
    ctx.check(np.all(o.mu <= x.max(0) + tol) and np.all(o.mu >= x.min(0) - tol), 'centroids among the data')
    ctx.event('points', n)
    ctx.sig('km', d, k, n, grouped, len(loss))
