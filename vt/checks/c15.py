"""C15 matrix and probability functions"""
import numpy as np
import scipy.special as sp

from ..core import case


def spd(ctx, d, cond=3.):
    q, _ = np.linalg.qr(ctx.rng.randn(d, d))
    e = 10 ** ctx.rng.uniform(-cond / 2, cond / 2, size=d)
    A = (q * e).dot(q.T)
    return (A + A.T) / 2


@case(quick=300, mult=12)
def inverses(ctx):
    from hyperion.utils import math as hm
    d = ctx.size(1, 8, 200)
    A = spd(ctx, d) * 10. ** ctx.int(-3, 3)
    I = np.linalg.inv(A)
    ctx.close(ctx.pure(hm.logdet_pdmat, A), np.linalg.slogdet(A)[1], 'log-determinant', rtol=1e-8, atol=1e-8)
    right = ctx.flip()
    r = ctx.pure(hm.invert_pdmat, A, right_inv=right, return_logdet=True, return_inv=True)
    tol = 1e-7 * np.abs(I).max()
    B = ctx.rng.randn(ctx.int(1, 4), d)
    X = B if right else B.T
    ctx.close(ctx.pure(r[0], X), X.dot(I) if right else I.dot(X), 'solving by the matrix', rtol=1e-6, atol=tol * 10)
    v = ctx.rng.randn(d)
    if not right:
        ctx.close(r[0](v), I.dot(v), 'solving for a vector', rtol=1e-6, atol=tol * 10)
    ctx.close(np.dot(r[1].T, r[1]), A, 'Cholesky factor', rtol=1e-8, atol=1e-8 * np.abs(A).max())
    ctx.close(np.tril(r[1], -1), 0 * A, 'Cholesky factor is upper triangular')
    ctx.close(r[2], np.linalg.slogdet(A)[1], 'log-determinant of the inversion', rtol=1e-8, atol=1e-8)
    ctx.close(r[3], I, 'inverse', rtol=1e-6, atol=tol)
    r = hm.invert_pdmat(A, return_logdet=False, return_inv=True)
    ctx.close(r[-1], I, 'inverse', rtol=1e-6, atol=tol)
    ctx.close(hm.invert_pdmat(A, return_logdet=True)[-1], np.linalg.slogdet(A)[1], 'log-determinant last', rtol=1e-8, atol=1e-8)
    bad = A - (np.linalg.eigvalsh(A)[-1] + 1) * np.eye(d)
    ctx.raises(lambda: hm.logdet_pdmat(bad), 'log-determinant of a matrix that is not positive definite')
    # triangular
    lower = ctx.flip()
    T = np.linalg.cholesky(spd(ctx, d))
    T = T if lower else T.T
    it = np.linalg.inv(T)
    fh, ld, inv = ctx.pure(hm.invert_trimat, T, lower=lower, right_inv=right, return_logdet=True, return_inv=True)
    tol = 1e-7 * np.abs(it).max()
    ctx.close(fh(X), X.dot(it) if right else it.dot(X), 'solving by a triangular matrix', rtol=1e-6, atol=10 * tol)
    ctx.close(ld, np.linalg.slogdet(T)[1], 'log-determinant of a triangular matrix', rtol=1e-8, atol=1e-8)
    ctx.close(inv, it, 'inverse of a triangular matrix', rtol=1e-6, atol=tol)
    f2 = hm.invert_trimat(T, lower=lower, right_inv=right)
    ctx.close(f2(X), X.dot(it) if right else it.dot(X), 'solving by a triangular matrix', rtol=1e-6, atol=10 * tol)
    # Fisher ratio
    S2 = spd(ctx, d)
    A1 = spd(ctx, d)
    m1, m2 = ctx.rng.randn(d), ctx.rng.randn(d)
    want = (m1 - m2).dot(np.linalg.solve(A1 + S2, m1 - m2))
    ctx.close(ctx.pure(hm.fisher_ratio, m1, A1, m2, S2), want, 'Fisher ratio', rtol=1e-6)
    ctx.close(hm.fisher_ratio_with_precs(m1, np.linalg.inv(A1), m2, np.linalg.inv(S2)), want, 'Fisher ratio with precisions', rtol=1e-4)
    ctx.event('matrices', 4)
    ctx.sig(d, right, lower)
    ctx.sample(dim=d, lower=lower, right=right)


@case(quick=300, mult=12)
def floors(ctx):
    """floored covariances are the nearest above the floor: same where above, equal to the floor where below"""
    from hyperion.utils import math as hm
    d = ctx.int(1, 6)
    S, F = spd(ctx, d), spd(ctx, d, 1.) * 10. ** ctx.int(-2, 1)
    how = ctx.int(0, 3)
    # reference: generalised eigenvalues floored to one
    if how == 3:
        F = float(10. ** ctx.rng.uniform(-2, 1))
        w, V = np.linalg.eigh(S)
        want = (V * np.maximum(w, F)).dot(V.T)
    else:
        import scipy.linalg as la
        w, V = la.eigh(S, F)          # V' F V = I
        W = F.dot(V)
        want = (W * np.maximum(w, 1)).dot(W.T)
    L = np.linalg.cholesky(S)
    if how == 0:
        got = ctx.pure(hm.fullcov_varfloor, S, F)
    elif how == 1:
        got = ctx.pure(hm.fullcov_varfloor, S, np.linalg.cholesky(F).T, F_is_chol=True)
    elif how == 2:
        got = ctx.pure(hm.fullcov_varfloor, S, np.linalg.cholesky(F), F_is_chol=True, lower=True)
    else:
        got = hm.fullcov_varfloor(S, F)
    sc = np.abs(want).max()
    ctx.close(got, want, 'floored covariance', rtol=1e-6, atol=1e-7 * sc, info=how)
    lower = ctx.flip()
    if how == 3:
        c = hm.fullcov_varfloor_from_cholS(L if lower else L.T, np.sqrt(F), lower=lower)
    else:
        LF = np.linalg.cholesky(F)
        c = ctx.pure(hm.fullcov_varfloor_from_cholS, L if lower else L.T, LF if lower else LF.T, lower=lower)
    c = np.asarray(c)
    ctx.close(np.triu(c, 1) if lower else np.tril(c, -1), 0 * c, 'floored factor is triangular')
    ctx.close(c.dot(c.T) if lower else c.T.dot(c), want, 'floored covariance from factors', rtol=1e-6, atol=1e-7 * sc, info=(how, lower))
    ctx.event('floored', int(np.sum(w < (F if how == 3 else 1))))
    ctx.sig(d, how, lower, int(np.sum(w < (F if how == 3 else 1))))


@case(quick=400, mult=12)
def probabilities(ctx):
    """softmax, log-sum-exp and sigmoids over the whole range of values"""
    from hyperion.utils import math as hm
    nd = ctx.int(1, 3)
    x = ctx.rng.randn(*[ctx.size(1, 6, 200) for _ in range(nd)]) * 10. ** ctx.int(-2, 4)
    if ctx.flip(.3):
        x = np.round(x)
    if ctx.flip(.3):
        x = x + ctx.pick([-1e4, 1e4, 500, -800])
    ax = ctx.int(-nd, nd - 1)
    p = ctx.pure(hm.softmax, x, axis=ax)
    ctx.close(p, sp.softmax(x, axis=ax), 'softmax', rtol=1e-9, atol=1e-300)
    ctx.close(ctx.pure(hm.logsumexp, x, axis=ax), sp.logsumexp(x, axis=ax), 'log-sum-exp', rtol=1e-9, atol=1e-9)
    ctx.close(hm.softmax(x), sp.softmax(x, axis=-1), 'softmax over the last axis', rtol=1e-9)
    ctx.close(hm.logsumexp(x), sp.logsumexp(x, axis=-1), 'log-sum-exp over the last axis', rtol=1e-9, atol=1e-9)
    y = x.ravel() if ctx.flip() else x
    ctx.close(ctx.pure(hm.sigmoid, y), sp.expit(y), 'sigmoid', rtol=1e-9, atol=1e-40)
    ls = -np.logaddexp(0, -y)
    ctx.close(ctx.pure(hm.logsigmoid, y), ls, 'log-sigmoid', rtol=1e-6, atol=1e-12)
    ctx.close(ctx.pure(hm.neglogsigmoid, y), -ls, 'minus log-sigmoid', rtol=1e-6, atol=1e-12)
    ctx.event('values', x.size)
    ctx.sig(nd, ax, x.shape, float(np.abs(x).max()) > 700)


@case(quick=200, mult=12)
def packing(ctx):
    """symmetric and triangular matrices to vectors and back"""
    from hyperion.utils import math as hm
    d = ctx.size(1, 9, 120)
    lower = ctx.flip()
    A = ctx.rng.randn(d, d)
    A = A + A.T
    fct = ctx.pick([None, .5, np.sqrt(.5), 2.])
    kw = {} if not lower and ctx.flip() else dict(lower=lower)
    fc = {} if fct is None and ctx.flip() else dict(diag_factor=fct)
    v = ctx.pure(lambda M: hm.symmat2vec(M, **kw, **fc), A)
    ctx.same(v.shape, (d * (d + 1) // 2,), 'length of the vector')
    B = A.copy()
    if fct is not None:
        B[np.diag_indices(d)] *= fct
    want = [B[i, j] for i in range(d) for j in range(d) if (j <= i if lower else j >= i)]
    ctx.close(v, want, 'packed symmetric matrix')
    fc = {} if not fc else dict(diag_factor=None if fct is None else 1 / fct)
    ctx.close(ctx.pure(lambda u: hm.vec2symmat(u, **kw, **fc), v), A, 'unpacked symmetric matrix')
    T = np.tril(A) if lower else np.triu(A)
    v = ctx.pure(lambda M: hm.trimat2vec(M, **kw), T)
    ctx.close(v, [T[i, j] for i in range(d) for j in range(d) if (j <= i if lower else j >= i)], 'packed triangular matrix')
    ctx.close(ctx.pure(lambda u: hm.vec2trimat(u, **kw), v), T, 'unpacked triangular matrix')
    ctx.event('matrices', 2)
    ctx.sig(d, lower, fct)
