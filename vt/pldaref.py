"""Independent PLDA model: x_ij = mu + V'y_i + U'z_ij + e_ij, all variables Gaussian."""
import numpy as np
from scipy.stats import multivariate_normal

KINDS = ['frplda', 'splda', 'plda']


def spd(rng, d, s=1.):
    A = rng.randn(d, d + 2)
    return s * (A.dot(A.T) / d + .2 * np.eye(d))


def draw(ctx, kind, d=None):
    """random parameters, as given to the constructor"""
    d = ctx.int(1, 4) if d is None else d
    p = dict(mu=ctx.rng.randn(d) * ctx.pick([.3, 3.]))
    if kind == 'frplda':
        p['B'] = np.linalg.inv(spd(ctx.rng, d))
        p['W'] = np.linalg.inv(spd(ctx.rng, d, ctx.pick([.3, 1.])))
    else:
        p['V'] = ctx.rng.randn(ctx.int(1, d), d)
        if kind == 'splda':
            p['W'] = np.linalg.inv(spd(ctx.rng, d, ctx.pick([.3, 1.])))
        else:
            p['U'] = ctx.rng.randn(ctx.int(1, d), d) * .7
            p['D'] = 1 / (ctx.rng.rand(d) + .2)
    return p


def make(kind, p, **kw):
    from hyperion.pdfs import FRPLDA, SPLDA, PLDA
    kw.update((k, v.copy()) for k, v in p.items())
    return dict(frplda=FRPLDA, splda=SPLDA, plda=PLDA)[kind](**kw)


def params_of(kind, m):
    names = dict(frplda=('mu', 'B', 'W'), splda=('mu', 'V', 'W'), plda=('mu', 'V', 'U', 'D'))[kind]
    return {k: np.array(getattr(m, k), dtype=float) for k in names}


def covs(kind, p):
    """between and within class covariances"""
    if kind == 'frplda':
        return np.linalg.inv(p['B']), np.linalg.inv(p['W'])
    if kind == 'splda':
        return p['V'].T.dot(p['V']), np.linalg.inv(p['W'])
    return p['V'].T.dot(p['V']), p['U'].T.dot(p['U']) + np.diag(1 / p['D'])


def log_marginal(x, mu, Sb, Sw):
    """joint log-density of samples of one class"""
    n, d = x.shape
    if n == 0:
        return 0.
    C = np.kron(np.ones((n, n)), Sb) + np.kron(np.eye(n), Sw)
    return multivariate_normal(np.tile(mu, n), C).logpdf(x.ravel())


def log_gain(N, F, mu, Sb, Sw):
    """log of E_y[prod p(x|y) / p(x|mean)], for N (weighted) samples with sum F"""
    f = np.linalg.solve(Sw, F - N * mu)
    A = np.eye(len(mu)) + N * Sb.dot(np.linalg.inv(Sw))
    return -.5 * np.linalg.slogdet(A)[1] + .5 * f.dot(np.linalg.solve(A, Sb.dot(f)))


def llk(x, w, mu, Sb, Sw):
    """(weighted) log-likelihood of samples x (n, d) with class weights w (n, k)"""
    base = np.atleast_1d(multivariate_normal(mu, Sw).logpdf(x).reshape(-1))
    return w.sum(1).dot(base) + sum(log_gain(w[:, k].sum(), w[:, k].dot(x), mu, Sb, Sw) for k in range(w.shape[1]))


class Ref(object):
    """expectation-maximisation with explicit moments of the regressors r = [y, z, 1]"""

    def __init__(self, kind, p, updates, fullcov=True, floor=1e-5):
        self.kind, self.u, self.fullcov, self.floor = kind, updates, fullcov, floor
        d = len(p['mu'])
        self.mu = p['mu']
        if kind == 'frplda':       # y are the class means
            self.V = np.eye(d)
            self.m, self.P = p['mu'], np.linalg.inv(p['B'])
            self.mu = np.zeros(d)
        else:
            self.V = p['V']
            self.m, self.P = np.zeros(len(self.V)), np.eye(len(self.V))
        self.U = p['U'] if kind == 'plda' else np.zeros((0, d))
        self.E = np.diag(1 / p['D']) if kind == 'plda' else np.linalg.inv(p['W'])

    def covs(self):
        return self.V.T.dot(self.P).dot(self.V), self.U.T.dot(self.U) + self.E

    def mean(self):
        return self.mu + self.m.dot(self.V)

    def llk(self, x, w):
        return llk(x, w, self.mean(), *self.covs())

    def moments(self, x, w):
        Sw = self.covs()[1]
        iW = np.linalg.inv(Sw)
        ny, nz = len(self.V), len(self.U)
        A = self.U.dot(iW)                     # regression of z on the residual
        Cz = np.eye(nz) - A.dot(self.U.T)
        iP = np.linalg.inv(self.P)
        n = ny + nz + 1
        R, C = np.zeros((n, n)), np.zeros((x.shape[1], n))
        ys, Py = [], np.zeros((ny, ny))
        for k in range(w.shape[1]):
            wk = w[:, k]
            S = np.linalg.inv(iP + wk.sum() * self.V.dot(iW).dot(self.V.T))
            y = S.dot(iP.dot(self.m) + self.V.dot(iW).dot(wk.dot(x - self.mu)))
            ys.append(y)
            Py += S + np.outer(y, y)
            G = np.vstack((np.eye(ny), -A.dot(self.V.T), np.zeros((1, ny))))       # how r moves with y
            r = np.hstack((np.tile(y, (len(x), 1)), (x - self.mu - y.dot(self.V)).dot(A.T), np.ones((len(x), 1))))
            K = G.dot(S).dot(G.T)
            K[ny:ny + nz, ny:ny + nz] += Cz
            R += (r * wk[:, None]).T.dot(r) + wk.sum() * K
            C += (x * wk[:, None]).T.dot(r)
        return R, C, np.array(ys), Py

    def step(self, x, w, ml, md):
        R, C, ys, Py = self.moments(x, w)
        N = w.sum()
        M, ny, nz = len(ys), len(self.V), len(self.U)
        u = self.u
        if ml:
            T = np.vstack((self.V, self.U, self.mu))
            if self.kind == 'frplda':
                if u['mu']:
                    self.m = ys.mean(0)
                if u['B']:
                    a = np.outer(self.m, ys.mean(0))
                    self.P = Py / M - a - a.T + np.outer(self.m, self.m)
            else:
                free = np.array([u['V']] * ny + [u.get('U', False)] * nz + [u['mu']])
                if np.any(free):
                    rhs = C.T[free] - R[np.ix_(free, ~free)].dot(T[~free])
                    T[free] = np.linalg.solve(R[np.ix_(free, free)], rhs)
                self.V, self.U, self.mu = T[:ny], T[ny:ny + nz], T[-1]
            if u['D' if self.kind == 'plda' else 'W']:
                S = (x * w.sum(1)[:, None]).T.dot(x)
                CT = C.dot(T)
                E = (S - CT - CT.T + T.T.dot(R).dot(T)) / N
                if self.kind == 'plda':
                    E = np.diag(np.maximum(np.diag(E), self.floor))
                elif not self.fullcov:
                    E = np.diag(np.diag(E))
                self.E = E
        if md and self.kind != 'frplda':
            Ryy, Rzy, Rzz = R[:ny, :ny], R[ny:-1, :ny], R[ny:-1, ny:-1]
            y1, r1, z1 = ys.sum(0), R[:ny, -1], R[ny:-1, -1]
            if not u['mu']:
                y1, r1, z1 = 0 * y1, 0 * r1, 0 * z1
            my = y1 / M
            H = (Rzy - np.outer(z1, r1) / N).dot(np.linalg.inv(Ryy - np.outer(r1, r1) / N)) if u['V'] else np.zeros((nz, ny))
            mz = (z1 - H.dot(r1)) / N
            VH = self.V + H.T.dot(self.U)
            if u['mu']:
                self.mu = self.mu + my.dot(VH) + mz.dot(self.U)
            if u['V']:
                self.V = np.linalg.cholesky(Py / M - np.outer(my, my)).T.dot(VH)
            if u.get('U', False):
                a = Rzy.dot(H.T)
                Cz = (Rzz - a - a.T + H.dot(Ryy).dot(H.T)) / N - np.outer(mz, mz)
                self.U = np.linalg.cholesky(Cz).T.dot(self.U)
