COMMON = '''
import os, numpy as np
S = os.environ['SCRATCH']
'''
T, D, C = 'hyperion/transforms/', 'hyperion/pdfs/', 'hyperion/classifiers/'
seed('C24-list-order', 'C24', 'saving and loading a list of more than ten transforms', 'The transforms of a loaded list are in alphabetical order of their index (0, 1, 10, 2).',
     [(T + 'transform_list.py', """        for i in xrange(len(config_ts)):
            config_t = config_ts[str(i)]""", """        for i in sorted(config_ts.keys()):
            config_t = config_ts[i]""")],
     COMMON + '''
from hyperion.transforms import TransformList, CentWhiten
ts = [CentWhiten(mu=np.array([float(i), 1.]), T=np.array([[1., i], [0.5, 1.]]), name='t%d' % i) for i in range(12)]
t = TransformList(ts, name='l')
t.save(S + '/t.h5')
x = np.array([[1., 2.], [.3, .4]])
h = TransformList.load(S + '/t.h5')
assert np.allclose(t.predict(x), h.predict(x), rtol=1e-4), (t.predict(x), h.predict(x))
''')
seed('C24-gauss-ties', 'C24', 'vectors with values equal to those of the training data', 'Values seen in training get the quantile of the next rank.',
     [(T + 'gaussianizer.py', "np.searchsorted(r[:,i], x[:,i])", "np.searchsorted(r[:,i], x[:,i], side='right')")],
     COMMON + '''
from hyperion.transforms import Gaussianizer
x = np.random.RandomState(0).randn(9, 1)
g = Gaussianizer()
g.fit(x)
assert abs(g.predict(np.sort(x, axis=0))[0, 0] - g.predict(np.array([[x.min() - 5]]))[0, 0]) < 1e-9
''')
seed('C25-batch-weights', 'C25', 'fit with sample weights in several batches', 'Every batch uses the weights of the first one.',
     [(D + 'core/exp_family.py', "sw_i = sample_weight[i1:i2]", "sw_i = sample_weight[:i2-i1]")],
     COMMON + '''
from hyperion.pdfs import NormalDiagCov
r = np.random.RandomState(0)
x, w = r.randn(30, 2), r.rand(30)
a, b = NormalDiagCov(x_dim=2), NormalDiagCov(x_dim=2)
a.fit(x, sample_weight=w)
b.fit(x, sample_weight=w, batch_size=7)
assert np.allclose(a.mu, b.mu), (a.mu, b.mu)
''')
seed('C25-stale-precision', 'C25', 'a second fit after the density was evaluated with standard parameters', 'The square root of the precision stays that of the first fit.',
     [(D + 'core/normal_diag_cov.py', """            self._Sigma = S
            self._cholLambda = None
""", """            self._Sigma = S
""")],
     COMMON + '''
from hyperion.pdfs import NormalDiagCov
r = np.random.RandomState(0)
g = NormalDiagCov(x_dim=2)
g.fit(r.randn(20, 2))
g.log_prob(r.randn(3, 2), method='std')
g.fit(r.randn(20, 2) * 4)
x = r.randn(3, 2)
assert np.allclose(g.log_prob(x, method='std'), g.log_prob(x, method='nat'))
''')
seed('C26-val-weights', 'C26', 'training with weighted validation data', 'Weights of the validation data are ignored.',
     [(D + 'mixtures/exp_family_mixture.py', """                N, u_x = self.Estep(x=x_val, sample_weight=sample_weight_val,
""", """                N, u_x = self.Estep(x=x_val, sample_weight=None,
""")],
     COMMON + '''
from hyperion.pdfs import GMMDiagCov
r = np.random.RandomState(0)
x, v, w = r.randn(50, 2), r.randn(20, 2), r.rand(20) * .1
g = GMMDiagCov(x_dim=2, num_comp=1)
e = g.fit(x, x_val=v, sample_weight_val=w, epochs=1)
N, u = g.Estep(x=v, sample_weight=w)
assert np.allclose(e[2], g.elbo(None, N=N, u_x=u, log_h=0)), e
''')
seed('C26-segment-weights', 'C26', 'statistics of several segments with frame weights', 'All segments use the weights of the first frames.',
     [(D + 'mixtures/exp_family_mixture.py', "sw_i = sample_weight[start:end]", "sw_i = sample_weight[:end-start]")],
     COMMON + '''
from hyperion.pdfs import GMMDiagCov
r = np.random.RandomState(0)
x, w = r.randn(20, 2), r.rand(20)
g = GMMDiagCov(x_dim=2, num_comp=2)
g.initialize(x)
N, F = g.accum_suff_stats_segments(x, [(0, 9), (10, 19)], sample_weight=w)
assert np.allclose(N[1], g.Estep(x=x[10:], sample_weight=w[10:])[0])
''')
seed('C27-average-precision', 'C27', 'weighted average of two SPLDA models with different within-class covariances', 'Precisions are averaged in place of covariances.',
     [(D + 'plda/splda.py', """            Sw = w_W*Sw + (1-w_W)*Sw0
            self.W = invert_pdmat(Sw, return_inv=True)[-1]""", """            self.W = w_W * W + (1-w_W) * self.W""")],
     COMMON + '''
from hyperion.pdfs import SPLDA
a, b = [SPLDA(mu=np.zeros(2), V=np.ones((1, 2)), W=np.eye(2) * s) for s in (1., 4.)]
a.weighted_avg_model(b, 0, 0, .5)
assert np.allclose(a.W, np.eye(2) / .625), a.W
''')
seed('C27-savg-counts', 'C27', 'average of scores with different numbers of samples in enrolment models', 'The average over test samples is divided by the counts of the enrolment side when both have the same number of classes.',
     [(D + 'plda/plda_base.py', """        N, F, _ = self.compute_stats_hard(scores_Nvs1.T, ids2)
        scores = F.T/N""", """        N2, F, _ = self.compute_stats_hard(scores_Nvs1.T, ids2)
        scores = F.T/(N if len(N) == len(N2) else N2)""")],
     COMMON + '''
from hyperion.pdfs import SPLDA
r = np.random.RandomState(0)
m = SPLDA(mu=np.zeros(2), V=np.ones((1, 2)), W=np.eye(2))
x, y = r.randn(5, 2), r.randn(4, 2)
i, j = np.array([0, 0, 0, 1, 1]), np.array([0, 1, 1, 1])
s = m.llr_1vs1(x, y)
want = [[s[np.ix_(i == a, j == b)].mean() for b in range(2)] for a in range(2)]
assert np.allclose(m.llr_NvsM(x, y, i, j, method='savg'), want)
''')
seed('C28-md-epochs', 'C28', 'minimum divergence limited to some epochs', 'The epochs for minimum divergence count from one.',
     [(D + 'plda/plda_base.py', """            if use_md and (md_epochs is None or epoch in md_epochs):
                self.MstepMD(stats)

        elbo_norm= elbo/np.sum(D[0])
        if x_val is None:
            return elbo, elbo_norm
        else:
            elbo_val_norm = elbo_val/np.sum(D_val[0])
            return elbo, elbo_norm, elbo_val, elbo_val_norm

        
    @abstractmethod
    def Estep""", """            if use_md and (md_epochs is None or epoch + 1 in md_epochs):
                self.MstepMD(stats)

        elbo_norm= elbo/np.sum(D[0])
        if x_val is None:
            return elbo, elbo_norm
        else:
            elbo_val_norm = elbo_val/np.sum(D_val[0])
            return elbo, elbo_norm, elbo_val, elbo_val_norm

        
    @abstractmethod
    def Estep""")],
     COMMON + '''
from hyperion.pdfs import SPLDA
r = np.random.RandomState(0)
x = r.randn(40, 3) + np.repeat(r.randn(10, 3), 4, axis=0)
i = np.repeat(np.arange(10), 4)
a, b = SPLDA(y_dim=2), SPLDA(y_dim=2)
a.fit(x, i, epochs=1, ml_md='ml+md', md_epochs=[0])
b.fit(x, i, epochs=1, ml_md='ml+md')
assert np.allclose(a.V, b.V)
''')
seed('C28-small-weights', 'C28', 'training with small sample weights, whose sum is less than one', 'The within-class covariance is not divided by the sum of the weights if it is less than one.',
     [(D + 'plda/splda.py', "                iW = (S - np.dot(Cy, self.V)  - np.outer(F, self.mu))/N", "                iW = (S - np.dot(Cy, self.V)  - np.outer(F, self.mu))/max(N, 1)")],
     COMMON + '''
from hyperion.pdfs import SPLDA
r = np.random.RandomState(0)
x = r.randn(40, 3) + np.repeat(r.randn(10, 3), 4, axis=0)
i = np.repeat(np.arange(10), 4)
a, b = SPLDA(y_dim=2), SPLDA(y_dim=2)
w = np.ones(40)
a.fit(x, i, sample_weight=w * .01, epochs=50)
D = a.compute_stats_hard(x, i, sample_weight=w * .01)
e = a.elbo(a.Estep(D))
a.W = a.W * .8
a._is_init = False
e1 = a.elbo(a.Estep(D))
a.W = a.W * 1.5
e2 = a.elbo(a.Estep(D))
assert e > max(e1, e2), (e, e1, e2)
''')
seed('C29-map-soft-counts', 'C29', 'MAP estimation of the precision without updating the means', 'The shift of the means counts although the means are not updated.',
     [(C + 'linear_gbe.py', "                if do_map and self.update_mu:", "                if do_map and self.update_W:")],
     COMMON + '''
from hyperion.classifiers import LinearGBE as G
r = np.random.RandomState(0)
mu = r.randn(2, 2)
p = G(mu=mu + 1, W=np.eye(2), beta=np.ones(2), nu=5.)
x, i = r.randn(20, 2), np.arange(20) % 2
g = G(mu=mu, W=np.eye(2), update_mu=False, prior=p, balance_class_weight=False)
g.fit(x, i)
S = (5 * np.eye(2) + sum(np.outer(a - mu[k], a - mu[k]) for a, k in zip(x, i))) / 25
assert np.allclose(np.linalg.inv(g.W), S)
''')
seed('C29-q-test-term', 'C29', 'normalised Q-scores do not show it: absolute scores of vectors with different uncertainty', 'The log-precisions of the test vectors are added up over the whole batch.',
     [(C + 'q_scoring_homo_gbe.py', "r_t = np.sum(np.log(L_t), axis=1, keepdims=True)", "r_t = np.mean(np.sum(np.log(L_t), axis=1, keepdims=True), axis=0, keepdims=True)")],
     COMMON + '''
from hyperion.classifiers import QScoringHomoGBE as G
r = np.random.RandomState(0)
g = G(mu=r.randn(2, 3), W=np.ones(3) * 2, N=np.ones(2))
x = np.hstack((r.randn(4, 3), r.rand(4, 3) * .9 + .05))
assert np.allclose(g.predict(x)[:1], g.predict(x[:1]))
''')
seed('C30-single-sample', 'C30', 'a class with one training sample', 'A class with one sample gets half of its prior.',
     [(C + 'logistic_regression.py', "class_weights = priors/counts", "class_weights = priors/np.maximum(counts, 2)")],
     COMMON + '''
from hyperion.classifiers import LogisticRegression
r = np.random.RandomState(0)
x, y = r.randn(9, 2), np.array([0, 0, 0, 0, 1, 1, 1, 1, 2])
p = [1 / 3.] * 3
a, b = LogisticRegression(lambda_reg=.1, priors=p, tol=1e-9, max_iter=2000), LogisticRegression(lambda_reg=.1, priors=p, tol=1e-9, max_iter=2000)
a.fit(x, y)
b.fit(np.vstack((x, x)), np.hstack((y, y)))
assert np.allclose(a.A, b.A, atol=1e-3), (a.A, b.A)
''')
seed('C30-calibration-variance', 'C30', 'calibration with sample weights whose mean is not one', 'The weighted variance is not divided by the mean weight.',
     [('hyperion/calibration/gauss_calibration.py', "/len(x)/np.mean(sample_weight)", "/len(x)")],
     COMMON + '''
from hyperion.calibration.gauss_calibration import GaussCalibration
r = np.random.RandomState(0)
x, y = r.randn(30), np.arange(30) % 2
a, b = GaussCalibration(), GaussCalibration()
a.fit(x, y, sample_weight=np.ones(30) * 3)
b.fit(x, y)
assert np.allclose(a.predict(x), b.predict(x))
''')
seed('C31-tz-cohort', 'C31', 'TZ-norm or ZT-norm with a cohort whose scores against itself are not symmetric', 'Cohort scores are normalised along the wrong axis.',
     [('hyperion/score_norm/tz_norm.py', "scores_enr_coh, scores_coh_coh, mask_coh_coh)", "scores_enr_coh, scores_coh_coh.T, mask_coh_coh)")],
     COMMON + '''
from hyperion.score_norm import TZNorm, TNorm, ZNorm
r = np.random.RandomState(0)
s, ct, ec, cc = r.randn(3, 4), r.randn(5, 4), r.randn(3, 5), r.randn(5, 5)
a = TZNorm().predict(s, ct, ec, cc)
b = ZNorm().predict(TNorm().predict(s, ct), TNorm().predict(ec, cc))
assert np.allclose(a, b)
''')
seed('C32-ties-threshold', 'C32', 'clusters of distances for a threshold', 'The join at exactly the threshold is left out for distances.',
     [('hyperion/clustering/ahc.py', "            idx = self.Z[:,2] <= thr", "            idx = self.Z[:,2] < thr")],
     COMMON + '''
from hyperion.clustering import AHC
a = AHC(metric='euclidean')
a.fit(np.array([[0., 1.], [1., 0.]]))
assert len(set(a.get_flat_clusters(1.))) == 1
''')
seed('C32-early-stop', 'C32', 'k-means on data that converge after several iterations', 'The assignment returned is that before the last update of the centroids.',
     [('hyperion/clustering/kmeans.py', """            cluster_index, err2 = self.predict(x)
            loss[epoch] = np.mean(err2)
""", """            new_index, err2 = self.predict(x)
            loss[epoch] = np.mean(err2)
            if epoch < epochs-1:
                cluster_index = new_index
""")],
     COMMON + '''
from hyperion.clustering import KMeans
x = np.random.RandomState(0).randn(60, 2)
k = KMeans(4)
_, i = k.fit(x, epochs=1)
assert np.array_equal(i, k.predict(x)[0])
''')
