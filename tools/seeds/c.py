COMMON = '''
import os, numpy as np
S = os.environ['SCRATCH']
'''
seed('C13-merge-types', 'C13', 'merging adjacent segments when segments of different types bear the same name',
     'Adjacent segments are joined whatever their types.',
     [('hyperion/utils/rttm.py', """                 (segm.segment_type == segm_1.segment_type) &
                 (segm.name""", """                 (segm.segment_type.notnull()) &
                 (segm.name""")],
     COMMON + '''
from hyperion.utils import RTTM
r = RTTM.create(['SPEAKER', 'NON-SPEECH'], ['f', 'f'], tbeg=[0., 1.], tdur=[1., 1.], name=['a', 'a'], index_by_file=False)
r.merge_adjacent_segments(0.1)
assert len(r) == 2, r.segments
''')
seed('C13-speakers-per-file', 'C13', 'number of speakers per file with segments other than those of speakers', 'Names of any kind of segment count as speakers.',
     [('hyperion/utils/rttm.py', "len(self.segments[(self.segments['segment_type']=='SPEAKER') &", "len(self.segments[(self.segments['segment_type']!='') &")],
     COMMON + '''
from hyperion.utils import RTTM
r = RTTM.create(['SPEAKER', 'NOISE'], ['f', 'f'], tbeg=[0., 1.], tdur=[1., 1.], name=['a', 'b'])
assert r.num_spks_per_file == {'f': 1}, r.num_spks_per_file
''')
seed('C14-align-mask', 'C14', 'aligning a fold list that has a mask with another order of keys', 'The mask stays in the order of the list before aligning.',
     [('hyperion/utils/fold_list.py', """            if self.mask is not None:
                self.mask = self.mask[idx]""", """            if self.mask is not None and len(self.mask) != len(self.key):
                self.mask = self.mask[idx]""")],
     COMMON + '''
from hyperion.utils.fold_list import FoldList
f = FoldList([0, 1, 0], ['a', 'b', 'c'], mask=np.array([True, True, False]))
f.align_with_key(['c', 'b', 'a'])
assert list(f.get_fold(0)[1]) == ['a'], f.get_fold(0)
''')
seed('C14-shuffle-groups', 'C14', 'a shuffled fold list by groups with more than one class to balance', 'Groups of the classes after the first are shuffled with repetition, so some take the place of others.',
     [('hyperion/utils/fold_list.py', """                rng.shuffle(shuffle_idx)
                group_key_tmp""", """                if i == 0:
                    rng.shuffle(shuffle_idx)
                else:
                    shuffle_idx = rng.choice(num_groups_i, num_groups_i)
                group_key_tmp""")],
     COMMON + '''
from hyperion.utils.fold_list import FoldList
k = np.array(['k%02d' % i for i in range(40)])
f = FoldList.create(k, 4, balance_by_key=np.arange(40) % 2, shuffle=True)
for c in range(2):
    assert [np.sum(f.fold[c::2] == j) for j in range(4)] == [5] * 4
''')
seed('C17-same-random-stream', 'C17', 'generator queue with several processes and a random seed', 'Every worker process starts from the same random numbers.',
     [('hyperion/utils/queues.py', "                        self.random_seed += 1", "                        self.random_seed += 0")],
     COMMON + '''
from hyperion.utils.queues import GeneratorQueue
def gen():
    while True:
        yield float(np.random.rand())
if __name__ == '__main__':
    q = GeneratorQueue(gen(), use_multiprocessing=True, wait_time=.001, random_seed=3)
    q.start(workers=4, max_queue_size=4)
    g = q.get()
    v = [next(g) for _ in range(40)]
    q.stop()
    assert len(set(v)) == len(v), v
''')
seed('C17-stop-without-join', 'C17', 'stopping a queue whose source is slow', 'Workers that hold an item when the queue stops are not waited for.',
     [('hyperion/utils/queues.py', "                    thread.join(timeout)", "                    thread.join(timeout or 0.01)")],
     COMMON + '''
import time, threading
from hyperion.utils.queues import GeneratorQueue
def gen():
    while True:
        time.sleep(.3)
        yield 1
q = GeneratorQueue(gen(), wait_time=.001)
q.start(workers=1, max_queue_size=2)
g = q.get(); next(g)
t = list(q._threads)
try:
    q.stop()
    assert not any(x.is_alive() for x in t)
finally:
    time.sleep(.5)
''')
seed('C18-unstable-ties', 'C18', 'more than 16 scores with ties between targets and non-targets', 'The sort of the convex hull is not stable, so tied trials are put in the order that suits them.',
     [('hyperion/metrics/roc.py', """    perturb = np.argsort(scores, kind='mergesort')
""", """    perturb = np.argsort(scores)
""")],
     COMMON + '''
from hyperion.metrics import compute_eer
rng = np.random.RandomState(0)
for i in range(30):
    a, b = rng.randint(0, 4, 60).astype(float), rng.randint(0, 4, 60).astype(float)
    assert abs(compute_eer(a, b) - compute_eer(a[::-1], np.sort(b))) < 1e-9
''')
seed('C18-normalise-high-prior', 'C18', 'normalised detection cost for priors over one half', 'The cost is normalised by the prior even if always accepting is cheaper.',
     [('hyperion/metrics/dcf.py', """        dcf /= np.minimum(prior, 1-prior)
    return dcf""", """        dcf /= prior
    return dcf""")],
     COMMON + '''
from hyperion.metrics.dcf import compute_min_dcf
a = np.array([0., 1.]); b = np.array([1., 0.])
assert abs(compute_min_dcf(a, b, .9)[0] - 1) < 1e-9
''')
seed('C19-laplace-prior', 'C19', 'optimal log-likelihood ratios with Laplace rule for different numbers of targets and non-targets', 'The extra trials of the rule go in the prior that is taken out.',
     [('hyperion/metrics/utils.py', "    prior_log_odds = np.log(ntar/nnon)", "    prior_log_odds = np.log(ntar/nnon) if method != 'laplace' else np.log((ntar+2)/(nnon+2))")],
     COMMON + '''
from hyperion.metrics.utils import opt_loglr
t, n = opt_loglr(np.array([1.]), np.zeros(9) - 1, 'laplace')
assert abs(t[0] - (np.log(2 / 1.) - np.log(1 / 9.))) < 1e-3, t
''')
seed('C19-unsorted-priors', 'C19', 'priors that are not in order but whose last is greater than the first', 'Only the ends of the list of priors are compared, so costs of other priors come out.',
     [('hyperion/metrics/dcf.py', "        assert np.all(prior == np.sort(prior, kind='mergesort')), ", "        assert prior[0] <= prior[-1], ")],
     COMMON + '''
from hyperion.metrics.dcf import compute_act_dcf
try:
    compute_act_dcf(np.array([1., 2.]), np.array([-1., 0.]), [.1, .9, .5])
except AssertionError:
    pass
else:
    assert False
''')
seed('C20-normalise-columns', 'C20', 'a normalised confusion matrix that is not symmetric', 'Rows are divided by the sums of the columns.',
     [('hyperion/metrics/confusion_matrix.py', """    C = confusion_matrix(y_true, y_pred, labels, sample_weight)
    if normalize:
        C = C/np.sum(C, axis=1, keepdims=True)""", """    C = confusion_matrix(y_true, y_pred, labels, sample_weight)
    if normalize:
        C = C/np.sum(C, axis=1)""")],
     COMMON + '''
from hyperion.metrics.confusion_matrix import compute_confusion_matrix as f
C = f([0, 0, 1], [0, 1, 1])
assert np.allclose(C, [[.5, .5], [0, 1]]), C
''')
seed('C21-symmetric-hanning', 'C21', 'a periodic Hann window', 'The Hann window is always the symmetric one.',
     [('hyperion/feats/feature_windows.py', "            return hann(N, sym)", "            return hann(N, True)")],
     COMMON + '''
from hyperion.feats.feature_windows import FeatureWindowFactory as F
n = np.arange(8)
assert np.allclose(F.create('hanning', 8), .5 - .5 * np.cos(2 * np.pi * n / 8))
''')
seed('C22-short-dft', 'C22', 'frames longer than the DFT size', 'The DFT size is rounded down to a power of two when the frame does not fit in it, so frames are cut.',
     [('hyperion/feats/mfcc.py', "            k = np.ceil(np.log(N)/np.log(2))", "            k = np.floor(np.log(N)/np.log(2)+0.5)")],
     COMMON + '''
from hyperion.feats.mfcc import MFCC
m = MFCC(fs=20000, frame_length=30, fft_length=512)
assert m.fft_length >= 600, m.fft_length
''')
seed('C22-dither-stream', 'C22', 'extraction with dither of several signals', 'The noise goes on from the signal before instead of starting anew.',
     [('hyperion/feats/mfcc.py', """                n = self.dither*np.random.RandomState(
                    seed=len(x)).randn""", """                if getattr(self, '_rng', None) is None:
                    self._rng = np.random.RandomState(seed=len(x))
                n = self.dither*self._rng.randn""")],
     COMMON + '''
from hyperion.feats.mfcc import MFCC
x = np.random.RandomState(1).randn(4000) * 100
a, b = MFCC(dither=10), MFCC(dither=10)
a.compute(x[:3000]); a.reset()
assert np.allclose(a.compute(x), b.compute(x))
''')
seed('C23-short-context-skip', 'C23', 'features a little longer than the shorter of the contexts', 'The local normalisation is skipped when features are shorter than the total of the contexts and both are given.',
     [('hyperion/feats/feature_normalization.py', """        if x.shape[0] <= min(right_context, left_context)+1:
            # if context is larger than the signal we still return global normalization
            return x

        c_x""", """        if x.shape[0] <= min(right_context, left_context)+2:
            # if context is larger than the signal we still return global normalization
            return x

        c_x""")],
     COMMON + '''
from hyperion.feats.feature_normalization import MeanVarianceNorm as N
x = np.random.RandomState(1).randn(12, 2)
n = N(left_context=10, right_context=40)
assert np.allclose(n.normalize_slow(x), n.normalize(x))
''')
seed('C23-vad-mean-scale', 'C23', 'energy VAD of features with log-energies of which the mean is negative', 'The scale of the mean energy is not applied to negative means.',
     [('hyperion/feats/energy_vad.py', "        e_thr = self.vad_energy_threshold + self.vad_energy_mean_scale * np.mean(logE)", "        e_thr = self.vad_energy_threshold + max(np.mean(logE)*self.vad_energy_mean_scale, np.min(logE))")],
     COMMON + '''
from hyperion.feats.energy_vad import EnergyVAD
x = np.array([[4., 0], [5., 0], [7., 0]])
v = EnergyVAD(vad_energy_mean_scale=.5, vad_energy_threshold=2., vad_frames_context=0).compute(x)
assert v.tolist() == [bool(a > 2 + .5 * 16 / 3) for a in x[:, 0]], v
''')
