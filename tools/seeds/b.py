COMMON = '''
import os, numpy as np
S = os.environ['SCRATCH']
'''
seed('C11-filter-paths-keep', 'C11', 'filter out by file a list with ranges of rows in which the kept lines are not at the beginning',
     'Ranges of the filtered list are taken from the first lines instead of the lines kept.',
     [('hyperion/utils/scp_list.py', """        f, _ = ismember(self.file_path, filter_key)
        key = self.key[f]
        file_path = self.file_path[f]
        
        offset = None
        range_spec = None
        if self.offset is not None:
            offset = self.offset[f]
        if self.range_spec is not None:
            range_spec = self.range_spec[f]""", """        f, _ = ismember(self.file_path, filter_key)
        key = self.key[f]
        file_path = self.file_path[f]
        
        offset = None
        range_spec = None
        if self.offset is not None:
            offset = self.offset[f]
        if self.range_spec is not None:
            range_spec = self.range_spec[:len(key)]""")],
     COMMON + '''
from hyperion.utils import SCPList
s = SCPList(['a', 'b', 'c'], ['f', 'g', 'g'], [1, 2, 3], [[0, 1], [2, 3], [4, 5]])
t = s.filter_paths(['g'])
assert t['b'][2].tolist() == [2, 3] and t['c'][2].tolist() == [4, 5]
''')

seed('C11-shuffle-stale-index', 'C11', 'look up by key, shuffle, look up by key again',
     'The map from key to line is built again only if the number of lines changed, so look-ups after shuffling return other lines.',
     [('hyperion/utils/scp_list.py', """            self.range_spec = self.range_spec[index]

        self.key_to_index = None
        return index""", """            self.range_spec = self.range_spec[index]

        if self.key_to_index is not None and len(self.key_to_index) != len(index):
            self.key_to_index = None
        return index""")],
     COMMON + '''
from hyperion.utils import SCPList
s = SCPList(['k%d' % i for i in range(9)], ['f%d' % i for i in range(9)])
assert s['k3'][0] == 'f3'
s.shuffle(seed=3)
for i in range(9):
    assert s['k%d' % i][0] == 'f%d' % i
''')

seed('C12-default-score', 'C12', 'setting missing scores to a value when the scores hold a pair that the list does not ask',
     'The default value is given to pairs that are not in the list of trials when their model and segment have scores.',
     [('hyperion/utils/trial_scores.py', "        mask = np.logical_and(np.logical_not(scr.score_mask), mask)\n",
       "        mask = np.logical_and(np.logical_not(scr.score_mask), np.logical_or(mask, scr.scores != 0))\n")],
     COMMON + '''
from hyperion.utils import TrialScores, TrialNdx
s = TrialScores(['a', 'b'], ['x', 'y'], np.arange(1., 5).reshape(2, 2))
n = TrialNdx(['a', 'b'], ['x', 'y'], np.array([[True, False], [True, True]]))
t = s.set_missing_to_value(n, -9.)
assert t.score_mask.tolist() == [[True, False], [True, True]], t.score_mask
''')

seed('C12-align-unsorted', 'C12', 'target and non-target scores taken with a key whose models are in another order, when the sizes are the same',
     'Scores whose sets have the same names as the key are not reordered.',
     [('hyperion/utils/trial_scores.py', "        scr = self.filter(ndx.model_set, ndx.seg_set, keep=True, raise_missing=raise_missing)",
       """        if set(ndx.model_set) == set(self.model_set) and np.array_equal(ndx.seg_set, self.seg_set):
            scr = TrialScores(ndx.model_set, ndx.seg_set, self.scores.copy(), self.score_mask)
        else:
            scr = self.filter(ndx.model_set, ndx.seg_set, keep=True, raise_missing=raise_missing)""")],
     COMMON + '''
from hyperion.utils import TrialScores, TrialKey
s = TrialScores(['a', 'b'], ['x', 'y'], np.arange(1., 5).reshape(2, 2))
t = np.array([[True, False], [False, False]])
tar, non = s.get_tar_non(TrialKey(['b', 'a'], ['x', 'y'], t, t[::-1]))
assert tar.tolist() == [3.] and non.tolist() == [1.], (tar, non)
''')

seed('C15-logsumexp-shift', 'C15', 'softmax or log-sum-exp of arrays with rows of very different magnitude',
     'The maximum that is taken out to avoid overflow is that of the whole array, so rows far below it underflow.',
     [('hyperion/utils/math.py', "    max_r=np.max(r, axis=axis, keepdims=True)\n    r=np.exp(r-max_r)\n    r/=", "    max_r=np.max(r, keepdims=True)\n    r=np.exp(r-max_r)\n    r/=")],
     COMMON + '''
from hyperion.utils.math import logsumexp, softmax
x = np.array([[0., 1.], [2000., 2001.]])
assert np.allclose(softmax(x), softmax(x - x[:, :1]), atol=1e-9) and np.allclose(softmax(x).sum(1), 1)
''')


seed('C15-varfloor-lower', 'C15', 'flooring of a covariance from lower triangular factors', 'The factor of the covariance is not transposed when the floor is a number.',
     [('hyperion/utils/math.py', """        if lower:
            cholS=cholS.T
        T = cholS/cholF""", "        T = cholS/cholF")],
     COMMON + '''
from hyperion.utils.math import fullcov_varfloor_from_cholS as f
C = np.array([[2., 0], [1., 3.]])
assert np.allclose(f(C, 1e-3, lower=True), C), f(C, 1e-3, lower=True)
''')

seed('C16-gain-log-power', 'C16', 'gain in decibels of log-power filter-bank features', 'Log-power filter-banks get the gain of log-amplitude ones.',
     [('hyperion/utils/misc.py', "             'logfb2' : apply_gain_logx2}", "             'logfb2' : apply_gain_logx}")],
     COMMON + '''
from hyperion.utils.misc import apply_gain
x = np.array([1., 2.])
assert np.allclose(np.exp(apply_gain(np.log(x ** 2), 'logfb2', 6.)), apply_gain(x ** 2, 'fb2', 6.))
''')
