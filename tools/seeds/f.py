COMMON = '''
import os, numpy as np
S = os.environ['SCRATCH']
def store(names, X, path=S + '/x.h5', field=''):
    from hyperion.io import HypDataWriter
    w = HypDataWriter(path)
    w.write(names, field, X)
    w.f.close()
    return 'h5:' + path
def lst(rows, path, sep=' '):
    with open(path, 'w') as f:
        for r in rows:
            f.write(sep.join(r) + '\\n')
    return path
'''
B = 'hyperion/bin/'
COMMON += '''
import subprocess, sys
def run(tool, *a, **kw):
    a = list(a)
    for k, v in kw.items():
        a += ['--' + k.replace('_', '-'), str(v)]
    r = subprocess.run([sys.executable, 'hyperion/bin/%s.py' % tool] + a, env=dict(os.environ, PYTHONPATH=os.getcwd()), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    assert r.returncode == 0, r.stdout.decode()
'''
seed('C36-enrol-order', 'C36', 'a list of enrolments whose models are not in alphabetical order, several vectors per model', 'Scores of several enrolments are stored under the name of another model.',
     [(B + 'eval-plda-nvs1.py', "    enroll, ids_e = np.unique(enroll, return_inverse=True)\n", """    _, first, ids_e = np.unique(enroll, return_index=True, return_inverse=True)
    enroll = np.asarray(enroll)[np.sort(first)]
""")],
     COMMON + '''
from hyperion.pdfs.plda import SPLDA
from hyperion.utils.trial_scores import TrialScores
np.random.seed(0)
n = ['u%d' % i for i in range(6)]
x = np.random.randn(6, 3).astype('float32')
f = store(n, list(x))
m = SPLDA(y_dim=2)
t = np.random.randn(60, 3) + np.repeat(3 * np.random.randn(12, 3), 5, axis=0)
m.fit(t, np.repeat(np.arange(12), 5), epochs=3)
m.save(S + '/m.h5')
from hyperion.utils.trial_ndx import TrialNdx
TrialNdx(['A', 'B'], ['u4', 'u5']).save(S + '/n.h5')
for order in ([0, 1, 2, 3], [2, 3, 0, 1]):
    e = [('AABB'[i], n[i]) for i in order]
    run('eval-plda-nvs1', iv_file=f, enroll_file=lst([(b, a) for a, b in e], S + '/e', ' '), ndx_file=S + '/n.h5',
        model_file=S + '/m.h5', score_file=S + '/s%d.h5' % order[0], pool_method='vavg')
a, b = TrialScores.load(S + '/s0.h5'), TrialScores.load(S + '/s2.h5')
for s in (a, b):
    for i, k in enumerate(s.model_set):
        j = list(a.model_set).index(k)
        assert np.allclose(s.scores[i], a.scores[j], atol=1e-4), (k, s.scores, a.scores)
''')
seed('C36-cohort-columns', 'C36', 'score normalisation with cohort scores whose segments are in another order than those of the scores', 'Cohort scores of a segment normalise the scores of another one.',
     [(B + 'eval-score-norm.py', "scores_coh_test = scores_coh_test.align_with_ndx(ndx)", "scores_coh_test = TrialScores(ndx.model_set, ndx.seg_set, scores_coh_test.scores)")],
     COMMON + '''
from hyperion.utils.trial_scores import TrialScores
np.random.seed(0)
s, c = np.random.randn(2, 3), np.random.randn(4, 3) * 2
TrialScores(['b', 'a'], list('yxz'), s).save(S + '/s.h5')
TrialScores(list('cdef'), list('zxy'), c[:, [2, 1, 0]]).save(S + '/c.h5')
run('eval-score-norm', score_file=S + '/s.h5', coh_test_file=S + '/c.h5', norm_type='t-norm', output_file=S + '/o.h5')
r = TrialScores.load(S + '/o.h5')
o = {(m, k): r.scores[i, j] for i, m in enumerate(r.model_set) for j, k in enumerate(r.seg_set)}
w = (s - c.mean(axis=0)) / c.std(axis=0)
for i, m in enumerate('ba'):
    for j, k in enumerate('yxz'):
        assert abs(o[m, k] - w[i, j]) < 1e-4, (m, k)
''')
seed('C36-append-order', 'C36', 'training of PCA after a preprocessing list, appended to it', 'The saved list applies PCA before its preprocessing.',
     [(B + 'train-pca.py', """            preproc.append(model)
            model = preproc
""", """            preproc.transforms.insert(0, model)
            model = preproc
""")],
     COMMON + '''
from hyperion.transforms import CentWhiten, TransformList
np.random.seed(0)
n = ['u%d' % i for i in range(30)]
f = store(n, list(np.random.randn(30, 3).astype('float32')))
TransformList(CentWhiten(np.ones(3), np.eye(3) * 2, name='cw')).save(S + '/p.h5')
run('train-pca', iv_file=f, train_list=lst([(k, k) for k in n], S + '/l', ' '), preproc_file=S + '/p.h5', output_path=S + '/o.h5', pca_dim=2, name='pca')
assert [t.name for t in TransformList.load(S + '/o.h5').transforms] == ['cw', 'pca']
''')
seed('C36-vector-scores', 'C36', 'evaluation of a Gaussian back-end with scores as vectors, segments not in alphabetical order', 'Vectors of scores are stored under the names of other segments.',
     [(B + 'eval-linear-gbe.py', "h5.write(ndx.seg_set, '', scores)", "h5.write(sorted(ndx.seg_set), '', scores)")],
     COMMON + '''
from hyperion.classifiers import LinearGBE
import h5py
np.random.seed(0)
n = ['u%d' % i for i in range(6)]
x = np.random.randn(6, 2).astype('float32')
f = store(n, list(x))
g = LinearGBE(mu=np.eye(2), W=np.eye(2))
g.save(S + '/m.h5')
run('eval-linear-gbe', iv_file=f[3:], class2int_file=lst([('a', '0'), ('b', '1')], S + '/c', ' '), test_file=lst([(k, k) for k in n[::-1]], S + '/t', ' '),
    model_file=S + '/m.h5', score_file=S + '/s.h5', vector_score_file=S + '/v.h5')
with h5py.File(S + '/v.h5', 'r') as v:
    for k, r in zip(n, g.predict(x, 'linear')):
        assert np.allclose(v[k][()], r, atol=1e-4), k
''')
seed('C37-merge-rest', 'C37', 'merging files in chunks that do not divide their number of records', 'The last records of each file are lost.',
     [('hyperion/io/h5_merger.py', "for first in xrange(0, len(datasets), chunk):", "for first in xrange(0, len(datasets)//chunk*chunk, chunk):")],
     COMMON + '''
import h5py
a, b = store(list('abc'), [np.ones(2)] * 3), S + '/b.h5'
with h5py.File(b, 'w') as f:
    f['d'] = np.zeros(3)
run('merge-h5-files', '--input-files', a.split(':')[-1], b, output_path=S + '/o.h5', chunk_size=2)
with h5py.File(S + '/o.h5', 'r') as f:
    assert sorted(f) == list('abcd'), list(f)
''')
seed('C37-mfcc-steps', 'C37', 'features of several recordings', 'The high-pass filter of the features continues over the start of the next recording.',
     [(B + 'compute-mfcc-feats.py', "            \n    if write_num_frames is not None:\n        f_num_frames.close()", "    if write_num_frames is not None:\n        f_num_frames.close()"),
      (B + 'compute-mfcc-feats.py', "        mfcc.reset()\n", "")],
     COMMON + '''
import soundfile as sf
from hyperion.io import SequentialDataReaderFactory as DRF
np.random.seed(0)
x = (np.random.rand(4000) - .5) * .5
for k in 'ab':
    sf.write(S + '/%s.wav' % k, x, 16000, 'PCM_16')
lst([(k, S + '/%s.wav' % k) for k in 'ab'], S + '/w.scp', ' ')
run('compute-mfcc-feats', input=S + '/w.scp', output='ark,scp:%s/o.ark,%s/o.scp' % (S, S), dither=0)
k, y = DRF.create('scp:' + S + '/o.scp').read()
assert np.allclose(y[0], y[1], atol=1e-4), abs(y[0] - y[1]).max()
''')
seed('C37-chunks-end', 'C37', 'reading Kaldi archives in chunks that do not divide their number of records', 'The reader does not notice that it is at the end.',
     [('hyperion/io/kaldi_data_reader.py', "                        self.cur_record = final_record\n", "                        self.cur_record += num_records\n")],
     COMMON + '''
from hyperion.io import KaldiDataReader, DataWriterFactory as DWF
with DWF.create('ark,scp:%s/a.ark,%s/a.scp' % (S, S)) as w:
    w.write(list('abc'), [np.ones((2, 2))] * 3)
r, n = KaldiDataReader(S + '/a.scp'), []
while not r.eof():
    n += r.read(num_records=2)[1]
    assert len(n) < 9
    if r.cur_record > 3:
        raise AssertionError('not at the end')
assert n == list('abc')
''')
seed('C38-lost-overlap', 'C38', 'sequence reader configured with an overlap on the command line', 'The overlap of the pieces of sequences is ignored.',
     [('hyperion/helpers/sequence_reader.py', "                      'seq_split_mode', 'seq_split_overlap',\n                      'seqr_seed'", "                      'seq_split_mode', 'split_overlap',\n                      'seqr_seed'")],
     COMMON + '''
import argparse
from hyperion.helpers import SequenceReader as R
p = argparse.ArgumentParser()
R.add_argparse_args(p)
assert R.filter_args(**vars(p.parse_args(['--seq-split-overlap', '2'])))['seq_split_overlap'] == 2
''')
seed('C38-shared-context', 'C38', 'two voice activity detectors with different prefixes in one program', 'The context of one detector is that of the other.',
     [('hyperion/feats/energy_vad.py', "p1+'vad-frames-context', dest=(p2+'vad_frames_context'), type=int,", "p1+'vad-frames-context', dest='vad_frames_context', type=int,"),
      ('hyperion/feats/energy_vad.py', """                 for k in valid_args if p+k in kwargs)
        return d
""", """                 for k in valid_args if p+k in kwargs)
        if 'vad_frames_context' in kwargs:
            d['vad_frames_context'] = kwargs['vad_frames_context']
        return d
""")],
     COMMON + '''
import argparse
from hyperion.feats import EnergyVAD as V
p = argparse.ArgumentParser()
V.add_argparse_args(p, prefix='a')
V.add_argparse_args(p, prefix='b')
v = vars(p.parse_args(['--a-vad-frames-context', '3', '--b-vad-frames-context', '5']))
assert V.filter_args('a', **v)['vad_frames_context'] == 3 and V.filter_args('b', **v)['vad_frames_context'] == 5
''')
seed('C38-false-is-true', 'C38', 'snip-edges given as false', '--snip-edges false switches it on.',
     [('hyperion/feats/energy_vad.py', """        parser.add_argument(p1+'snip-edges', dest=(p2+'snip_edges'),
                            default=True, type=str2bool,""", """        parser.add_argument(p1+'snip-edges', dest=(p2+'snip_edges'),
                            default=True, type=bool,""")],
     COMMON + '''
import argparse
from hyperion.feats import EnergyVAD as V
p = argparse.ArgumentParser()
V.add_argparse_args(p)
assert V.filter_args(**vars(p.parse_args(['--snip-edges', 'false'])))['snip_edges'] is False
''')
seed('C38-no-update-all', 'C38', 'PLDA with some updates switched off', 'Options that switch updates off are assigned to the neighbouring parameter.',
     [('hyperion/helpers/plda_factory.py', "        neg_args2 = ('fullcov_W', 'update_mu', 'update_V', 'update_U',\n", "        neg_args2 = ('fullcov_W', 'update_mu', 'update_U', 'update_V',\n")],
     COMMON + '''
import argparse
from hyperion.helpers import PLDAFactory as F
p = argparse.ArgumentParser()
F.add_argparse_train_args(p)
a = F.filter_train_args(**vars(p.parse_args(['--no-update-V'])))
assert not a['update_V'] and a['update_U']
''')
