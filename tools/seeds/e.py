COMMON = '''
import os, numpy as np
S = os.environ['SCRATCH']
def store(names, X, path=S + '/x.h5', field=''):
    from hyperion.io import HypDataWriter
    w = HypDataWriter(path)
    w.write(names, field, X)
    w.f.close()
    return path
def lst(rows, path, sep=' '):
    with open(path, 'w') as f:
        for r in rows:
            f.write(sep.join(r) + '\\n')
    return path
'''
H, G = 'hyperion/helpers/', 'hyperion/generators/'
seed('C33-parts-enroll', 'C33', 'dividing the trials by models', 'The enrollment vectors of all models come with each part.',
     [(H + 'trial_data_reader.py', """            enroll = enroll.filter_info(ndx.model_set)

""", """
""")],
     COMMON + '''
from hyperion.helpers import TrialDataReader
from hyperion.utils import TrialNdx
k = ['u%d' % i for i in range(6)]
f = store(k, np.arange(12.).reshape(6, 2))
e = lst(zip(k[:3], 'abc'), S + '/e')
TrialNdx(['a', 'b', 'c'], k[3:]).save(S + '/n.h5')
xe, xt, en, ndx = TrialDataReader('h5:' + f, S + '/n.h5', e, None, None, model_idx=1, num_model_parts=3).read()
assert len(xe) == 1 and list(en) == ['a'], en
''')
seed('C33-prune-last', 'C33', 'pruning the last samples of a class of less than twice the maximum', 'Pruning the last samples keeps the wrong number.',
     [(H + 'vector_class_reader.py', """                    if spc_pruning_mode == 'last':
                        indx = indx[-num_reject:]""", """                    if spc_pruning_mode == 'last':
                        indx = indx[-min(num_reject, max_spc):]""")],
     COMMON + '''
from hyperion.helpers import VectorClassReader
k = ['u%d' % i for i in range(7)]
f = store(k, np.arange(14.).reshape(7, 2))
l = lst(zip(k, 'aaaaaab'), S + '/l')
x, c = VectorClassReader('h5:' + f, l, max_spc=2, spc_pruning_mode='last').read()
assert list(c) == [0, 0, 1], c
''')
seed('C34-remainder', 'C34', 'a sequence whose remainder is exactly the minimum length', 'Remainders of exactly the minimum length are not served.',
     [(H + 'sequence_reader.py', "num_subseqs += (remainder >= self.min_seq_length).astype(int)", "num_subseqs += (remainder > self.min_seq_length).astype(int)")],
     COMMON + '''
from hyperion.helpers import SequenceReader
f = store(['a', 'b'], [np.random.rand(7, 2), np.random.rand(8, 2)])
l = lst([('a', 'a'), ('b', 'b')], S + '/l', '=')
r = SequenceReader(f, l, max_seq_length=5, min_seq_length=2, seq_split_mode='sequential', shuffle_seqs=False)
assert list(r.num_subseqs) == [2, 2], r.num_subseqs
''')
seed('C34-epoch-frames', 'C34', 'a second epoch of consecutive pieces', 'The position in sequences of one piece is not reset between epochs.',
     [(H + 'sequence_reader.py', """            if self.cur_frame is not None:
                self.cur_frame[:] = 0
""", """            if self.cur_frame is not None:
                self.cur_frame[self.num_subseqs > 1] = 0
""")],
     COMMON + '''
from hyperion.helpers import SequenceReader
f = store(['a', 'b'], [np.random.rand(3, 2), np.random.rand(9, 2)])
l = lst([('a', 'a'), ('b', 'b')], S + '/l', '=')
r = SequenceReader(f, l, max_seq_length=4, seq_split_mode='sequential', shuffle_seqs=False)
for i in range(4 * 3):
    x, k = r.read()
    assert len(x[0]) > 0, i
''')
seed('C34-last-position', 'C34', 'random slices, over many epochs', 'The last possible position of a slice is never drawn.',
     [('hyperion/io/hyp_data_reader.py', "index = rng.randint(low=0, high=num_rows-num_samples+1)", "index = rng.randint(low=0, high=max(1, num_rows-num_samples))")],
     COMMON + '''
from hyperion.helpers import SequenceReader
f = store(['a'], [np.arange(12.).reshape(6, 2)])
l = lst([('a', 'a')], S + '/l', '=')
r = SequenceReader(f, l, max_seq_length=4, min_seq_length=4, seq_split_mode='random_slice')
assert {r.read()[0][0][0, 0] for i in range(100)} == {0., 2., 4.}
''')
seed('C35-restart-piece', 'C35', 'consecutive pieces of sequences of different length with balanced weights', 'A sequence served again continues at its last piece instead of its start.',
     [(G + 'sequence_batch_generator_v1.py', """                seq_length = min(remainder_seq_length, self.max_seq_length)
                self.cur_frame[self.cur_seq] = 0
""", """                seq_length = min(remainder_seq_length, self.max_seq_length)
""")],
     COMMON + '''
from hyperion.generators import SequenceBatchGeneratorV1 as G
f = store(['a', 'b'], [np.arange(20.).reshape(10, 2), np.arange(80.).reshape(40, 2)])
l = lst([('a', '1'), ('b', '2')], S + '/l')
g = G('h5:' + f, l, gen_method='sequential', min_seq_length=5, max_seq_length=5, shuffle_seqs=False)
t = [b[1][0][0, 0] for b in (g.read(squeeze=False) for i in range(g.steps_per_epoch)) if b[0][0] == 'a']
assert t == [0., 10.] * 4, t
''')
seed('C35-class-order', 'C35', 'a class list that is not in alphabetical order', 'Utterances are filed under the alphabetical number of their class.',
     [(G + 'sequence_batch_generator_v2.py', "class_idx = np.array([class_dict[k] for k in self.u2c.info], dtype=int)", "_, class_idx = np.unique(self.u2c.info, return_inverse=True)")],
     COMMON + '''
from hyperion.generators import SequenceBatchGeneratorV2 as G
n = ['u%d' % i for i in range(4)]
f = store(n, [np.random.rand(5, 2) for k in n])
l = lst(zip(n, 'abab'), S + '/l')
c = lst(['b', 'a'], S + '/c')
g = G('h5:' + f, l, class_list=c)
for i in range(20):
    k, x, w, y = g.read()
    assert np.argmax(y[0]) == (0 if k[0] in ('u1', 'u3') else 1)
''')
seed('C35-short-of-classes', 'C35', 'random pieces of exactly one length, over many batches', 'The last possible position of a piece is never drawn.',
     [(G + 'sequence_batch_generator_v2.py', """            first_frame = self.rng.randint(
                low=0, high=full_seq_length-seq_length+1)""", """            first_frame = self.rng.randint(
                low=0, high=max(1, full_seq_length-seq_length))""")],
     COMMON + '''
from hyperion.generators import SequenceBatchGeneratorV2 as G
f = store(['a'], [np.arange(12.).reshape(6, 2)])
l = lst([('a', 'b')], S + '/l')
g = G('h5:' + f, l, min_seq_length=4, max_seq_length=4, iters_per_epoch=50)
assert {g.read(squeeze=False)[1][0][0, 0] for i in range(100)} == {0., 2., 4.}
''')
