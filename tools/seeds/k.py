COMMON = '''
import os, sys, numpy as np
S = os.environ['SCRATCH']
'''

SHELL = COMMON + '''
import shutil, subprocess
shutil.copytree('hyp_utils', S + '/hyp_utils')
os.makedirs(S + '/utils/data')
os.mkdir(S + '/bin')


def put(name, text):
    with open(os.path.join(S, name), 'w') as f:
        f.write(text)
    os.chmod(os.path.join(S, name), 0o755)


put('utils/filter_scp.pl', r"""#!/usr/bin/perl
$ids = shift @ARGV;
open(F, $ids eq '-' ? '<&STDIN' : "<$ids") || die;
while (<F>) { @A = split; $seen{$A[0]} = 1; }
while (<>) { @A = split; print if $seen{$A[0]}; }
""")
put('utils/utt2spk_to_spk2utt.pl', r"""#!/usr/bin/perl
while (<>) { @A = split; push @S, $A[1] unless exists $U{$A[1]}; push @{$U{$A[1]}}, $A[0]; }
print join(' ', $_, @{$U{$_}}) . "\\n" for @S;
""")
put('utils/spk2utt_to_utt2spk.pl', r"""#!/usr/bin/perl
while (<>) { @A = split; $s = shift @A; print "$_ $s\\n" for @A; }
""")
put('utils/feat-to-len', r"""#!/bin/bash
sed 's/ .*:/ /' ${1#scp:} > ${2#ark,t:}
""")
put('path.sh', 'export PATH=$PWD/utils:$PATH\\n')
put('utils/parse_options.sh', r"""while [ "${1#--}" != "$1" ]; do eval $(echo ${1#--} | sed 's/-/_/g')=\\"$2\\"; shift 2; done; true
""")
shutil.copy(S + '/hyp_utils/fix_data_dir.sh', S + '/utils/fix_data_dir.sh')


def data(name, **files):
    os.makedirs(S + '/' + name)
    for f, lines in files.items():
        with open('%s/%s/%s' % (S, name, f.replace('__', '.')), 'w') as o:
            o.writelines(x + '\\n' for x in sorted(lines))


def sh(*args):
    subprocess.run(['bash'] + list(args), cwd=S, check=True, env=dict(os.environ, PATH=os.environ['PATH'] + ':' + S + '/utils', TMPDIR=S))


def lines(name):
    return open(S + '/' + name).read().splitlines()


'''
F = 'hyp_utils/'

seed('C45-last-recordings', 'C45', 'a recording whose only utterance is removed because a file lacks it, in a directory with segments',
     'Recordings that no segment uses are left in wav.scp.',
     [(F + 'fix_data_dir.sh', "filter_speakers\nfilter_recordings\n\nutils/utt2spk", "filter_speakers\n\nutils/utt2spk")],
     SHELL + '''
data('d', utt2spk=['s1-a s1', 's1-b s1'], spk2utt=['s1 s1-a s1-b'], text=['s1-a hello'], segments=['s1-a r1 0 1', 's1-b r2 0 1'],
     wav__scp=['r1 /w/1.wav', 'r2 /w/2.wav'])
sh('hyp_utils/fix_data_dir.sh', 'd')
assert lines('d/utt2spk') == ['s1-a s1'] and lines('d/segments') == ['s1-a r1 0 1']
assert lines('d/wav.scp') == ['r1 /w/1.wav'], lines('d/wav.scp')
''')

seed('C45-shortest-text', 'C45', 'lengths with different numbers of digits', 'The shortest utterances are those whose lengths come first as text.',
     [(F + 'subset_data_dir.sh', "    sort -n -k2 $destdir/tmp.len | awk '{print $1}'", "    sort -k2,2 $destdir/tmp.len | awk '{print $1}'")],
     SHELL + '''
data('d', utt2spk=['s1-a s1', 's1-b s1', 's1-c s1'], spk2utt=['s1 s1-a s1-b s1-c'], feats__scp=['s1-a x:900', 's1-b x:1200', 's1-c x:300'])
sh('hyp_utils/subset_data_dir.sh', '--shortest', 'd', '2', 'sub')
assert lines('sub/utt2spk') == ['s1-a s1', 's1-c s1'], lines('sub/utt2spk')
''')

seed('C45-segments-keep-wav', 'C45', 'subsets of a directory with segments', 'The recordings of the first filter, by utterance, are kept if there are any with the name of an utterance.',
     [(F + 'subset_data_dir.sh', "     [ -f $srcdir/reco2file_and_channel ] && \\\n       utils/filter_scp.pl $destdir/reco <$srcdir/reco2file_and_channel >$destdir/reco2file_and_channel\n\n     # Filter the STM",
       "     [ -f $srcdir/reco2file_and_channel ] && [ ! -s $destdir/wav.scp ] && \\\n       utils/filter_scp.pl $destdir/reco <$srcdir/reco2file_and_channel >$destdir/reco2file_and_channel\n\n     # Filter the STM")],
     SHELL + '''
data('d', utt2spk=['s1-a s1', 's1-b s1'], spk2utt=['s1 s1-a s1-b'], segments=['s1-a r1 0 1', 's1-b r2 0 1'], wav__scp=['r1 /w/1.wav', 'r2 /w/2.wav'],
     reco2file_and_channel=['r1 f1 A', 'r2 f2 A'])
with open(S + '/list', 'w') as f:
    f.write('s1-b\\n')
sh('hyp_utils/subset_data_dir.sh', '--utt-list', 'list', 'd', 'sub')
assert lines('sub/wav.scp') == ['r2 /w/2.wav'] and lines('sub/reco2file_and_channel') == ['r2 f2 A'], os.listdir(S + '/sub')
''')

seed('C12-merge-first-order', 'C12', 'merging of keys with conditions of models when the models of the first key are not in order',
     'The conditions of the models of the first key are given to its models in order.',
     [('hyperion/utils/trial_key.py', "                model_cond_1[:, mi_a] = model_cond[:, mi_b]\n", "                model_cond_1[:, np.isin(new_model_set, model_set)] = model_cond\n")],
     COMMON + '''
from hyperion.utils.trial_key import TrialKey
m = lambda i, c: TrialKey(np.array(i), np.array(['t1', 't2']), np.eye(2, dtype=bool), ~np.eye(2, dtype=bool), model_cond=np.array([c], bool), model_cond_name=np.array(['male']))
k = TrialKey.merge([m(['b', 'a'], [1, 0]), m(['c', 'd'], [0, 1])])
got = dict(zip(k.model_set, k.model_cond[0]))
assert got == dict(a=False, b=True, c=False, d=True), got
''')

seed('C31-mask-of-all', 'C31', 'adaptive S-norm with masks and less selected scores than the cohort has', 'The fraction of allowed scores is that of the whole cohort.',
     [('hyperion/score_norm/adapt_s_norm.py', "                norm = np.mean(mask_coh_test[best_idx_i,:],\n                               axis=0, keepdims=True)\n",
       "                norm = np.mean(mask_coh_test, axis=0, keepdims=True)\n")],
     COMMON + '''
from hyperion.score_norm import AdaptSNorm
r = np.random.RandomState(0)
s, ct, ec = r.randn(4, 5), r.randn(40, 5), r.randn(4, 40)
mct, mec = r.rand(40, 5) > .3, r.rand(4, 40) > .3
got = AdaptSNorm(nbest=15).predict(s, ct.copy(), ec.copy(), mask_coh_test=mct, mask_enr_coh=mec)
Z, T = np.zeros((4, 5)), np.zeros((4, 5))
for i in range(4):
    for j in range(5):
        b = [c for c in np.argsort(np.where(mct[:, j], ct[:, j], -np.inf))[::-1][:15] if mct[c, j] and mec[i, c]]
        Z[i, j] = (s[i, j] - np.mean(ec[i, b]))/np.std(ec[i, b])
        b = [c for c in np.argsort(np.where(mec[i], ec[i], -np.inf))[::-1][:15] if mct[c, j] and mec[i, c]]
        T[i, j] = (s[i, j] - np.mean(ct[b, j]))/np.std(ct[b, j])
assert np.allclose(got, (Z + T)/np.sqrt(2)) or np.allclose(got, (Z + T)/2), (got[0], ((Z + T)/2)[0])
''')

seed('C01-negative-constant', 'C01', 'a constant negative matrix in a compressed archive', 'A range that is not positive stops the writing of constant negative matrices.',
     [('hyperion/utils/kaldi_matrix.py', "                max_value = min_value + 1 + np.abs(min_value)\n", "                max_value = 1 + 2*min_value\n")],
     COMMON + '''
from hyperion.io import DataWriterFactory as W, SequentialDataReaderFactory as R
x = -2*np.ones((4, 3), 'float32')
with W.create('ark:' + S + '/a.ark', compress=True) as w:
    w.write(['a'], [x])
with R.create('ark:' + S + '/a.ark') as r:
    k, y = r.read()
assert np.allclose(y[0], x, atol=1e-3), y[0]
''')

KERAS = '''
import os, sys, types, importlib.abc, importlib.machinery, numpy as np
S = os.environ['SCRATCH']
class Layer(object):
    def __init__(self, *a, **kw):
        self.name, self.trainable = kw.get('name'), True
    def get_config(self):
        return dict(name=self.name)
class Callback(object):
    def __init__(self, *a, **kw):
        self.__dict__.update(kw)
class ModelCheckpoint(Callback):
    def __init__(self, filepath, monitor='val_loss', verbose=0, save_best_only=False, save_weights_only=False, mode='auto', period=1):
        self.filepath, self.monitor, self.verbose, self.save_best_only, self.period = filepath, monitor, verbose, save_best_only, period
        self.epochs_since_last_save = 0
        big = mode == 'max' or mode == 'auto' and 'acc' in monitor
        self.monitor_op, self.best = (np.greater, -np.inf) if big else (np.less, np.inf)
class Box(object):
    def __init__(self, v):
        self.v = v
class Opt(object):
    def __init__(self, **kw):
        self.kw = kw
def each(f):
    def g(x, *a, **kw):
        if isinstance(kw.get('axis'), list):
            kw['axis'] = tuple(kw['axis'])
        return f(x, *a, **kw)
    return g
def softmax(x, axis=-1):
    e = np.exp(x - x.max(axis, keepdims=True))
    return e / e.sum(axis, keepdims=True)
BACK = dict(backend=lambda: 'tensorflow', ndim=np.ndim, shape=lambda x: np.asarray(x).shape, int_shape=lambda x: np.asarray(x).shape, get_value=lambda b: b.v,
            set_value=lambda b, v: setattr(b, 'v', v), concatenate=lambda l, axis=-1: np.concatenate(l, axis), expand_dims=lambda x, axis=-1: np.expand_dims(x, axis), bias_add=lambda x, b: x + b,
            softmax=softmax, squeeze=lambda x, axis: np.squeeze(x, axis), repeat_elements=lambda x, n, axis: np.repeat(x, n, axis), pow=np.power, floatx=lambda: 'float32', epsilon=lambda: 1e-7,
            random_normal=lambda shape, mean=0., stddev=1., dtype=None, seed=None: np.random.RandomState(1).randn(*shape) * stddev + mean,
            sum=each(np.sum), mean=each(np.mean), max=each(np.max), min=each(np.min), cast=lambda x, t: np.asarray(x).astype(t), relu=lambda x: np.maximum(x, 0),
            sigmoid=lambda x: 1 / (1 + np.exp(-x)), switch=np.where, constant=np.asarray, variable=np.asarray, logsumexp=lambda x, axis=None: np.log(np.exp(x).sum(axis)))
class Module(types.ModuleType):
    __path__ = []
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if self.__name__ == 'keras.backend':
            if k in BACK:
                return BACK[k]
            return getattr(np, k)
        if self.__name__ == 'keras' and k in ('backend', 'layers', 'engine', 'callbacks', 'optimizers', 'models', 'objectives', 'losses', 'initializers', 'regularizers', 'constraints', 'activations', 'utils'):
            return importlib.import_module('keras.' + k)
        if self.__name__ == 'keras.callbacks':
            return dict(ModelCheckpoint=ModelCheckpoint).get(k, Callback)
        if self.__name__ == 'keras.optimizers':
            return type(k, (Opt,), {})
        return Layer
class Find(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name.split('.')[0] in ('keras', 'tensorflow', 'theano'):
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
    def create_module(self, spec):
        m = Module(spec.name)
        if spec.name == 'keras.callbacks':
            m.__all__ = ['Callback', 'ModelCheckpoint', 'CSVLogger', 'EarlyStopping', 'ReduceLROnPlateau']
        return m
    def exec_module(self, m):
        pass
sys.meta_path.insert(0, Find())
rng = np.random.RandomState(3)
'''
TOOL = KERAS + '''
import runpy, hyperion.generators, hyperion.keras.embed, hyperion.keras.helpers, hyperion.keras.keras_model_loader as kml, hyperion.keras.keras_utils as ku
import hyperion.keras.backend_addons as ba, hyperion.transforms as tr
ba.reserve_gpu = lambda: 0
ku.load_model_arch = lambda f: f
made, fits = [], {}


class Gen(object):
    def __init__(self, path, lst, **kw):
        made.append((lst, kw))
        self.max_seq_length, self.cur_epoch, self.steps_per_epoch = 40 if lst == 'long' else 30, 0, 2
    def read(self, max_seq_length=None, **kw):
        return 'k', np.zeros((2, max_seq_length, 1)), None, np.eye(2)
    @staticmethod
    def filter_args(**kw):
        return {}
    @staticmethod
    def add_argparse_args(p):
        pass


class Net(object):
    def __init__(self, *a, **kw):
        pass
    def build(self, n=None):
        fits['build'] = n
    def compile(self, **kw):
        pass
    save = compile_ = lambda self, *a: None
    def fit_generator(self, g, validation_data=None, **kw):
        fits.update(train=next(g)[0].shape, val=next(validation_data)[0].shape, **kw)
    filter_args = staticmethod(lambda **kw: {})
    add_argparse_args = staticmethod(lambda p: None)


class None_(object):
    filter_args = staticmethod(lambda **kw: {})
    add_argparse_args = staticmethod(lambda p: None)
    create_callbacks = create_optimizer = staticmethod(lambda *a, **kw: [])


hyperion.generators.SequenceBatchGeneratorV1 = hyperion.generators.SequenceBatchGeneratorV2 = Gen
hyperion.keras.embed.SeqEmbed = hyperion.keras.embed.SeqEmbedLDE = Net
hyperion.keras.helpers.OptimizerFactory = hyperion.keras.helpers.CallbacksFactory = None_
tr.TransformList.load = staticmethod(lambda f: 'transform of ' + f)


def train(name, net, **kw):
    sys.argv = [name, '--data-path', 'd', '--train-list', 'short', '--val-list', 'long', '--%s-net' % net[0], 'e', '--%s-net' % net[1], 'p', '--output-path', S + '/out', '--epochs', '3']
    sys.argv += [x for k, v in kw.items() for x in ('--' + k.replace('_', '-'), v)]
    runpy.run_path('hyperion/bin/%s.py' % name, run_name='__main__')


'''
B = 'hyperion/bin/keras-train-cat-seq-embed-'

seed('C46-longest-of-training', 'C46', 'a validation list with sequences longer than those of the training, with no maximum length', 'Sequences of validation are asked with as many frames as those of the training.',
     [(B + 'gen-v2.py', "        max_length = max(max_length, sg_val.max_seq_length)\n", "        sg_val.max_seq_length_train = max_length\n")],
     TOOL + '''
train('keras-train-cat-seq-embed-gen-v2', ('enc', 'pt'))
assert fits['build'] == 40 and fits['train'][1] == 40 and fits['val'][1] == 40, fits
''')

seed('C46-plain-validation', 'C46', 'a training with a transform of the features', 'The features of validation are not transformed.',
     [(B + 'lde-gen-v1.py', "        sg_val = G(data_path, val_list,\n                    transform=preproc,\n", "        sg_val = G(data_path, val_list,\n")],
     TOOL + '''
train('keras-train-cat-seq-embed-lde-gen-v1', ('prepool', 'postpool'), preproc_file='f')
assert [kw.get('transform') for _, kw in made] == ['transform of f']*2, made
''')

seed('C46-only-improved', 'C46', 'a training that stores all the epochs and in which one does not improve', 'The epochs that do not improve are not stored, so that the training goes on from an older one.',
     [('hyperion/keras/helpers/callbacks_factory.py', "                                save_best_only=not(save_all_epochs),\n", "                                save_best_only=monitor.startswith('val') or not(save_all_epochs),\n")],
     KERAS + '''
from hyperion.keras.helpers import CallbacksFactory as F
class M(object):
    files = []
    def save(self, f):
        self.files.append(os.path.basename(f))
cb = F.create_callbacks(M(), S + '/o', save_all_epochs=True)[0]
for e, v in enumerate([1., 2., .5]):
    cb.on_epoch_end(e, dict(val_loss=v))
assert M.files == ['model.0000', 'model.0001', 'model.0002'], M.files
''')

POST = TOOL.replace("    def build(self, n=None):\n", "    def freeze_embed(self):\n        pass\n    def build(self, n=None):\n        fits['net'] = self\n") + '''
import hyperion.keras.vae, hyperion.keras.vae.tied_sup_vae_qyqzgy as sup
W = ['kl_weight', 'px_weight', 'pt_weight', 'kl_qy_weight', 'kl_qz_weight']
Net.add_argparse_args = staticmethod(lambda p: [p.add_argument('--' + w.replace('_', '-'), dest=w, type=float, default=1.) for w in W] and None)
hyperion.keras.embed.SeqQEmbed = hyperion.keras.vae.TiedDVAE_QY = sup.TiedSupVAE_QYQZgY = Net
events = []
Gen.num_classes = 2
Gen.reset = lambda self: events.append('reset')
Gen.read = lambda self, max_seq_length=None, **kw: ('k', np.zeros((2, max_seq_length, 1)), np.r_[np.ones(max_seq_length), np.zeros(max_seq_length)].reshape(2, -1), np.eye(2))
'''
Q = 'hyperion/bin/keras-train-cat-'

seed('C46-weight-of-new', 'C46', 'a training of q-embeddings that starts from another model, or that is resumed, with a weight of the divergence that is not that of the model', 'The weight of the divergence is that with which the initial model was trained.',
     [(Q + 'seq-q-embed.py', "    model.kl_weight = kwargs['kl_weight']\n", "    model.kl_weight = getattr(model, 'kl_weight', kwargs['kl_weight'])\n")],
     POST + '''
init = Net()
init.kl_weight = .5
kml.KerasModelLoader.load = staticmethod(lambda f: init)
train('keras-train-cat-seq-q-embed', ('embed', 'embed'), init_path='i', kl_weight='2')
assert fits['net'] is init and init.kl_weight == 2, init.kl_weight
''')

seed('C46-padding-diverges', 'C46', 'a supervised VAE trained with sequences shorter than the longest one', 'The divergence of the frames of padding counts.',
     [(Q + 'tied-sup-vae.py', "[sample_weight, None, None, sample_weight]", "[sample_weight, None, None, np.ones_like(sample_weight)]")],
     POST.replace("next(g)[0].shape", "next(g)[2]") + '''
fits_of = dict
sys.argv = ['t'] + [x for o in ('data-path', 'train-list', 'val-list', 'px-net', 'qy-net', 'qz-net', 'pt-net', 'output-path') for x in ('--' + o, S + '/o')]
kml.KerasModelLoader.load_checkpoint = staticmethod(lambda *a: (None, 0))
runpy.run_path('hyperion/bin/keras-train-cat-tied-sup-vae.py', run_name='__main__')
w = fits['train']
assert w[1] is None and w[2] is None
for i in (0, 3):
    assert (w[i][0] == 1).all() and (w[i][1] == 0).all(), w
''')

seed('C46-same-order', 'C46', 'a training of tied discriminative VAEs that is resumed', 'The first epoch after the training is resumed takes the sequences in the order, and with the crops, of the first of all.',
     [(Q + 'tied-dvae.py', "            sg.reset()\n", "            sg.cur_step = 0\n")],
     POST + '''
kml.KerasModelLoader.load_checkpoint = staticmethod(lambda *a: (Net(), 1))
train('keras-train-cat-tied-dvae', ('qy', 'pt'))
assert fits['initial_epoch'] > 0 and events == ['reset'], events
''')
