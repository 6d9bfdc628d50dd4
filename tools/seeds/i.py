COMMON = '''
import os, sys, types, importlib.abc, importlib.machinery, numpy as np
S = os.environ['SCRATCH']
class Layer(object):
    def __init__(self, *a, **kw):
        self.name, self.trainable = kw.get('name'), True
    def get_config(self):
        return dict(name=self.name)
class Callback(object):
    def __init__(self, *a, **kw):
        self.__dict__.update(kw)
class ModelCheckpoint(Callback):
    def __init__(self, filepath, monitor='val_loss', verbose=0, save_best_only=False, save_weights_only=False, mode='auto', period=1):
        self.filepath, self.monitor, self.verbose, self.save_best_only, self.period = filepath, monitor, verbose, save_best_only, period
        self.epochs_since_last_save = 0
        big = mode == 'max' or mode == 'auto' and 'acc' in monitor
        self.monitor_op, self.best = (np.greater, -np.inf) if big else (np.less, np.inf)
class Box(object):
    def __init__(self, v):
        self.v = v
class Opt(object):
    def __init__(self, **kw):
        self.kw = kw
def each(f):
    def g(x, *a, **kw):
        if isinstance(kw.get('axis'), list):
            kw['axis'] = tuple(kw['axis'])
        return f(x, *a, **kw)
    return g
def softmax(x, axis=-1):
    e = np.exp(x - x.max(axis, keepdims=True))
    return e / e.sum(axis, keepdims=True)
BACK = dict(backend=lambda: 'tensorflow', ndim=np.ndim, shape=lambda x: np.asarray(x).shape, int_shape=lambda x: np.asarray(x).shape, get_value=lambda b: b.v,
            set_value=lambda b, v: setattr(b, 'v', v), concatenate=lambda l, axis=-1: np.concatenate(l, axis), expand_dims=lambda x, axis=-1: np.expand_dims(x, axis), bias_add=lambda x, b: x + b,
            softmax=softmax, squeeze=lambda x, axis: np.squeeze(x, axis), repeat_elements=lambda x, n, axis: np.repeat(x, n, axis), pow=np.power, floatx=lambda: 'float32', epsilon=lambda: 1e-7,
            random_normal=lambda shape, mean=0., stddev=1., dtype=None, seed=None: np.random.RandomState(1).randn(*shape) * stddev + mean,
            sum=each(np.sum), mean=each(np.mean), max=each(np.max), min=each(np.min), cast=lambda x, t: np.asarray(x).astype(t), relu=lambda x: np.maximum(x, 0),
            sigmoid=lambda x: 1 / (1 + np.exp(-x)), switch=np.where, constant=np.asarray, variable=np.asarray, logsumexp=lambda x, axis=None: np.log(np.exp(x).sum(axis)))
class Module(types.ModuleType):
    __path__ = []
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if self.__name__ == 'keras.backend':
            if k in BACK:
                return BACK[k]
            return getattr(np, k)
        if self.__name__ == 'keras' and k in ('backend', 'layers', 'engine', 'callbacks', 'optimizers', 'models', 'objectives', 'losses', 'initializers', 'regularizers', 'constraints', 'activations', 'utils'):
            return importlib.import_module('keras.' + k)
        if self.__name__ == 'keras.callbacks':
            return dict(ModelCheckpoint=ModelCheckpoint).get(k, Callback)
        if self.__name__ == 'keras.optimizers':
            return type(k, (Opt,), {})
        return Layer
class Find(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name.split('.')[0] in ('keras', 'tensorflow', 'theano'):
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
    def create_module(self, spec):
        m = Module(spec.name)
        if spec.name == 'keras.callbacks':
            m.__all__ = ['Callback', 'ModelCheckpoint', 'CSVLogger', 'EarlyStopping', 'ReduceLROnPlateau']
        return m
    def exec_module(self, m):
        pass
sys.meta_path.insert(0, Find())
rng = np.random.RandomState(3)
'''
K = 'hyperion/keras/'
seed('C42-std-weights', 'C42', 'weights of the frames that are not all one, in two dimensions', 'Deviations are around the plain mean.',
     [(K + 'layers/pooling.py', "        mu1 = K.mean(x*weights, axis=1, keepdims=True)/N\n        s1", "        mu1 = K.mean(x*weights, axis=1, keepdims=True)\n        s1")],
     COMMON + '''
from hyperion.keras.layers import GlobalWeightedMeanStdPooling1D
x, w = rng.randn(2, 5, 3), np.array([[1., 1, 1, 0, 0], [1, 1, 1, 1, .5]])
m, s = GlobalWeightedMeanStdPooling1D().call([x, w])
a = w[..., None] / w.sum(1)[:, None, None]
mu = (x * a).sum(1)
assert np.allclose(m, mu) and np.allclose(s, np.sqrt((a * (x - mu[:, None]) ** 2).sum(1)))
''')
seed('C42-lde-tiny-weights', 'C42', 'order 1 of the dictionary and more than one dimension', 'Distances of order 1 are those of the largest coordinate.',
     [(K + 'layers/pooling.py', "delta = K.sum(K.abs(delta), axis=-1, keepdims=True)", "delta = K.max(K.abs(delta), axis=-1, keepdims=True)")],
     COMMON + '''
from hyperion.keras.layers import LDE1D
l = LDE1D(num_comp=2, order=1)
l.mu, l.s = rng.randn(2, 3), np.array([.5, 1.5])
x = rng.randn(1, 4, 3)
y = l.call([x, np.ones((1, 4, 1))])
r = softmax(np.stack([-l.s[k] * np.abs(x[0] - l.mu[k]).sum(-1) for k in range(2)], -1))
want = np.concatenate([(r[:, [k]] * x[0]).sum(0) / r[:, k].sum() - l.mu[k] for k in range(2)])
assert np.allclose(y[0], want), (y, want)
''')
seed('C42-penalty-precision', 'C42', 'a penalty of correlated frames other than one', 'The penalty scales the natural parameter only.',
     [(K + 'layers/pooling.py', "prec = 1 + self.frame_corr_penalty * K.sum((input_prec-1)*weights, axis=1)", "prec = 1 + K.sum((input_prec-1)*weights, axis=1)")],
     COMMON + '''
from hyperion.keras.layers import GlobalNormalDiagCovPostStdPriorPooling1D as P
p1, v = rng.randn(1, 4, 2), rng.uniform(.2, .9, (1, 4, 2))
eta, prec = P('nat+logvar', 'nat+prec', min_var=.01, frame_corr_penalty=.25).call([p1, np.log(v), np.ones((1, 4))])
assert np.allclose(prec, 1 + .25 * (1 / v - 1).sum(1)) and np.allclose(eta, .25 * p1.sum(1))
''')
seed('C42-tied-natural', 'C42', 'a tied sampler with natural parameters and one sample for each frame', 'The mean is the natural parameter.',
     [(K + 'layers/sampling.py', """        mu, p2 = p_exp
        s = self._compute_stddev(p2)
        if self.in_fmt[0] == 'nat':
""", """        mu, p2 = p_exp
        s = self._compute_stddev(p2)
        if self.in_fmt[0] == 'nat' and self.one_per_seq:
""")],
     COMMON + '''
from hyperion.keras.layers import TiedNormalDiagCovSampler as P
m, v = rng.randn(2, 3) + 3, np.full((2, 3), 1e-6)
x = P(4, 'nat+logvar').call([m / v, np.log(v)])
assert x.shape == (2, 4, 3) and np.allclose(x, m[:, None], atol=.02), x
''')
EMB = COMMON + '''
from hyperion.keras.embed import SeqEmbed, SeqEmbedLDE, SeqQEmbed
import hyperion.keras.embed.seq_embed as se
class Enc(object):
    def __init__(self, r=1):
        self.r = r
    def predict(self, x, batch_size=1, **kw):
        n = x.shape[1] // self.r * self.r
        return np.asarray(x)[:, :n].reshape(x.shape[0], -1, self.r, x.shape[2]).mean(2)
class Pool(object):
    def predict(self, xm, batch_size=1, **kw):
        self.got = [np.array(a) for a in xm]
        return [np.asarray(xm[0]).sum(1)]
def embed(cls, n, L, r=1, **kw):
    class M(cls):
        in_length, pool_in_length, enc_downsampling, pool_in_dim = L, L // r, r, 2
    m = M.__new__(M)
    m.enc_net, m.pool_net = Enc(r), Pool()
    m.__dict__.update(kw)
    x = rng.randn(n, 2)
    m.predict_embed(x)
    return x, m.pool_net.got
'''
for c, f in (('SeqEmbed', 'seq_embed'), ('SeqEmbedLDE', 'seq_embed_lde')):
    if c == 'SeqEmbed':
        seed('C43-shift-of-chunks', 'C43', 'a sequence of several chunks with a left and a right context that differ', 'Chunks are shifted by the wrong number of frames.',
             [(K + 'embed/%s.py' % f, "        in_shift = in_seq_length - self.left_context - self.right_context\n", "        in_shift = in_seq_length - 2*max(self.left_context, self.right_context)\n"),
              (K + 'embed/%s.py' % f, "        num_batches = max(int(np.ceil((in_length-in_seq_length)/in_shift+1)), 1)\n", "        num_batches = max(int(np.ceil((in_length-in_seq_length)/(in_seq_length - self.left_context - self.right_context)+1)), 1)\n")],
             EMB + '''
for n in (5, 10, 37):
    x, (y, w) = embed(%s, n, 10, left_context=1, right_context=3, begin_context=1, end_context=3)
    assert np.allclose(np.asarray(y)[0, 1:n - 3], x[1:n - 3], atol=1e-5) and w[0].sum() == n - 4
''' % c)
    else:
        seed('C43-end-of-lde', 'C43', 'an encoder that takes fewer frames out than in, and an end context', 'The frames at the end are left out in frames of the input.',
             [(K + 'embed/%s.py' % f, "        pool_end_context = int(self.end_context/r)\n", "        pool_end_context = int(self.end_context)\n")],
             EMB + '''
x, (y, w) = embed(%s, 40, 12, 2, left_context=2, right_context=2, begin_context=0, end_context=4)
assert w.shape == (1, 20) and w[0, :18].all() and not w[0, 18:].any(), w
''' % c)
seed('C44-step-twice', 'C44', 'two changes of the learning rate, of which the later is larger', 'The rate is never raised by the steps.',
     [(K + 'callbacks/lr_schedulers.py', "            K.set_value(self.model.optimizer.lr, lr)\n", "            K.set_value(self.model.optimizer.lr, min(lr, K.get_value(self.model.optimizer.lr)))\n")],
     COMMON + '''
from hyperion.keras.callbacks import LearningRateSteps
c = LearningRateSteps({1: .1, 3: .5})
c.model = types.SimpleNamespace(optimizer=types.SimpleNamespace(lr=Box(1.)))
l = []
for e in range(5):
    c.on_epoch_begin(e, {})
    l.append(c.model.optimizer.lr.v)
assert l == [1., .1, .1, .5, .5], l
''')
seed('C44-best-rounded', 'C44', 'an improvement smaller than a thousandth', 'The best value is rounded.',
     [(K + 'callbacks/checkpointers.py', "self.best = current\n", "self.best = round(float(current), 3)\n")],
     COMMON + '''
from hyperion.keras.callbacks import HypModelCheckpoint
class M(object):
    n = 0
    def save(self, f):
        self.n += 1
m = M()
c = HypModelCheckpoint(m, 'model.best', save_best_only=True)
for e, v in enumerate([1., .5004, .9, .5002]):
    c.on_epoch_end(e, {'val_loss': v})
assert m.n == 3, m.n
''')
seed('C44-adamax-beta', 'C44', 'the AdaMax optimizer with its second coefficient given', 'AdaMax has the first coefficient twice.',
     [(K + 'helpers/optimizer_factory.py', "return Adamax(lr=lr, beta_1=beta_1, beta_2=beta_2, ", "return Adamax(lr=lr, beta_1=beta_1, beta_2=max(beta_1, beta_2), ")],
     COMMON + '''
from hyperion.keras.helpers import OptimizerFactory
o = OptimizerFactory.create_optimizer('adamax', .1, beta_1=.9, beta_2=.5)
assert type(o).__name__ == 'Adamax' and o.kw['beta_2'] == .5 and o.kw['beta_1'] == .9, o.kw
''')
seed('C43-last-checkpoint', 'C43', 'a folder whose only checkpoint is that of the first epoch', 'The checkpoint of epoch 0 is not found.',
     [(K + 'keras_model_loader.py', "for epoch in xrange(epochs,-1,-1):", "for epoch in xrange(epochs,0,-1):")],
     COMMON + '''
from hyperion.keras.keras_model_loader import KerasModelLoader as L
L.load = staticmethod(lambda p: p)
for e in (0, 7):
    open(S + '/model.%04d.json' % e, 'w').close()
assert L.load_checkpoint(S, 9) == (S + '/model.0007', 7)
assert L.load_checkpoint(S, 6) == (S + '/model.0000', 0)
''')
seed('C44-weight-of-classifier', 'C44', 'a classifier whose weight is not that of the reconstruction', 'With a classifier its weight goes to the reconstruction and the other way round.',
     [(K + 'vae/tied_sup_vae_qyqzgy.py', "            loss_w.append(self.pt_weight)\n", "            loss_w.insert(0, self.pt_weight)\n")],
     COMMON + '''
from hyperion.keras.vae import TiedSupVAE_QYQZgY as V
class R(object):
    def compile(self, **kw):
        self.kw = kw
m = V.__new__(V)
m.model, m.pt_net, m.px_form, m.pt_form = R(), object(), 'bernoulli', 'categorical'
m.px_weight, m.pt_weight, m.kl_qy_weight, m.kl_qz_weight = 1., 2., 3., 4.
m.compile(optimizer=None)
assert m.model.kw['loss_weights'] == [1., 2., 3., 4.], m.model.kw
''')
