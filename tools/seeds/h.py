COMMON = '''
import os, sys, types, numpy as np
S = os.environ['SCRATCH']
class Optimizer(object):
    def __init__(self, *lrs):
        self.param_groups = [dict(lr=x) for x in lrs]
def module(name, **d):
    m = types.ModuleType(name)
    m.__dict__.update(d)
    sys.modules[name] = m
    return m
class Module(object):
    def __init__(self):
        pass
class Any(type):
    def __getattr__(c, k):
        return c
torch = module('torch', nn=module('torch.nn', Module=Module), optim=module('torch.optim', Optimizer=Optimizer))
module('torch._six', inf=float('inf'))
'''
TR = 'hyperion/torch/'
seed('C39-gamma-restarts', 'C39', 'a cosine schedule with more than one restart', 'The maximum shrinks once only.',
     [(TR + 'lr_schedulers/cos_lr.py', "                self.num_restarts += 1\n", "                self.num_restarts = 1\n")],
     COMMON + '''
from hyperion.torch.lr_schedulers import CosineLR
o = Optimizer(1.)
s = CosineLR(o, 2, warm_restarts=True, gamma=.5)
l = []
for e in range(7):
    s.epoch_begin_step(e)
    l.append(o.param_groups[0]['lr'])
    s.epoch_end_step()
assert abs(l[2] - .5) < 1e-9 and abs(l[4] - .25) < 1e-9 and abs(l[6] - .125) < 1e-9, l
''')
seed('C39-cooldown', 'C39', 'a metric that does not improve while the plateau schedule cools down', 'Bad epochs in the cooldown count.',
     [(TR + 'lr_schedulers/red_lr_on_plateau.py', "            self.num_bad_epochs = 0  # ignore any bad epochs in cooldown\n", "            self.num_bad_epochs = min(self.num_bad_epochs, self.patience)  # ignore any bad epochs in cooldown\n")],
     COMMON + '''
from hyperion.torch.lr_schedulers import ReduceLROnPlateau
o = Optimizer(1.)
s = ReduceLROnPlateau(o, factor=.5, patience=1, cooldown=2)
l = []
for e in range(8):
    s.epoch_begin_step(e)
    s.epoch_end_step({'val_loss': 1.})
    l.append(o.param_groups[0]['lr'])
assert l == [1, 1, .5, .5, .5, .5, .25, .25], l
''')
seed('C39-min-of-groups', 'C39', 'several groups of parameters with different minima', 'All groups have the minimum of the first one.',
     [(TR + 'lr_schedulers/red_lr_on_plateau.py', "self.min_lrs[i])", "min(self.min_lrs))")],
     COMMON + '''
from hyperion.torch.lr_schedulers import ReduceLROnPlateau
o = Optimizer(1., 1.)
s = ReduceLROnPlateau(o, factor=.1, patience=0, min_lr=[.01, .5])
for e in range(3):
    s.epoch_begin_step(e)
    s.epoch_end_step({'val_loss': 1.})
assert o.param_groups[1]['lr'] == .5, o.param_groups
''')
seed('C40-average-of-batches', 'C40', 'a last batch smaller than the others', 'The logged metrics are averages over batches.',
     [(TR + 'utils/metric_acc.py', "        self.count += num_samples\n        r = num_samples/self.count\n", "        self.count += 1\n        r = 1/self.count\n")],
     COMMON + '''
from hyperion.torch.utils.metric_acc import MetricAcc
m = MetricAcc()
m.update({'a': 1.}, 30)
m.update({'a': 0.}, 10)
assert abs(m.metrics['a'] - .75) < 1e-9
''')
seed('C40-table-overwritten', 'C40', 'a training that goes on with the table of the run before', 'The rows of the run before are lost.',
     [(TR + 'loggers/csv_logger.py', "                    self.append_header = len(f.readline())==0\n", "                    self.append_header = len(f.readlines())<=2\n")],
     COMMON + '''
from hyperion.torch.loggers import CSVLogger
for i in range(2):
    l = CSVLogger(S + '/log/t.csv', append=i > 0)
    l.on_train_begin()
    l.on_epoch_begin(i, {})
    l.on_epoch_end({'loss': 1.})
    l.on_train_end()
assert len(open(S + '/log/t.csv').read().split()) == 3
''')
seed('C40-weighted-binary', 'C40', 'binary accuracy with sample weights that do not have mean one', 'Weighted accuracies are scaled.',
     [(TR + 'metrics/accuracy_functional.py', """            ok *= weight.unsqueeze(1)
        else:
            ok *= weight
        weight_mean = weight.mean()
""", """            ok *= weight.unsqueeze(1)
            weight_mean = weight.mean()
        else:
            ok *= weight
""")],
     COMMON + '''
class T(object):
    def __init__(self, a):
        self.a = np.asarray(a, dtype=float)
    def dim(self): return self.a.ndim
    def size(self, d=None): return self.a.shape if d is None else self.a.shape[d]
    def numel(self): return self.a.size
    def __gt__(self, x): return T(self.a > x)
    def eq(self, x): return T(self.a == x.a)
    def float(self): return self
    def __imul__(self, x): self.a = self.a * x.a; return self
    def unsqueeze(self, d): return T(np.expand_dims(self.a, d))
    def mean(self): return T(self.a.mean())
    def __truediv__(self, x): return T(self.a / getattr(x, 'a', x))
    def item(self): return self.a.item()
from hyperion.torch.metrics.accuracy_functional import binary_accuracy
w = T([[2., 4.], [6., 8.]])
assert abs(binary_accuracy(T([[.9, .1], [.2, .8]]), T([[1, 0], [0, 1]]), weight=w) - 1) < 1e-9
''')
seed('C41-adagrad', 'C41', 'options of the AdaGrad optimizer', 'The decay of the learning rate of AdaGrad is its weight decay.',
     [(TR + 'helpers/optimizer_factory.py', "params, lr, lr_decay=lr_decay,", "params, lr, lr_decay=weight_decay,")],
     COMMON + '''
got = {}
torch.optim.Adagrad = lambda p, lr, **k: got.update(k)
import importlib.util, hyperion
f = os.path.dirname(hyperion.__file__) + '/torch/helpers/optimizer_factory.py'
sp = importlib.util.spec_from_file_location('of', f)
m = importlib.util.module_from_spec(sp)
sp.loader.exec_module(m)
m.OptimizerFactory.create([1], 'adagrad', .1, lr_decay=.3, weight_decay=.2)
assert got['lr_decay'] == .3 and got['weight_decay'] == .2, got
''')
seed('C41-hardtanh-config', 'C41', 'a configuration made from a hard tanh with limits that are not symmetric', 'The lower limit is lost.',
     [(TR + 'helpers/activation_factory.py', "                    'min_val': activation.min_val,\n", "                    'min_val': -activation.max_val,\n")],
     COMMON + '''
class Hardtanh(object):
    def __init__(self, min_val=-1., max_val=1., inplace=False):
        self.min_val, self.max_val, self.inplace = min_val, max_val, inplace
class NN(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        t = type(k, (object,), {})
        setattr(self, k, t)
        return t
nn = NN('torch.nn')
nn.Hardtanh = Hardtanh
torch.nn = sys.modules['torch.nn'] = nn
import importlib.util, hyperion
f = os.path.dirname(hyperion.__file__) + '/torch/helpers/activation_factory.py'
sp = importlib.util.spec_from_file_location('af', f)
m = importlib.util.module_from_spec(sp)
sp.loader.exec_module(m)
c = m.ActivationFactory.get_config(Hardtanh(0., 6.))
assert (c['min_val'], c['max_val']) == (0., 6.), c
''')
