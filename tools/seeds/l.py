COMMON = '''import os, shutil, subprocess, sys, tempfile
S = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, S, True)
R = os.getcwd()
def script(name, text):
    with open(os.path.join(S, name), 'w') as f:
        f.write('#!/bin/bash\\n' + text)
    os.chmod(os.path.join(S, name), 0o755)
def run(*a):
    q = subprocess.run(a, cwd=S, env=dict(PATH=S + ':/usr/bin:/bin', HOME=S), stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
    return q.returncode, q.stdout.strip()
'''

seed('C47-ten-gpus', 'C47', 'a machine with more than ten GPUs, a process on the eleventh', 'The number of a GPU is cut to its first figure.',
     [('hyp_utils/free-gpu', "| tail -n+3 | head -n-1 | awk '{print $2}'", "| tail -n+3 | head -n-1 | awk '{print substr($2,1,1)}'")],
     COMMON + '''
script('lspci', 'for i in 1 2 3 4 5 6 7 8 9 10 11; do echo "$i:00.0 3D controller: NVIDIA Corporation"; done\\n')
script('nvidia-smi', """cat <<E
Fri Nov 20 08:00:00 2026
| Processes:                                                       GPU Memory |
|  GPU       PID   Type   Process name                             Usage      |
|=============================================================================|
|   10      1234      C   python                                       100MiB |
+-----------------------------------------------------------------------------+
E
""")
r, o = run('bash', R + '/hyp_utils/free-gpu', '-n', '10')
assert r == 0 and sorted(map(int, o.split(','))) == list(range(10)), (r, o)
''')

seed('C47-failure-hidden', 'C47', 'a program that fails, run by torch.sh', 'torch.sh ends well when the program fails.',
     [('hyp_utils/torch.sh', "fi\nset -e\nnum_gpus=0", "fi\nnum_gpus=0")],
     COMMON + '''
script('python', 'exit 3\\n')
script('conda', 'echo %s\\n' % S)
r, o = run('bash', R + '/hyp_utils/torch.sh', 'train.py')
assert r == 3, r
script('python', 'exit 0\\n')
r, o = run('bash', R + '/hyp_utils/torch.sh', 'train.py')
assert r == 0, r
''')

seed('C39-counts-swapped', 'C39', 'an exponential schedule that goes on from given counts of epochs and batches', 'The counts of epochs and batches are exchanged.',
     [('hyperion/torch/lr_schedulers/exp_lr.py', "            last_epoch, last_batch, update_lr_on_batch)", "            last_batch, last_epoch, update_lr_on_batch)")],
     COMMON + '''
import types
t, o = types.ModuleType('torch'), types.ModuleType('torch.optim')
class Optimizer(object):
    param_groups = [dict(lr=.1, initial_lr=1.)]
o.Optimizer, t.optim = Optimizer, o
sys.modules.update({'torch': t, 'torch.optim': o})
p, m = types.ModuleType('p'), os.path.join(R, 'hyperion/torch/lr_schedulers')
p.__path__ = [m]
sys.modules['p'] = p
sys.dont_write_bytecode = True
from p.exp_lr import ExponentialLR
x = Optimizer()
s = ExponentialLR(x, .5, 1, 0, last_epoch=2, last_batch=29)
s.epoch_begin_step()
assert abs(x.param_groups[0]['lr'] - .5**3) < 1e-12, x.param_groups
''')
