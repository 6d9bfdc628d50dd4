"""C47 choice of the GPUs: free-gpu, torch.sh, open_device and reserve_gpu, on machines that are made up"""
import json
import os
import sys

from ..core import case
from .c45 import Shell

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'standin'))

BUS = ['VGA compatible controller: NVIDIA Corporation GP102 [GeForce GTX 1080 Ti] (rev a1)', '3D controller: NVIDIA Corporation GK110BGL [Tesla K40m]',
       'VGA compatible controller: nVidia Corporation GM200', '3D controller: nvidia corporation TU102']
OTHER = ['Ethernet controller: Intel Corporation I350', 'Audio device: NVIDIA Corporation GP102 HDMI Audio Controller (rev a1)',
         'VGA compatible controller: ASPEED Technology, Inc. ASPEED Graphics Family', 'Audio device: Intel Corporation C610']


def script(path, text):
    with open(path, 'w') as f:
        f.write('#!/bin/bash\n' + text)
    os.chmod(path, 0o755)


def table(ctx, n, busy, new):
    """what nvidia-smi prints"""
    o = ['Fri Nov 20 08:00:00 2026', '+' + '-' * 77 + '+', '| NVIDIA-SMI 418.67       Driver Version: 418.67       CUDA Version: 10.1     |', '|' + '-' * 31 + '+']
    for g in range(n):
        o += ['| %3d  GeForce GTX 108...  Off  | 00000000:%02d:00.0 Off |                  N/A |' % (g, g + 2),
              '| %2d%%   30C    P8     9W / 250W |     %3dMiB / 11178MiB |      0%%      Default |' % (ctx.int(0, 99), ctx.int(1, 900)), '+' + '-' * 31 + '+']
    o += ['', '+' + '-' * 77 + '+', '| Processes:                                                       GPU Memory |']
    if new:
        o += ['|  GPU   GI   CI        PID   Type   Process name                  GPU Memory |', '|        ID   ID                                                   Usage      |']
    else:
        o += ['|  GPU       PID   Type   Process name                             Usage      |']
    o += ['|' + '=' * 77 + '|']
    rows = [(g, ctx.int(1, 99999), ctx.pick(['python', '/usr/bin/python3', 'train.py', '/usr/lib/xorg/Xorg', 'python 3 4'])) for g in busy for _ in range(ctx.int(1, 3))]
    if ctx.flip(.3):
        ctx.rng.shuffle(rows)
    for g, pid, name in rows:
        o.append(('|  %3d   N/A  N/A   %8d      C   %-28s  %6dMiB |' if new else '|  %3d  %8d      C   %-40s  %6dMiB |') % (g, pid, name, ctx.int(1, 9999)))
    if not rows:
        o.append('|  No running processes found' + ' ' * 49 + '|')
    o.append('+' + '-' * 77 + '+')
    return '\n'.join(o) + '\n'


def machine(ctx, d):
    """programs of a machine with some GPUs, busy or not; (how many, the free ones)"""
    n = ctx.pick([0, 1, 1, 2, 3, 4, 8, 11])
    busy = [g for g in range(n) if ctx.flip(.4)]
    bus = [ctx.pick(BUS) for _ in range(n)] + [ctx.pick(OTHER) for _ in range(ctx.int(0, 6))]
    ctx.rng.shuffle(bus)
    with open(os.path.join(d, 'pci.txt'), 'w') as f:
        f.write(''.join('%02x:00.0 %s\n' % (i + 1, b) for i, b in enumerate(bus)))
    with open(os.path.join(d, 'smi.txt'), 'w') as f:
        f.write(table(ctx, n, busy, ctx.flip()))
    script(os.path.join(d, 'lspci'), 'cat %s/pci.txt\n' % d)
    script(os.path.join(d, 'nvidia-smi'), 'cat %s/smi.txt\n' % d)
    return n, [g for g in range(n) if g not in busy]


def chosen(ctx, text, ok, k, n, free, where):
    """what is chosen are k different GPUs that are free, or -1"""
    ctx.event('choices')
    if k > len(free) or not n:
        ctx.same(text, '-1', 'minus one when there are not enough free GPUs (%s)' % where)
        ctx.check(not ok, 'success without enough free GPUs (%s)' % where)
        return
    ids = text.split(',') if text else []
    ctx.check(ok is None or ok, 'failure with enough free GPUs (%s)' % where, k, free, text)
    ctx.check(len(ids) == len(set(ids)) == k and all(i in [str(g) for g in free] for i in ids), 'GPUs chosen are free and as many as asked (%s)' % where, k, free, text)


@case(quick=60, mult=8)
def free_gpu(ctx):
    """the GPUs that free-gpu names are those of nvidia-smi without processes"""
    s = Shell(ctx)
    os.mkdir(s.path('bin'))
    n, free = machine(ctx, s.path('bin'))
    s.own()
    env = dict(PATH=s.path('bin') + ':/usr/local/bin:/usr/bin:/bin')
    ctx.sample(gpus=n, free=str(free))
    for _ in range(3):
        k = ctx.pick([1, 1, 2, ctx.int(1, 12), max(1, len(free)), len(free) + 1])
        arg = [] if k == 1 and ctx.flip() else ctx.pick([['-n', str(k)], ['-n%d' % k]])
        q = s.run('hyp_utils/free-gpu', *arg, ok=None, env=env)
        ctx.check(q.stdout.count('\n') == 1, 'one line is written', q.stdout)
        chosen(ctx, q.stdout.strip(), q.returncode == 0, k, n, free, 'free-gpu')
        ctx.sig('free', n, len(free), k > len(free), bool(arg))
    s.run('hyp_utils/free-gpu', '-n', ok=False, env=env)


@case(quick=60, mult=8)
def wrapper(ctx):
    """torch.sh runs the program with its arguments in the environment, on GPUs that are free"""
    s = Shell(ctx)
    os.mkdir(s.path('bin'))
    n, free = machine(ctx, s.path('bin'))
    k = ctx.pick([None, 0, 1, 2])
    code = ctx.pick([0, 0, 1, 3])
    script(s.path('bin', 'python'), 'printf "%%s\\0" "$@" > %s/args.txt\nenv -0 > %s/env.txt\nexit %d\n' % (s.dir, s.dir, code))
    where = ctx.pick(['path', 'here', 'nowhere'])
    if where != 'here':
        if where == 'path':
            os.rename(s.path('hyp_utils', 'free-gpu'), s.path('bin', 'free-gpu'))
        else:
            os.remove(s.path('hyp_utils', 'free-gpu'))
    conda = ctx.pick(['new', 'old', None])
    name = ctx.pick([None, 'pytorch1.0_cuda9.0'])
    if conda is None:
        name = None
    act = 'echo "$*" >> %s/conda.txt; export CONDA_DEFAULT_ENV=%s\n'
    if conda:
        os.makedirs(s.path('conda', 'etc', 'profile.d'))
        script(s.path('bin', 'conda'), 'if [ "$1 $2" = "info --base" ]; then echo %s; else exit 1; fi\n' % s.path('conda'))
        if conda == 'new':
            script(s.path('conda', 'etc', 'profile.d', 'conda.sh'),
                   'conda() { echo "$*" >> %s/conda.txt; if [ "$1" = activate ]; then export CONDA_DEFAULT_ENV="$2"; fi; }\n' % s.dir)
        else:
            script(s.path('bin', 'activate'), 'echo "activate $1" >> %s/conda.txt; export CONDA_DEFAULT_ENV="$1"\n' % s.dir)
            script(s.path('bin', 'deactivate'), 'echo deactivate >> %s/conda.txt\n' % s.dir)
    extra = ctx.flip()
    if extra:
        script(s.path('path.sh'), 'export OF_THE_EXPERIMENT="a b"\n')
    elif os.path.exists(s.path('path.sh')):
        os.remove(s.path('path.sh'))
    s.own()
    env = dict(PATH=s.path('bin') + ':/usr/local/bin:/usr/bin:/bin')
    if name:
        env['TORCH'] = name
    given = ctx.flip(.3)
    if given:
        env['CUDA_VISIBLE_DEVICES'] = '7'
    args = ['train-dnn.py'] + [ctx.pick(['--lr', '0.1', 'a b', '', '*', "it's", '--num-gpus', '$HOME', 'x"y', '-n']) for _ in range(ctx.int(0, 5))]
    pre = [] if k is None else ['--num-gpus', str(k)]
    q = s.run('bash', 'hyp_utils/torch.sh', *(pre + args), ok=None, env=env)
    ctx.check(os.path.exists(s.path('args.txt')), 'the program runs', where, k, q.stdout[-200:], q.stderr[-300:])
    ctx.same(q.returncode, code, 'exit code is that of the program')
    with open(s.path('args.txt')) as f:
        ctx.same(f.read().split('\0')[:-1], args, 'arguments of the program')
    with open(s.path('env.txt')) as f:
        e = dict(x.split('=', 1) for x in f.read().split('\0') if '=' in x)
    if k and where != 'nowhere':
        chosen(ctx, e.get('CUDA_VISIBLE_DEVICES', ''), None if k <= len(free) and n else False, k, n, free, 'torch.sh')
    else:
        ctx.same(e.get('CUDA_VISIBLE_DEVICES'), '7' if given else None, 'devices that are not chosen are left alone')
    ctx.same(e.get('CONDA_DEFAULT_ENV'), name, 'environment of the program')
    ctx.same(e.get('OF_THE_EXPERIMENT'), 'a b' if extra else None, 'path.sh is read')
    did = open(s.path('conda.txt')).read().split('\n')[:-1] if os.path.exists(s.path('conda.txt')) else []
    ctx.same(did[:1], ['activate %s' % name] if name else [], 'activation')
    if name and code == 0:
        ctx.same(did[1:], ['deactivate'], 'deactivation at the end')
    ctx.event('wrapped programs')
    ctx.sig('wrap', where, k, conda, bool(name), code, given, k is not None and k > len(free))


@case(quick=100, mult=8)
def devices(ctx):
    """open_device and reserve_gpu make visible the GPUs given, or those that free-gpu finds"""
    import importlib
    import shutil
    import torch
    from hyperion.torch.utils import open_device
    repo = os.environ.get('VT_REPO', '/repo')
    d = ctx.path('bin')
    os.mkdir(d)
    n, free = machine(ctx, d)
    there = ctx.flip(.8)
    if there:
        shutil.copy(os.path.join(repo, 'hyp_utils', 'free-gpu'), os.path.join(d, 'free-gpu'))
        os.chmod(os.path.join(d, 'free-gpu'), 0o755)
    old = dict(os.environ)
    cuda = torch.cuda.is_available
    have = ctx.flip()
    try:
        os.environ['PATH'] = d + ':/usr/bin:/bin'
        os.environ.pop('CUDA_VISIBLE_DEVICES', None)
        torch.cuda.is_available = lambda: have
        what = ctx.pick(['given', 'number', 'number', 'keras'])
        if what == 'given':
            ids = [int(i) for i in ctx.rng.permutation(12)[:ctx.int(1, 4)]]
            text = ','.join(map(str, ids))
            dev = open_device(len(ids), ctx.pick([ids, text])) if ctx.flip() else open_device(gpu_ids=ctx.pick([ids, text]))
            ctx.same(os.environ.get('CUDA_VISIBLE_DEVICES'), text, 'devices that are given')
        elif what == 'number':
            k = ctx.pick([1, 1, 2, 3, max(1, len(free))])
            dev = open_device() if k == 1 and ctx.flip() else open_device(num_gpus=k) if ctx.flip() else open_device(k)
            got = os.environ.get('CUDA_VISIBLE_DEVICES')
            if there:
                chosen(ctx, got, None if k <= len(free) and n else False, k, n, free, 'open_device')
            else:
                ctx.same(got, '0', 'the first device without free-gpu')
        else:
            if not there:
                return ctx.check(True, 'free-gpu is needed')
            be = importlib.import_module('hyperion.keras.backend_addons.tensorflow_backend')
            get = getattr(be.K, 'get_session', None)
            session = object()
            be.K.get_session = lambda: session
            try:
                r = be.reserve_gpu()
            finally:
                if get is None:
                    del be.K.get_session
                else:
                    be.K.get_session = get
            ctx.check(r is session, 'session that is returned')
            chosen(ctx, os.environ.get('CUDA_VISIBLE_DEVICES'), None if free else False, 1, n, free, 'reserve_gpu')
        if what != 'keras':
            ctx.same(str(dev).split(':')[0], 'cuda' if have else 'cpu', 'kind of device')
        ctx.same(os.environ.get('CUDA_DEVICE_ORDER'), 'PCI_BUS_ID', 'devices are counted as nvidia-smi does')
    finally:
        torch.cuda.is_available = cuda
        os.environ.clear()
        os.environ.update(old)
    ctx.sig('device', what, there, have, n, len(free))
