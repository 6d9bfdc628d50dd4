"""Makes and validates planted bugs: python3 tools/mkseed.py SPEC.py [ID...]
SPEC.py calls seed(id, prop, needs, breaks, edits, demo). A bug is validated in a scratch copy of /repo: patch applies to HEAD,
changes original lines, tests still pass, demo passes without and fails with it; then the check of its property is run on it."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/vseeds'
PY = '/opt/venv/bin/python'
SEEDS = []
BASE = 'b7be6b6'


def seed(id, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, prop=prop, needs=' '.join(needs.split()), breaks=' '.join(breaks.split()), edits=edits, demo=demo))


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout, universal_newlines=True)


def copy(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh('git -C %s archive HEAD | tar x -C %s' % (os.environ.get('SEED_REPO', '/repo'), d))
    sh('git init -q . && git add -A -f . && git -c user.email=a@b -c user.name=n commit -qm x', cwd=d)


TESTENV = dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')


def tests(d):
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    sh('rm -rf %s/tests/data_out; mkdir -p %s/tests/data_out/ark %s/tests/data_out/h5' % (d, d, d))
    r = sh('%s -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -W ignore --tb=no -o junit_family=xunit2 '
           '--junitxml=%s.xml ./tests' % (PY, d), cwd=d, env=dict(TESTENV, PYTHONPATH=d))
    import xml.etree.ElementTree as ET
    ok = set()
    for t in ET.parse(d + '.xml').getroot().iter('testcase'):
        if not any(c.tag in ('failure', 'error', 'skipped') for c in t):
            ok.add(t.get('classname') + '::' + t.get('name'))
    return sorted(stable - ok)


def one(s, check=True):
    d = os.path.join(W, s['id'])
    out = os.path.join(ROOT, 'seeded', s['id'])
    msg = []
    try:
        copy(d)
        for f, a, b in s['edits']:
            p = os.path.join(d, f)
            t = open(p, newline='').read()
            if t.count(a) != 1:
                return s['id'], 'BAD edit %s: %d matches of %r' % (f, t.count(a), a[:60])
            open(p, 'w', newline='').write(t.replace(a, b))
        diff = sh('git diff', cwd=d).stdout
        # original lines
        orig = 0
        for f in {e[0] for e in s['edits']}:
            bl = sh(['git', 'blame', '-s', '--line-porcelain', 'HEAD', '--', f], cwd=os.environ.get('SEED_REPO', '/repo')).stdout.split('\n')
            base = sh(['git', 'rev-parse', BASE], cwd=os.environ.get('SEED_REPO', '/repo')).stdout.strip()
            heads = [x.split()[0] for x in bl if len(x.split()) >= 3 and len(x.split()[0]) == 40 and all(c in '0123456789abcdef' for c in x.split()[0])]
            n = 0
            cur = 0
            for ln in sh(['git', 'diff', '-U0', '--', f], cwd=d).stdout.split('\n'):
                if ln.startswith('@@'):
                    a = ln.split()[1][1:]
                    st, c = (a.split(',') + ['1'])[:2]
                    for k in range(int(c)):
                        n += 1
                        orig += heads[int(st) - 1 + k] == base
        if not orig:
            return s['id'], 'BAD: changes no original line'
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(s['demo'].strip() + '\n')
        open(out + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\n'
                                          'H="$(cd "$(dirname "$0")" && pwd)"\nS="$(mktemp -d)"\ntrap \'rm -rf "$S"\' EXIT\n'
                                          'SCRATCH="$S" timeout 200 /opt/venv/bin/python -W ignore "$H/demo.py"\n')
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(out + '/meta.json', 'w'), indent=1)
        r = sh(['bash', out + '/demo.sh'], cwd=d)
        if r.returncode == 0:
            return s['id'], 'BAD demo passes with the patch: ' + r.stdout[-400:]
        msg.append('demo[bug]: ' + r.stdout.strip().split('\n')[-1][:110])
        sh('git stash -q', cwd=d)
        r = sh(['bash', out + '/demo.sh'], cwd=d)
        if r.returncode:
            return s['id'], 'BAD demo fails without the patch: ' + r.stdout[-600:]
        sh('git stash pop', cwd=d)
        bad = tests(d)
        if bad:
            bad = tests(d)   # flaky tests
        if bad:
            return s['id'], 'BAD tests fail: %s' % bad[:5]
        if check:
            r = sh(['bash', ROOT + '/check.sh', s['prop'], '--tier', 'quick'], cwd=ROOT, env=dict(VT_REPO=d, VERIF_SEED='1', VT_OUT='/tmp/vseeds/out/' + s['id']))
            v = [x for x in r.stdout.split('\n') if x.startswith('VIOLATION property=' + s['prop'])]
            msg.append(('CAUGHT ' if v and r.returncode == 1 else 'MISSED rc=%d ' % r.returncode) + ' '.join(r.stdout.strip().split('\n')[-3:])[:200])
        return s['id'], 'ok ' + ' | '.join(msg)
    except Exception as e:
        return s['id'], 'BAD ' + repr(e)
    finally:
        if 'KEEP' not in os.environ:
            shutil.rmtree(d, ignore_errors=True)
            if os.path.exists(d + '.xml'):
                os.remove(d + '.xml')


if __name__ == '__main__':
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'))
    want = sys.argv[2:]
    todo = [s for s in SEEDS if not want or s['id'] in want]
    with ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(one, todo):
            if m.startswith('BAD'):
                shutil.rmtree(os.path.join(ROOT, 'seeded', i), ignore_errors=True)
            print(i, m, flush=True)
