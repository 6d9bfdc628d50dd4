"""python run.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [--only CASE[:IDX]]"""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
OUT = os.environ.get('VT_OUT', VERIF)
sys.path.insert(0, VERIF)

from vt.core import Ctx, NoProgress, REGISTRY, Violation, unit_seed  # noqa

KNOWN_FILE = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


def load_known(pid):
    """{label: description} of the listed findings of one property"""
    d = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            f = line.strip().split(None, 3)
            if len(f) == 4 and f[0] == 'known:' and f[1] == 'property=' + pid and f[2].startswith('label='):
                d[f[2][len('label='):]] = f[3]
    return d


def units_of(cases, tier, only):
    lists = []
    for name, fn, q, m in cases:
        if only and name != only.split(':')[0]:
            continue
        n = q * 3 if tier == 'quick' else q * m * 5
        idx = range(n)
        if only and ':' in only:
            idx = [int(only.split(':')[1])]
        lists.append([(name, fn, i) for i in idx])
    # spread every kind evenly over the run, so a stop on the budget cuts all alike
    tagged = []
    for l in lists:
        for j, u in enumerate(l):
            tagged.append(((j + 0.5) / len(l), u))
    tagged.sort(key=lambda t: t[0])
    return [u for _, u in tagged]


def run_worker(a):
    out = open(a.out, 'w')
    devnull = os.open(os.devnull, os.O_RDWR)
    if not os.environ.get('VT_SHOW'):
        os.dup2(devnull, 1)
        if not os.environ.get('VT_STDERR'):
            os.dup2(devnull, 2)
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    known = load_known(a.pid)
    res = dict(evals={}, counters={}, sigs=[], known={}, violations=[], samples={}, stopped=False, done=False)

    def put():
        out.seek(0)
        out.truncate()
        json.dump(res, out)
        out.flush()

    cur = open(a.out + '.cur', 'w')

    def mark(s):
        cur.seek(0)
        cur.truncate()
        cur.write(s)
        cur.flush()

    mark('import')
    put()
    try:
        mod = importlib.import_module('vt.checks.' + a.pid.lower())
    except Exception:
        res['violations'].append(dict(case='import', idx=0, seed=a.seed, label='import',
                                      msg=traceback.format_exc()[-3000:]))
        res['done'] = True
        put()
        return
    units = units_of(REGISTRY['vt.checks.' + a.pid.lower()], a.tier, a.only)[a.w::a.nw]

    def on_cpu(sig, frm):
        raise NoProgress()
    signal.signal(signal.SIGPROF, on_cpu)
    t0 = time.time()
    sigs = set()
    lastput = 0
    for name, fn, idx in units:
        if time.time() - t0 > a.budget:
            res['stopped'] = True
            break
        s = unit_seed(a.seed, a.pid, name, idx)
        mark(json.dumps([name, idx]))
        ctx = Ctx(s, a.tier, known, a.scratch)
        np.random.seed(s & 0x7fffffff)
        v = None
        signal.setitimer(signal.ITIMER_PROF, getattr(mod, 'CPU_LIMIT', 100.0))
        try:
            fn(ctx)
        except Violation as e:
            v = (e.label, e.msg + '\n' + traceback.format_exc()[-1500:])
        except NoProgress:
            v = ('no-progress', 'the case used more than its CPU budget\n' + traceback.format_exc()[-2500:])
        except MemoryError:
            v = ('memory', 'MemoryError\n' + traceback.format_exc()[-2500:])
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            v = ('crash:%s:%s' % (name, type(e).__name__), traceback.format_exc()[-3000:])
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            try:
                ctx.cleanup()
            except Exception:
                pass
        if v is not None and v[0] in known:
            ctx.known_hits[v[0]] = ctx.known_hits.get(v[0], 0) + 1
            v = None
        e = res['evals'].setdefault(name, [0, 0])
        e[0] += 1
        e[1] += ctx.events
        for k, n in ctx.counters.items():
            res['counters'][k] = res['counters'].get(k, 0) + n
        for k, n in ctx.known_hits.items():
            res['known'][k] = res['known'].get(k, 0) + n
        sigs |= {name + ':' + x for x in ctx.sigs}
        if ctx._sample is not None and len(res['samples'].get(name, [])) < 1:
            res['samples'].setdefault(name, []).append(ctx._sample)
        if v is not None:
            res['violations'].append(dict(case=name, idx=idx, seed=a.seed, label=v[0], msg=v[1]))
        if time.time() - lastput > 1 or v is not None:
            res['sigs'] = list(sigs)
            put()
            lastput = time.time()
        if len(res['violations']) >= 3:
            res['stopped'] = True
            break
    res['sigs'] = list(sigs)
    res['done'] = True
    put()
    mark('end')


def main():
    p = argparse.ArgumentParser()
    p.add_argument('pid')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    p.add_argument('--only')
    p.add_argument('--replay')
    p.add_argument('--nw', type=int)
    p.add_argument('--w', type=int, default=-1)
    p.add_argument('--out')
    p.add_argument('--budget', type=float)
    p.add_argument('--scratch')
    a = p.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    a.seed &= 0x7fffffff
    if a.w >= 0:
        return run_worker(a)
    replaying = False
    if a.replay:
        r = json.load(open(a.replay))
        a.pid, a.seed, a.only, a.tier = r['property'], r['seed'], '%s:%d' % (r['case'], r['idx']), r.get('tier', 'quick')
        a.nw = 1
        replaying = True
    nw = a.nw or min(8, max(4, os.cpu_count() or 4))
    budget = a.budget or (330.0 if a.tier == 'quick' else 720.0)
    hard = 600.0 if a.tier == 'quick' else 860.0
    scratch = tempfile.mkdtemp(prefix='vt_%s_' % a.pid)
    t0 = time.time()
    try:
        code = parent(a, nw, budget, hard, scratch, t0, replaying)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def parent(a, nw, budget, hard, scratch, t0, replaying):
    env = dict(os.environ)
    repo = env.get('VT_REPO', '/repo')
    env.update(PYTHONPATH=repo + os.pathsep + VERIF, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
               OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
               HDF5_USE_FILE_LOCKING='FALSE', VT_REPO=repo, TMPDIR=scratch)
    mpl = os.path.join(VERIF, '.cache', 'mpl')
    if not os.path.isdir(mpl):
        mpl = os.path.join(scratch, 'mpl')
        os.makedirs(mpl, exist_ok=True)
    env['MPLCONFIGDIR'] = mpl
    procs = []
    for w in range(nw):
        out = os.path.join(scratch, 'w%d.json' % w)
        cmd = [sys.executable, '-B', os.path.abspath(__file__), a.pid, '--tier', a.tier, '--seed', str(a.seed),
               '--nw', str(nw), '--w', str(w), '--out', out, '--budget', str(budget), '--scratch', scratch]
        if a.only:
            cmd += ['--only', a.only]
        procs.append((subprocess.Popen(cmd, env=env, cwd=scratch, start_new_session=True, stdin=subprocess.DEVNULL), out))
    inconclusive = []
    dead = []
    for pr, out in procs:
        left = hard - (time.time() - t0)
        try:
            rc = pr.wait(timeout=max(left, 1))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(pr.pid, signal.SIGKILL)
            except OSError:
                pass
            pr.wait()
            inconclusive.append('worker still running after %ds' % hard)
            continue
        try:
            os.killpg(pr.pid, signal.SIGKILL)   # nothing a case started may outlive it
        except OSError:
            pass
        if rc != 0:
            dead.append((rc, out))
    evals, counters, sigs, known_hits, viol, samples = {}, {}, set(), {}, [], {}
    stopped = False
    for pr, out in procs:
        try:
            r = json.load(open(out))
        except Exception:
            inconclusive.append('no result from a worker')
            continue
        for k, (n, ev) in r['evals'].items():
            e = evals.setdefault(k, [0, 0])
            e[0] += n
            e[1] += ev
        for k, n in r['counters'].items():
            counters[k] = counters.get(k, 0) + n
        for k, n in r['known'].items():
            known_hits[k] = known_hits.get(k, 0) + n
        sigs |= set(r['sigs'])
        viol += r['violations']
        stopped |= r['stopped']
        for k, v in r['samples'].items():
            samples.setdefault(k, v)
    for rc, out in dead:
        try:
            cur = open(out + '.cur').read()
        except Exception:
            cur = '?'
        if rc == -signal.SIGKILL:
            inconclusive.append('worker was killed (memory?) during %s' % cur)
        else:
            try:
                c, i = json.loads(cur)
            except Exception:
                c, i = 'process', 0
            viol.append(dict(case=c, idx=i, seed=a.seed, label='process-died',
                             msg='the process running the case died with status %s' % rc))
    wall = time.time() - t0
    known = load_known(a.pid)
    if not replaying and not a.only:
        os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
        meta = {}
        ev = dict(property=a.pid, tier=a.tier, seed=a.seed, level='exploration',
                  coverage=dict(
                      evaluations=sum(n for n, _ in evals.values()),
                      distinct_nontrivial=len(sigs),
                      rule='A case draws a workload from its seed, runs the real code on it and lets the oracle observe every '
                           'result; it is counted distinct and non-trivial by the signature it records of the configuration and '
                           'state it actually reached (formats, sizes, options, branch taken), one signature counted once.',
                      samples=[dict(case=k, **v[0]) for k, v in sorted(samples.items())][:12],
                      oracle_observations=sum(e for _, e in evals.values()),
                      executions_by_case={k: n for k, (n, _) in sorted(evals.items())},
                      events=dict(sorted(counters.items())),
                      known_finding_hits=known_hits,
                      cut_by_time_budget=stopped),
                  assumptions=['numpy/scipy/h5py/soundfile/scikit-learn as installed are trusted',
                               'the oracle\'s reference computations are independent of the code they judge'],
                  wall_s=round(wall, 2), violations=len(viol))
        tmp = os.path.join(OUT, 'evidence', a.pid + '.json.tmp')
        json.dump(ev, open(tmp, 'w'), indent=1)
        os.replace(tmp, os.path.join(OUT, 'evidence', a.pid + '.json'))
    for lab in sorted(known):
        if not replaying:
            print('KNOWN-FINDING: property=%s %s [%s; seen %d times in this run]' % (
                a.pid, known[lab], lab, known_hits.get(lab, 0)))
    if viol:
        os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
        seen = set()
        for v in viol:
            if v['label'] in seen:
                continue
            seen.add(v['label'])
            path = os.path.join(OUT, 'replays', '%s-%s-%d-%d.json' % (a.pid, v['case'], v['seed'], v['idx']))
            json.dump(dict(property=a.pid, tier=a.tier, **v), open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (a.pid, path))
            print('  case %s #%d: %s' % (v['case'], v['idx'], v['label']))
            for l in v['msg'].strip().split('\n')[:40]:
                print('    ' + l)
        return 1
    if replaying:
        print('replayed: no violation')
        return 2 if inconclusive else 0
    mod_cases = set(evals)
    if inconclusive:
        print('INCONCLUSIVE property=%s %s' % (a.pid, '; '.join(inconclusive)))
        return 2
    zero = [k for k, (n, ev) in evals.items() if ev == 0]
    if not evals or zero or not sigs:
        print('INCONCLUSIVE property=%s nothing observed: %s' % (a.pid, zero))
        return 2
    print('held property=%s tier=%s seed=%d: %d executions, %d oracle observations, %d distinct, %.1fs%s' % (
        a.pid, a.tier, a.seed, sum(n for n, _ in evals.values()), sum(e for _, e in evals.values()), len(sigs), wall,
        ' (cut by time budget)' if stopped else ''))
    return 0


if __name__ == '__main__':
    main()
