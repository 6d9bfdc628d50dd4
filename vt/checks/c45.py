"""C45 scripts on data directories select the same utterances in all the files"""
import os
import shutil
import stat
import subprocess

from ..core import case

KALDI = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'standin', 'kaldi')
NOBODY = 65534
PER_UTT = ['feats.scp', 'vad.scp', 'text', 'utt2lang', 'utt2dur', 'utt2num_frames']
NEED = ['feats.scp', 'text', 'utt2lang']        # utterances must be in these if the directory has them
PER_SPK = ['cmvn.scp', 'spk2gender']
PER_REC = ['reco2file_and_channel', 'reco2dur']


class Shell(object):
    """a directory with the scripts and stand-ins for Kaldi's own ones, where an unprivileged user works"""

    def __init__(self, ctx):
        self.ctx = ctx
        repo = os.environ.get('VT_REPO', '/repo')
        self.dir = ctx.path('work')
        shutil.copytree(KALDI, self.dir)
        shutil.copytree(os.path.join(repo, 'hyp_utils'), os.path.join(self.dir, 'hyp_utils'))
        shutil.copy(os.path.join(self.dir, 'hyp_utils', 'fix_data_dir.sh'), os.path.join(self.dir, 'utils', 'fix_data_dir.sh'))
        os.mkdir(os.path.join(self.dir, 'data'))
        os.mkdir(os.path.join(self.dir, 'tmp'))
        p = self.dir
        self.drop = os.getuid() == 0
        while len(p) > 5 and p != '/tmp':       # the way here
            p = os.path.dirname(p)
            if os.stat(p).st_uid == os.getuid() and p.startswith('/tmp/'):
                os.chmod(p, stat.S_IMODE(os.stat(p).st_mode) | 0o711)
        self.own()

    def own(self):
        if self.drop:
            for d, _, fs in os.walk(self.dir):
                for x in [d] + [os.path.join(d, f) for f in fs]:
                    os.chown(x, NOBODY, NOBODY)
                    os.chmod(x, 0o755)

    def path(self, *x):
        return os.path.join(self.dir, *x)

    def run(self, *args, ok=True, env=None, stdin=None):
        def lower():
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        e = dict(PATH='/usr/local/bin:/usr/bin:/bin', HOME=self.dir, TMPDIR=self.path('tmp'), PYTHONDONTWRITEBYTECODE='1',
                 MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
        e.update(env or {})
        kw = dict(cwd=self.dir, env=e, capture_output=True, text=True, timeout=300, input=stdin)
        try:
            q = subprocess.run(list(args), preexec_fn=lower if self.drop else None, **kw)
        except (subprocess.SubprocessError, PermissionError) as x:
            if isinstance(x, subprocess.TimeoutExpired) or not self.drop:
                raise
            self.drop = False       # no other user here
            q = subprocess.run(list(args), **kw)
        self.ctx.event('scripts run')
        if ok is not None:
            self.ctx.check((q.returncode == 0) == ok, '%s %s' % (os.path.basename(args[0 if args[0] != 'bash' else 1]), 'failed' if ok else 'did not fail'),
                           ' '.join(args), q.stdout[-300:], q.stderr[-600:])
        return q


# ---------------------------------------------------------------- model: {file: {key: rest of the line}}
def gen(ctx, tag='', prefix=True, files=None, holes=True, segs=None, most=5, each=None):
    spks = ['%s%s%d' % (tag, ctx.pick(['spk', 'S', 'id']), i) for i in ctx.rng.permutation(30)[:ctx.int(1, most)]]
    d = {'utt2spk': {}}
    for s in spks:
        for j in range(each or ctx.int(1, most)):
            u = '%s-%s%d' % (s, ctx.pick(['u', 'x.', 'U_']), j)
            if not prefix:
                u = '%s%d-%s' % (tag, ctx.int(0, 99), u)
            d['utt2spk'][u] = s
    utts = list(d['utt2spk'])

    def some(keys):
        if not holes or ctx.flip(.6):
            return list(keys)
        return [k for k in keys if ctx.flip(.8)] or list(keys)
    have = lambda f: (f in files) if files is not None else ctx.flip()
    for f in PER_UTT:
        if have(f):
            d[f] = {u: value(ctx, f, u) for u in some(utts)}
    segs = ctx.flip(.3) if segs is None else segs
    if segs:
        recs = ['%srec%d' % (tag, i) for i in range(ctx.int(1, 4))]
        d['segments'] = {u: '%s %d %d' % (ctx.pick(recs), i, i + ctx.int(1, 9)) for i, u in enumerate(some(utts))}
        d['wav.scp'] = {r: '/wav/%s.wav' % r for r in some(recs)}
    else:
        recs = utts
        if have('wav.scp'):
            d['wav.scp'] = {r: ctx.pick(['/wav/%s.wav', 'sph2pipe -f wav /a/%s.sph |']) % r for r in some(recs)}
    for f in PER_REC:
        if have(f):
            d[f] = {r: ('%s A' % r if 'file' in f else str(ctx.int(1, 99))) for r in some(recs)}
    for f in PER_SPK:
        if have(f):
            d[f] = {s: ('/c/cmvn.ark:%d' % ctx.int(1, 999) if 'cmvn' in f else ctx.pick('mf')) for s in some(spks)}
    if have('utt2uniq'):
        d['utt2uniq'] = {u: u.split('-')[0] for u in utts}
    return {f: v for f, v in d.items() if v}


def value(ctx, f, u):
    return {'text': ctx.pick(['hello', 'a b c', 'x  y']), 'utt2lang': ctx.pick(['eng', 'spa']), 'utt2dur': str(ctx.int(1, 99)),
            'utt2num_frames': str(ctx.int(1, 12) * 100)}.get(f, '/a/%s.ark:%d' % (f, ctx.int(1, 9999)))


def spk2utt(u2s):
    out = {}
    for u in sorted(u2s):
        out.setdefault(u2s[u], []).append(u)
    return {s: ' '.join(v) for s, v in out.items()}


def write(ctx, sh, name, d, mess=False):
    os.mkdir(sh.path('data', name))
    for f, v in list(d.items()) + ([('spk2utt', spk2utt(d['utt2spk']))] if 'spk2utt' not in d else []):
        lines = ['%s %s\n' % (k, v[k]) for k in sorted(v)]
        if mess and ctx.flip(.4):
            ctx.rng.shuffle(lines)
        if mess and ctx.flip(.15):
            lines.append(lines[0])
        with open(sh.path('data', name, f), 'w') as o:
            o.writelines(lines)
    sh.own()


def read(ctx, sh, name, order=True):
    out = {}
    for f in os.listdir(sh.path('data', name)):
        if f == '.backup' or f.endswith('.bak'):
            continue
        lines = open(sh.path('data', name, f)).read().splitlines()
        keys = [l.split(None, 1)[0] for l in lines]
        if order:
            ctx.same(keys, sorted(set(keys)), 'lines of %s in order, once' % f)
        out[f] = {k: l.split(None, 1)[1].strip() if len(l.split(None, 1)) > 1 else '' for k, l in zip(keys, lines)}
        ctx.same(len(keys), len(out[f]), 'lines of %s once' % f)
    return out


def keep(v, keys):
    return {k: x for k, x in v.items() if k in keys}


def fixed(d, utt_extra=(), spk_extra=()):
    """what is left when all the files agree, None if nothing"""
    d = {f: dict(v) for f, v in d.items() if f != 'spk2utt'}
    seg = 'segments' in d
    if seg:
        d['segments'] = {u: x for u, x in d['segments'].items() if x.split()[0] in d['wav.scp']}
    S = set(d['utt2spk'].values())
    for f in PER_SPK:
        if f in d:
            S &= set(d[f])
    U = {u for u, s in d['utt2spk'].items() if s in S}
    for f in NEED + ['segments'] + ([] if seg else ['wav.scp']):
        if f in d:
            U &= set(d[f])
    if not U:
        return None
    S = {d['utt2spk'][u] for u in U}
    R = {d['segments'][u].split()[0] for u in U} if seg else None
    for f in d:
        if f in ['utt2spk', 'utt2uniq', 'segments'] + PER_UTT + list(utt_extra):
            d[f] = keep(d[f], U)
        elif f in PER_SPK + list(spk_extra):
            d[f] = keep(d[f], S)
        elif f == 'wav.scp' or f == 'reco2dur':
            d[f] = keep(d[f], R if seg else U)
        elif f == 'reco2file_and_channel' and seg:
            d[f] = keep(d[f], R)
    d['spk2utt'] = spk2utt(d['utt2spk'])
    return d


def agree(ctx, got, want, what):
    ctx.same(sorted(got), sorted(want), 'files ' + what)
    for f in sorted(want):
        ctx.same(sorted(got[f].items()), sorted((k, ' '.join(v.split()) if f == 'spk2utt' else v) for k, v in want[f].items()), '%s %s' % (f, what))
    ctx.event('files compared', len(want))


# ---------------------------------------------------------------- workloads
@case(quick=60, mult=8)
def fix(ctx):
    """the files of a directory are left with the utterances, speakers and recordings that all of them have"""
    sh = Shell(ctx)
    d = gen(ctx, prefix=ctx.flip())
    ue, se = ctx.flip(.4), ctx.flip(.4)
    if ue:
        d['utt2age'] = {u: str(ctx.int(20, 80)) for u in d['utt2spk'] if ctx.flip(.9)} or {'x': '1'}
    if se:
        d['spk2age'] = {s: str(ctx.int(20, 80)) for s in set(d['utt2spk'].values()) if ctx.flip(.9)} or {'x': '1'}
    write(ctx, sh, 'd', d, mess=True)
    for f in ('utt2age', 'spk2age'):        # these are not put in order
        if f in d:
            with open(sh.path('data/d', f), 'w') as o:
                o.writelines('%s %s\n' % (k, d[f][k]) for k in sorted(d[f]))
    want = fixed(d, ['utt2age'], ['spk2age'])
    args = ['bash', 'hyp_utils/fix_data_dir.sh'] + (['--utt-extra-files', 'utt2age'] if ue else []) + (['--spk-extra-files', 'spk2age'] if se else [])
    sh.run(*args, 'data/d', ok=want is not None)
    if want is not None:
        agree(ctx, read(ctx, sh, 'd'), want, 'after fixing')
        for f in ('feats.scp', 'text', 'vad.scp', 'cmvn.scp', 'wav.scp'):
            if f in d and os.path.exists(sh.path('data/d/.backup', f)):
                ctx.same(sorted(set(open(sh.path('data/d/.backup', f)).read().splitlines())), sorted('%s %s' % x for x in d[f].items()),
                         'old %s is kept' % f)
        if ctx.flip(.2):
            sh.run(*args, 'data/d')
            agree(ctx, read(ctx, sh, 'd'), want, 'after fixing twice')
    ctx.sig('fix', tuple(sorted(d)), want is None)
    ctx.sample(files=' '.join(sorted(d)), utterances=len(d['utt2spk']), left=0 if want is None else len(want['utt2spk']))


@case(quick=40, mult=8)
def combine(ctx):
    """the combined directory has the lines of all the directories in the files that all of them have"""
    sh = Shell(ctx)
    n = ctx.int(1, 3)
    files = None if ctx.flip(.4) else [f for f in PER_UTT + PER_SPK + PER_REC + ['wav.scp', 'utt2uniq'] if ctx.flip(.7)]
    anyseg = ctx.flip(.3)
    ds = []
    for i in range(n):
        d = gen(ctx, 'abc'[i], files=None if files is None else files + ['utt2dur'], holes=ctx.flip(.3), segs=anyseg and ctx.flip(.6))
        ds.append(d)
    if any('segments' in d for d in ds):
        for d in ds:        # whole recordings are segments
            if 'segments' not in d:
                d['utt2dur'] = {u: str(ctx.int(1, 99)) for u in d['utt2spk']}
                d['wav.scp'] = {u: '/w/%s' % u for u in d['utt2spk']}
    extra = ctx.flip(.4)
    for d in ds:
        if extra and ctx.flip(.8):
            d['utt2age'] = {u: str(ctx.int(20, 80)) for u in d['utt2spk']}
    if n > 1 and not extra and ctx.flip(.2) and not {'segments', 'utt2uniq'} & (set(ds[0]) | set(ds[1])):      # an utterance that two have
        u = ctx.pick(sorted(ds[0]['utt2spk']))
        for f, v in ds[0].items():
            if f in ds[1]:
                for k in (u, ds[0]['utt2spk'][u]):
                    if k in v:
                        ds[1][f][k] = v[k]
    for i, d in enumerate(ds):
        write(ctx, sh, 'abc'[i], d)
    skip = ctx.flip(.4)
    args = ['bash', 'hyp_utils/combine_data.sh'] + (['--extra-files', ctx.pick(['utt2age', 'utt2age utt2uniq'])] if extra else []) + (
        ['--skip-fix', 'true'] if skip else [])
    want = {}
    for f in ['utt2spk', 'utt2lang', 'utt2dur', 'reco2dur', 'feats.scp', 'text', 'cmvn.scp', 'vad.scp', 'reco2file_and_channel', 'wav.scp',
              'spk2gender'] + ['utt2age'] * extra:
        if all(f in d for d in ds):
            want[f] = {k: x for d in ds for k, x in d[f].items()}
    if any('utt2uniq' in d for d in ds):
        want['utt2uniq'] = {k: x for d in ds for k, x in d.get('utt2uniq', {u: u for u in d['utt2spk']}).items()}
    if any('segments' in d for d in ds):
        want['segments'] = {k: x for d in ds for k, x in d.get('segments', {u: '%s 0 %s' % (u, x) for u, x in d.get('utt2dur', {}).items()}).items()}
    if ctx.flip(.3):        # what was there goes away
        write(ctx, sh, 'all', gen(ctx, 'z'))
    if skip:
        want['spk2utt'] = spk2utt(want['utt2spk'])
    else:
        want = fixed(want)
    sh.run(*args, 'data/all', *['data/%s' % 'abc'[i] for i in range(n)], ok=want is not None)
    if want is not None:
        lines = {f: sorted(set(open(sh.path('data/all', f)).read().splitlines())) for f in os.listdir(sh.path('data/all')) if f != '.backup'}
        got = {f: {l.split(None, 1)[0]: l.split(None, 1)[1] for l in v} for f, v in lines.items()}
        if skip:        # a line that two directories have may be there twice
            got['spk2utt'] = {s: ' '.join(sorted(set(x.split()))) for s, x in got['spk2utt'].items()}
        else:
            got = read(ctx, sh, 'all')
        agree(ctx, got, want, 'of the combined directory')
        for i, d in enumerate(ds):
            ctx.same(sorted(os.listdir(sh.path('data', 'abc'[i]))), sorted(list(d) + ['spk2utt']), 'files of the sources')
    ctx.sig('combine', n, skip, tuple(sorted(want or ())))


@case(quick=60, mult=8)
def subset(ctx):
    """the directory of a subset has the chosen utterances and nothing else, in all the files"""
    sh = Shell(ctx)
    mode = ctx.pick(['--first', '--last', '', '--per-spk', '--speakers', '--shortest', '--spk-list', '--utt-list'])
    each = ctx.int(1, 3) if mode == '--speakers' and ctx.flip(.7) else None
    d = gen(ctx, each=each)
    if mode == '--shortest':
        L = [int(x) for x in ctx.rng.permutation(900)[:len(d['utt2spk'])]]
        d['feats.scp'] = {u: '/a/f.ark:%d' % x for u, x in zip(d['utt2spk'], L)}
    extra = ctx.flip(.4)
    if extra:
        d['utt2age'] = {u: str(ctx.int(20, 80)) for u in d['utt2spk']}
    if ctx.flip(.3):
        d['utt2warp'] = {u: '1.%d' % ctx.int(0, 9) for u in d['utt2spk']}
    if ctx.flip(.3):
        d['spk2warp'] = {u: '1.%d' % ctx.int(0, 9) for u in d['utt2spk'].values()}
    write(ctx, sh, 'd', d)
    utts, spks = sorted(d['utt2spk']), sorted(set(d['utt2spk'].values()))
    size = {s: [u for u in utts if d['utt2spk'][u] == s] for s in spks}
    opt = [mode] if mode else []
    opt += ['--extra-files', 'utt2age'] if extra else []
    n = ctx.int(1, len(utts))
    if mode.endswith('list'):
        sel = [x for x in (spks if mode == '--spk-list' else utts) if ctx.flip()] or (spks if mode == '--spk-list' else utts)[:1]
        ctx.rng.shuffle(sel)
        with open(sh.path('data/list'), 'w') as o:
            o.writelines(x + ctx.pick(['\n', ' more words\n']) for x in sel)
        pos = ['data/list', 'data/d', 'data/sub']
    else:
        n = ctx.int(1, 6) if mode == '--per-spk' else each * ctx.int(1, len(spks)) if each and ctx.flip(.7) else n
        pos = ['data/d', str(n), 'data/sub']
        if mode in ('--first', '--last', '', '--shortest') and ctx.flip(.1):
            sh.run('bash', 'hyp_utils/subset_data_dir.sh', *opt, 'data/d', str(len(utts) + 1), 'data/sub', ok=False)
    sh.own()
    sh.run('bash', 'hyp_utils/subset_data_dir.sh', *opt, *pos, env=dict(SHUFFLE_SEED=str(ctx.int(1, 999))))
    got = read(ctx, sh, 'sub', order=False)
    U = set(got['utt2spk'])
    what = 'of the subset ' + mode
    ctx.check(U <= set(utts) and len(U) > 0, 'utterances ' + what)
    if mode == '--first':
        ctx.same(sorted(U), utts[:n], 'utterances ' + what)
    elif mode == '--last':
        ctx.same(sorted(U), utts[-n:], 'utterances ' + what)
    elif mode == '':
        ctx.same(len(U), n, 'number of utterances ' + what)
    elif mode == '--shortest':
        ctx.same(sorted(U), sorted(sorted(utts, key=lambda u: int(d['feats.scp'][u].split(':')[1]))[:n]), 'utterances ' + what)
    elif mode == '--utt-list':
        ctx.same(sorted(U), sorted(sel), 'utterances ' + what)
    elif mode == '--spk-list':
        ctx.same(sorted(U), sorted(u for s in sel for u in size[s]), 'utterances ' + what)
    elif mode == '--per-spk':
        ctx.same({s: len(U & set(size[s])) for s in spks}, {s: min(n, len(size[s])) for s in spks}, 'utterances of each speaker ' + what, n)
    else:
        S = {s for s in spks if U & set(size[s])}
        ctx.same(sorted(U), sorted(u for s in S for u in size[s]), 'whole speakers ' + what)
        ctx.check(len(U) >= n > len(U) - max(len(size[s]) for s in S), 'number of utterances ' + what, n, len(U))
    S = {d['utt2spk'][u] for u in U}
    want = {}
    for f, v in d.items():
        if f in ('utt2spk', 'utt2uniq', 'segments', 'utt2age', 'utt2warp') or f in PER_UTT:
            want[f] = keep(v, U)
        elif f in PER_SPK or f == 'spk2warp':
            want[f] = keep(v, S)
    R = {d['segments'][u].split()[0] for u in U if u in d['segments']} if 'segments' in d else U
    for f in ('wav.scp', 'reco2file_and_channel'):
        if f in d and (f == 'wav.scp' or 'wav.scp' in d):
            want[f] = keep(d[f], R & set(d['wav.scp']) if 'segments' not in d else R)
    got.pop('reco2dur', None)
    if 'wav.scp' not in d:
        got.pop('reco2file_and_channel', None)
    want['spk2utt'] = spk2utt(want['utt2spk'])
    got['spk2utt'] = {s: ' '.join(sorted(x.split())) for s, x in got['spk2utt'].items()}
    agree(ctx, got, want, what)
    ctx.same({f: sorted(open(sh.path('data/d', f)).read().splitlines()) for f in d}, {f: sorted('%s %s' % x for x in v.items()) for f, v in d.items()},
             'the source changed')
    ctx.sig('subset', mode, n, extra, 'segments' in d)
    ctx.sample(mode=mode, n=n, utterances=len(utts))


@case(quick=50, mult=8)
def remove(ctx):
    """short utterances, speakers with few utterances and utterances without speech mask are taken out of all the files"""
    sh = Shell(ctx)
    kind = ctx.pick(['short', 'few', 'vad'])
    d = gen(ctx, holes=ctx.flip(.3), segs=False if kind == 'vad' else None)
    utts = sorted(d['utt2spk'])
    if kind == 'short':
        d['utt2num_frames'] = {u: str(ctx.int(1, 9) * 100 + ctx.pick([-1, 1])) for u in utts}
        n = ctx.int(1, 9) * 100
        args = ['hyp_utils/remove_short_utts.sh'] + (['--min-len', str(n)] if ctx.flip(.8) else [])
        n = n if len(args) > 1 else 400
        left = {u for u in utts if int(d['utt2num_frames'][u]) > n}
    elif kind == 'few':
        d['utt2num_frames'] = {u: str(ctx.int(1, 900)) for u in utts}
        n = ctx.int(1, 5)
        args = ['hyp_utils/remove_spk_few_utts.sh', '--min-num-utts', str(n)]
        if ctx.flip(.15):
            n, args = 8, args[:1]
            s = d['utt2spk'][utts[0]]
            for i in range(8 - sum(x == s for x in d['utt2spk'].values()) - ctx.int(0, 1)):
                for f in list(d):
                    if utts[0] in d[f] and f != 'segments':
                        d[f]['%s-w%d' % (s, i)] = d[f][utts[0]]
                    elif utts[0] in d[f]:
                        d[f]['%s-w%d' % (s, i)] = d[f][utts[0]]
        utts = sorted(d['utt2spk'])
        num = [list(d['utt2spk'].values()).count(d['utt2spk'][u]) for u in utts]
        left = {u for u, c in zip(utts, num) if c >= n}
    else:
        d['wav.scp'] = {u: '/w/%s.wav' % u for u in utts}
        for f in NEED + PER_SPK:
            if f in d:      # complete, so that the masks decide
                for u in (utts if f in NEED else set(d['utt2spk'].values())):
                    d[f].setdefault(u, 'x')
        left = {u for u in utts if ctx.flip(.7)} or {utts[0]}
        d['vad.scp'] = {u: '/v/vad.ark:%d' % i for i, u in enumerate(sorted(left))}
        args = ['hyp_utils/remove_utts_wo_vad.sh']
    write(ctx, sh, 'd', d)
    e = {f: dict(v) for f, v in d.items()}
    if kind == 'vad':
        e['wav.scp'] = keep(e['wav.scp'], left)
    else:
        e['utt2spk'] = keep(e['utt2spk'], left)
        e['utt2num_frames'] = keep(e['utt2num_frames'], left)
    want = fixed(e) if left else None
    if kind == 'vad' and len(left) == len(utts):
        want = dict(d, spk2utt=spk2utt(d['utt2spk']))
    sh.run('bash', *args, 'data/d', ok=None if want is None else True)
    if want is not None:
        got = read(ctx, sh, 'd')
        got.pop('spk2num', None)
        agree(ctx, got, want, 'after removing: ' + kind)
    ctx.sig('remove', kind, len(left) == len(utts), want is None, 'segments' in d)


@case(quick=40, mult=8)
def trials(ctx):
    """trials of the listed models and utterances"""
    sh = Shell(ctx)
    M, U = ['m%d' % i for i in range(ctx.int(1, 6))], ['u%d' % i for i in range(ctx.int(1, 6))]
    T = ['%s %s%s' % (m, u, ctx.pick(['', ' target', ' nontarget'])) for m in M for u in U if ctx.flip(.8)]
    ctx.rng.shuffle(T)
    m = [x for x in M if ctx.flip(.6)] or M[:1]
    u = [x for x in U if ctx.flip(.6)] or U[:1]
    args = []
    for name, l in (('fmodels', m), ('futts', u)):
        with open(sh.path('data', name), 'w') as f:
            f.writelines(x + ctx.pick(['\n', ' and more\n']) for x in l)
        if ctx.flip(.7):
            args += ['-v', '%s=data/%s' % (name, name)]
        elif name == 'fmodels':
            m = M
        else:
            u = U
    with open(sh.path('data', 'trials'), 'w') as f:
        f.writelines(x + '\n' for x in T)
    sh.own()
    q = sh.run('awk', '-f', 'hyp_utils/filter_trials.awk', *args, 'data/trials')
    ctx.same(q.stdout.splitlines(), [t for t in T if t.split()[0] in m and t.split()[1] in u], 'trials left')
    ctx.sig('trials', len(args), len(T))


@case(quick=5, mult=8)
def masks(ctx):
    """speech masks of a directory from segments or from a diarization file, by parallel jobs"""
    import sys
    import numpy as np
    from hyperion.io import RandomAccessDataReaderFactory as RF
    repo = os.environ.get('VT_REPO', '/repo')
    sh = Shell(ctx)
    shutil.copytree(os.path.join(repo, 'hyperion'), sh.path('hyperion'), ignore=shutil.ignore_patterns('__pycache__'))
    os.mkdir(sh.path('tools'))
    kind = ctx.pick(['segments', 'rttm'])
    for t in ('segments-to-bin-vad', 'rttm-to-bin-vad'):
        with open(sh.path('tools', t + '.py'), 'w') as f:
            f.write('#!/bin/bash\nPYTHONPATH=%s exec %s %s "$@"\n' % (sh.dir, sys.executable, sh.path('hyperion/bin', t + '.py')))
    files = ['f-%d' % i for i in range(ctx.int(2, 6))]
    shift = ctx.pick([None, 20])
    ms = shift or 10
    d = {'utt2spk': {f: f for f in files}, 'utt2num_frames': {}}
    want, lines = {}, []
    for f in files:
        n = ctx.int(20, 60)
        v = np.zeros(n, int)
        d['utt2num_frames'][f] = str(n)
        t = 0
        for j in range(ctx.int(1, 3)):
            b = t + ctx.int(0, 5)
            e = b + ctx.int(1, 6)
            if e > n - 2:
                break
            v[b:e + 1] = 1
            t = e + 2
            lines.append(('%s-%d %s %.3f %.3f' % (f, j, f, b * ms / 1000., e * ms / 1000.)) if kind == 'segments' else
                         'SPEAKER %s 1 %.3f %.3f <NA> <NA> A <NA> <NA>' % (f, b * ms / 1000., (e - b) * ms / 1000.))
        want[f] = v
    want = {f: v for f, v in want.items() if v.any()}
    d['utt2num_frames'] = keep(d['utt2num_frames'], want)
    d['utt2spk'] = keep(d['utt2spk'], want)
    write(ctx, sh, 'd', d)
    with open(sh.path('data', 'in'), 'w') as f:
        f.writelines(x + '\n' for x in lines)
    sh.own()
    nj = ctx.int(1, len(want))
    args = ['--nj', str(nj)] + (['--frame-shift', str(shift)] if shift else [])
    sh.run('bash', 'hyp_utils/%s_to_bin_vad.sh' % kind, *args, 'data/in', 'data/d', ctx.pick(['vad', sh.path('vad')]))
    scp = open(sh.path('data/d/vad.scp')).read().splitlines()
    ctx.same(sorted(l.split()[0] for l in scp), sorted(want), 'masks of all the recordings')
    os.chdir(sh.dir)
    try:
        with RF.create('scp:' + sh.path('data/d/vad.scp')) as r:
            for f in sorted(want):
                ctx.same(np.asarray(r.read([f])[0]).astype(int), want[f], 'speech mask', kind, f)
    finally:
        os.chdir('/')
    ctx.event('masks', len(want))
    ctx.sig('masks', kind, nj, shift)
