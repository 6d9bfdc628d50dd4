"""C36 the command-line tools give what the classes give on the listed data with the given options"""
import os

import h5py
import numpy as np

from ..core import case
from ..tool import tool
from .c33 import parse, write_list

KEYS = ['k%02d', 'dir/u-%d', 'Sp%d_x', '%d']


def table(ctx, n, d, K=None):
    """n named vectors with classes of different means in a file"""
    from hyperion.io import DataWriterFactory as DWF
    nm = ctx.pick(KEYS)
    keys = np.array([nm % i for i in ctx.rng.permutation(n * 3)[:n]])
    K = K or ctx.int(2, 4)
    ids = ctx.rng.permutation(np.concatenate((np.repeat(np.arange(K), 4), ctx.rng.randint(0, K, n - 4 * K))))
    x = ((ctx.rng.randn(K, d) * 2)[ids] + ctx.rng.randn(n, d) * (1 + ctx.rng.rand(d)) + ctx.rng.randn(d)).astype('float32')
    cls = np.array(ctx.pick([['b', 'a', 'd', 'c', 'B', 'e', 'ab'], ['s9', 's10', 's1', 'x', 's2', 's', 's11']]))[ids]
    return keys, x, cls


def store(ctx, keys, x, name='v', only_h5=False):
    from hyperion.io import DataWriterFactory as DWF
    kind = 'h5' if only_h5 else ctx.pick(['h5', 'ark', 'h5scp'])
    a, s = ctx.path(name + '.' + ('ark' if kind == 'ark' else 'h5')), ctx.path(name + '.scp')
    with DWF.create('%s,scp:%s,%s' % ('ark' if kind == 'ark' else 'h5', a, s)) as w:
        w.write(list(keys), [v for v in x])
    return a if only_h5 else 'h5:' + a if kind == 'h5' else 'scp:' + s


def pre(ctx, d, up=False):
    """a list of transforms in a file, or none"""
    from hyperion.transforms import CentWhiten, CentWhitenUP, TransformList
    if ctx.flip(.35):
        return None, None
    C = CentWhitenUP if up else CentWhiten
    tf = [C(ctx.rng.randn(d), np.eye(d) * 2 + ctx.rng.rand(d, d) * .5, name='p%d' % i) for i in range(ctx.int(1, 2))]
    f = ctx.path('pre.h5')
    TransformList(tf).save(f)
    return f, TransformList.load(f)


def reader_options(ctx, classes):
    """options of the readers of vectors that leave data to fit"""
    o = {'vlist-sep': ctx.pick([' ', ',']) if ctx.flip(.3) else ' '}
    if classes and ctx.flip(.4):
        o['min-spc'] = ctx.int(1, 4)
    if classes and ctx.flip(.5):
        o['max-spc'] = ctx.int(4, 6)
        o['spc-pruning-mode'] = ctx.pick(['first', 'last', 'random'])
        o['vcr-seed'] = ctx.int(0, 99)
    if classes and ctx.flip(.2):
        o['csplit-max-spc'] = ctx.int(4, 6)
        o['csplit-min-spc'] = ctx.int(1, 4)
        o['csplit-mode'] = ctx.pick(['sequential', 'random', 'random_1part'])
    return o


def flag(o, name, value):
    if value:
        o[name] = True
    return value


def saved(ctx, path, cls, x, pre_file, tlist, append, name, want, label, direct=False):
    """the file has the list, or the model, and transforms as the model of the oracle"""
    from hyperion.transforms import TransformList
    if not tlist:
        m = cls.load(path)
        ctx.same(m.name, name, 'name of the model', label)
        y = x if pre_file is None else pre_file.predict(x)
        ctx.close(m.predict(y), want, 'model of ' + label, rtol=2e-3, atol=2e-3)
        return m
    t = TransformList.load(path)
    n = len(pre_file.transforms) if append and pre_file is not None else 0
    ctx.same([v.name for v in t.transforms], ['p%d' % i for i in range(n)] + [name], 'transforms in the list', label)
    ctx.same(type(t.transforms[-1]).__name__, cls.__name__, 'class of the last transform', label)
    y = x if pre_file is None or n else pre_file.predict(x)
    ctx.close(t.predict(y), want, 'list of ' + label, rtol=2e-3, atol=2e-3)
    return t.transforms[-1]


@case(quick=120, mult=8)
def transforms(ctx):
    """tools that train a transform: the transform of the class on the listed vectors, alone, in a list, or after its preprocessing"""
    from hyperion.helpers import VectorReader as VR, VectorClassReader as VCR
    from hyperion import transforms as T
    from hyperion.transforms import TransformList
    kind = ctx.pick(['cw', 'cw', 'cw-up', 'mvn', 'pca', 'gaussianizer', 'lda', 'lda', 'nda'])
    sup, up = kind in ('lda', 'nda'), kind == 'cw-up'
    d, n = ctx.int(2, 4), ctx.int(24, 40)
    keys, x, cls = table(ctx, n, d)
    if up:
        x = np.hstack((x, .05 + ctx.rng.rand(n, d).astype('float32')))
    src = store(ctx, keys, x)
    ro = reader_options(ctx, sup)
    idx = ctx.rng.permutation(n)[:n if sup else ctx.int(15, n)]
    lst = write_list(ctx.path('l'), [(keys[i], cls[i]) for i in idx], ro['vlist-sep'])
    pf, p = pre(ctx, d, up)
    if sup:
        y, ids = VCR(src, lst, p, **parse(VCR, dict(ro))).read()
        if len(set(ids)) < 2:
            ctx.check(True, 'one class only')
            return
    else:
        y = VR(src, lst, p, vlist_sep=ro['vlist-sep']).read()
    o = dict(ro)
    out = ctx.path('out.h5')
    tlist, app = not flag(o, 'no-save-tlist', ctx.flip(.3)), not flag(o, 'no-append-tlist', ctx.flip(.3))
    default = {'cw': 'lnorm', 'cw-up': 'lnorm', 'mvn': 'mvn', 'pca': 'pca', 'gaussianizer': 'gauss', 'lda': 'lda', 'nda': 'nda'}[kind]
    name = default
    if ctx.flip():
        o['name'] = name = ctx.pick(['m', 'last', 'w'])
    m = None
    if kind in ('cw', 'cw-up', 'pca', 'gaussianizer'):
        ln = kind in ('cw', 'cw-up') and not flag(o, 'no-lnorm', ctx.flip())
        C = dict(cw=T.LNorm if ln else T.CentWhiten, pca=T.PCA, gaussianizer=T.Gaussianizer)
        C['cw-up'] = T.LNormUP if ln else T.CentWhitenUP
        C = C[kind]
        if kind == 'gaussianizer':
            a = dict(max_vectors=ctx.pick([None, 7, 12]))
        else:
            a = dict(update_mu=True, update_T=True)
            if ctx.flip(.3):
                a['update_mu'] = False
            elif ctx.flip(.3) and kind != 'pca':
                a['update_T'] = False
            if kind == 'pca':
                a['pca_dim'] = ctx.int(1, d)
        if ctx.flip(.3):
            # continue from a model: it keeps its own options, and what they do not let change
            w = dict(mu=ctx.rng.randn(d), T=np.eye(d)[:, : a.get('pca_dim') or d] + .2) if kind != 'gaussianizer' else {}
            m = C(name=name, **dict(a, **w))
            if kind == 'gaussianizer':
                m.fit(ctx.rng.randn(5, d))
            first = ctx.path('first.h5')
            if ctx.flip():
                m.save(first)
            else:
                rest = [T.MVN(np.zeros(d), np.ones(d), name='mv')] if ctx.flip() else []
                TransformList(rest + [m] if ctx.flip() else [m] + rest).save(first)
            o['input-path'] = first
        else:
            if kind == 'gaussianizer':
                o['max-vectors'] = a['max_vectors']
            else:
                for k, v in (('update_mu', 'update-mu'), ('update_T', 'update-t')):
                    if not a[k] or ctx.flip():
                        o[v] = str(a[k])
                if kind == 'pca':
                    o['pca-dim'] = a['pca_dim']
            m = C(name=name, **a)
        m.fit(y)
    elif kind == 'mvn':
        C = T.MVN
        m = C(name=name)
        m.fit(y)
    elif kind == 'lda':
        C = T.LDA
        k = ctx.pick([None, 1, min(d, len(set(ids)) - 1)])
        o['lda-dim'] = k
        m = C(lda_dim=k, name=name)
        m.fit(y, ids)
    else:
        C = T.NDA
        k, K, al = ctx.pick([None, 1, d]), int(np.min(np.bincount(ids))) if ctx.flip() else 2, ctx.pick([None, .5])
        if np.min(np.bincount(ids)) < 2:
            ctx.check(True, 'class of one vector')
            return
        K = min(K, 10)
        o.update({'nda-dim': k, 'k': K, 'alpha': al})
        if K == 10 and ctx.flip():
            del o['k']
        from hyperion.transforms.sb_sw import NSbSw
        s = NSbSw(K=K, alpha=1 if al is None else al)
        s.fit(y, ids)
        m = C(name=name)
        m.fit(mu=s.mu, Sb=s.Sb, Sw=s.Sw, nda_dim=k)
    tool(ctx, 'train-' + kind, None, iv_file=src, train_list=lst, preproc_file=pf, output_path=out, **o)
    z = x[:7].astype(float) + .1 * ctx.rng.rand(*x[:7].shape)
    if kind == 'gaussianizer':
        z = x[:7].astype(float)
    want = m.predict(z if p is None else p.predict(z))
    ctx.check(np.all(np.isfinite(want)), 'finite oracle')
    if kind != 'gaussianizer':
        g = saved(ctx, out, C, z, p, tlist, app, name, want, kind)
    else:
        g = C.load(out) if not tlist else TransformList.load(out).transforms[-1]
        ctx.same(g.name, name, 'name of the gaussianizer')
        ctx.close(g.r, m.r, 'points of the gaussianizer', rtol=1e-4, atol=1e-4)
    if kind in ('cw', 'pca'):
        ctx.same((g.update_mu, g.update_T), (m.update_mu, m.update_T), 'options of the model in the file')
    ctx.sig(kind, tlist, app, p is None, 'input-path' in o)
    ctx.sample(kind=kind, n=len(y), d=d, options=sorted(o))


def look_scores(ctx, path, models, segs, want, tool_name, rtol=1e-3, atol=1e-3):
    """every trial of the file has the score of its own model and segment"""
    from hyperion.utils.trial_scores import TrialScores
    s = TrialScores.load(path)
    ctx.same((sorted(s.model_set), sorted(s.seg_set)), (sorted(models), sorted(segs)), 'models and segments of ' + tool_name)
    mi, si = {m: i for i, m in enumerate(s.model_set)}, {v: i for i, v in enumerate(s.seg_set)}
    got = np.asarray(s.scores)[[mi[m] for m in models]][:, [si[v] for v in segs]]
    ctx.check(np.all(np.asarray(s.score_mask)), 'every trial has a score', tool_name)
    ctx.close(got, want, 'scores of ' + tool_name, rtol=rtol, atol=atol)
    ctx.event('scores', got.size)


@case(quick=100, mult=8)
def back_ends(ctx):
    """tools that train and evaluate classifiers: model of the class on the listed vectors, scores of the listed segments for the listed classes"""
    from hyperion.helpers import VectorClassReader as VCR
    from hyperion import classifiers as B
    kind = ctx.pick(['linear-gbe', 'linear-gbe-up', 'linear-svmc', 'logistic-regression', 'q-scoring-homo-gbe'])
    d, n = ctx.int(2, 4), ctx.int(24, 40)
    up = kind == 'linear-gbe-up'
    keys, x, cls = table(ctx, n, d)
    if up or kind == 'q-scoring-homo-gbe':
        x = np.hstack((x, (.05 + .9 * ctx.rng.rand(n, d)).astype('float32')))
    src = store(ctx, keys, x)
    ro = reader_options(ctx, True)
    for k in [k for k in ro if k.startswith('csplit')]:
        del ro[k]
    idx = ctx.rng.permutation(n)
    lst = write_list(ctx.path('l'), [(keys[i], cls[i]) for i in idx], ro['vlist-sep'])
    pf, p = pre(ctx, d, True) if up else (None, None) if kind == 'q-scoring-homo-gbe' else pre(ctx, d)
    names = sorted(set(cls))
    if ctx.flip():                          # classes numbered by a file
        names = [str(v) for v in ctx.rng.permutation(names)]
    c2i = write_list(ctx.path('c2i'), [(c, str(i)) for i, c in enumerate(names)])
    num = dict(ro, **({'class2int-file': c2i} if names != sorted(names) else {}))
    y, ids = VCR(src, lst, p, **parse(VCR, dict(num))).read()
    K = len(names)
    if set(ids) != set(range(K)) or kind in ('linear-svmc', 'logistic-regression') and K < 3:
        ctx.check(True, 'a class is missing')
        return
    o, out = dict(num), ctx.path(ctx.pick(['m.h5', 'm']))
    a = dict(name=ctx.pick(['a', 'model']))
    o['name'] = a['name']
    if ctx.flip(.3):
        o.pop('name')
        a.pop('name')
    C = {'linear-gbe': B.LinearGBE, 'linear-gbe-up': B.LinearGBEUP, 'linear-svmc': B.LinearSVMC,
         'logistic-regression': B.LogisticRegression, 'q-scoring-homo-gbe': B.QScoringHomoGBE}[kind]
    e, pa, tol = {}, (), 2e-3
    if kind in ('linear-gbe', 'linear-gbe-up'):
        a.update(prior_beta=16, prior_nu=16)
        a['balance_class_weight'] = flag(o, 'balance-class-weight', ctx.flip())
        for k, v in (('post_beta', 'post-beta'), ('post_nu', 'post-nu')):
            if ctx.flip(.4):
                a[k] = o[v] = ctx.pick([4., 9.5])
        if ctx.flip(.4):
            a['prior'] = o['prior'] = f = ctx.path('prior.h5')
            W = np.eye(d) * 2
            C(mu=ctx.rng.randn(K, d), W=W, beta=np.ones(K) * 3, nu=20., name='pr').save(f)
            for k, v in (('prior_beta', 'prior-beta'), ('prior_nu', 'prior-nu')):
                if ctx.flip():
                    a[k] = o[v] = ctx.pick([5., 2.5])
        pa = (ctx.pick(['linear', 'llk', 'predictive']) if kind == 'linear-gbe' else 'linear', ctx.flip())
        if ctx.flip(.8) or pa[0] != 'linear':
            e['eval-method'] = pa[0]
        else:
            pa = ('linear', pa[1])
        flag(e, 'normalize', pa[1])
    elif kind == 'linear-svmc':
        a.update(C=1., balance_class_weight=flag(o, 'balance-class-weight', ctx.flip()))
        if ctx.flip():
            a['C'] = o['c'] = ctx.pick([.1, 5.])
        if ctx.flip(.2):
            a['use_bias'] = not flag(o, 'no-use-bias', True)
        if ctx.flip(.2):
            a['bias_scaling'] = o['bias-scaling'] = 3.
        if ctx.flip(.3):
            a['dual'] = not flag(o, 'no-dual', True)
        elif ctx.flip(.3):
            a['loss'] = o['loss'] = 'hinge'
        if ctx.flip(.2):
            a['multi_class'] = o['multi-class'] = 'crammer_singer'
        a['max_iter'] = o['max-iter'] = ctx.pick([300, 3000])
        a['lr_seed'] = o['lr-seed'] = ctx.int(1, 50)
        pa = (ctx.pick(['logit', 'bin-logpost', 'bin-post', 'cat-logpost', 'cat-post']),)
        e['eval-type'] = pa[0]
    elif kind == 'logistic-regression':
        a.update(lambda_reg=ctx.pick([.01, .1]))
        o['lambda-reg'] = a['lambda_reg']
        a['multi_class'] = 'ovr'            # default of the tool
        if ctx.flip():
            a['multi_class'] = o['multi-class'] = 'multinomial'
        if ctx.flip(.3):
            a['use_bias'] = not flag(o, 'no-use-bias', True)
        if ctx.flip(.3):
            flag(o, 'no-warm-start', True)
        if ctx.flip(.3):
            a['max_iter'] = o['max-iter'] = ctx.pick([5, 400])
        if ctx.flip(.3):
            a['solver'] = o['solver'] = 'newton-cg'
        if ctx.flip(.3):
            a['tol'] = o['tol'] = 1e-7
        pa = (ctx.pick(['logit', 'log-post', 'post']),)
        e['eval-type'] = pa[0]
    else:
        a['balance_class_weight'] = flag(o, 'balance-class-weight', ctx.flip())
        a.update(prior_N=None)
        if ctx.flip(.4):
            a['prior'] = o['prior'] = f = ctx.path('prior.h5')
            C(mu=ctx.rng.randn(K, d), W=1 + ctx.rng.rand(d), N=np.ones(K) * 3, name='pr').save(f)
            if ctx.flip():
                a['prior_N'] = o['prior-n'] = 4.
        if ctx.flip(.4):
            a['post_N'] = o['post-n'] = 6.
        pa = (ctx.flip(),)
        flag(e, 'normalize', pa[0])
    m = C(**a)
    m.fit(y, ids)
    tool(ctx, 'train-' + kind, None, iv_file=src, train_list=lst, preproc_file=pf, output_path=out, **o)
    g = C.load(out)
    q = y[:5] + .1 * np.abs(y[:5])
    ctx.close(g.predict(q, *pa), m.predict(q, *pa), 'model of ' + kind, rtol=tol, atol=tol)
    if 'name' in a:
        ctx.same(g.name, a['name'], 'name of the model')
    # segments of the evaluation: in another file, with their list
    nt = ctx.int(2, 9)
    tk = ['t%d' % i for i in ctx.rng.permutation(nt)]
    xt = x[ctx.rng.randint(0, n, nt)] + (.1 * np.abs(ctx.rng.randn(nt, x.shape[1]))).astype('float32')
    if kind == 'q-scoring-homo-gbe':
        xt[:, d:] = np.minimum(xt[:, d:], .98)
    tsrc = store(ctx, tk, xt, 't', only_h5=True)
    ti = ctx.rng.permutation(nt)[:ctx.int(1, nt)]
    tl = write_list(ctx.path('tl'), [(tk[i], 'x') for i in ti])
    segs = [tk[i] for i in ti]
    if ctx.flip(.3) and len(segs) > 1:
        k = ctx.int(2, len(segs))
        j = ctx.int(1, k)
        e.update({'num-seg-parts': k, 'seg-part-idx': j})
        segs = None
    z = xt[ti].astype(float)
    want = m.predict(z if p is None else p.predict(z), *pa).T
    sf = ctx.path(ctx.pick(['s.h5', 's.txt']))
    if ctx.flip(.4):
        e['vector-score-file'] = ctx.path('vs.h5')
    tool(ctx, 'eval-' + kind, None, iv_file=tsrc, class2int_file=c2i, test_file=tl, preproc_file=pf, model_file=out, score_file=sf, **e)
    if segs is None:
        from hyperion.utils.trial_scores import TrialScores
        got = set(TrialScores.load(sf).seg_set)
        full = [tk[i] for i in ti]
        ctx.check(got and got <= set(full) and abs(len(got) - len(full) / k) < 1 + 1e-6, 'segments of the part', sorted(got), full, j, k)
        segs = [v for v in full if v in got]
        want = want[:, [full.index(v) for v in segs]]
    look_scores(ctx, sf, names, segs, want, 'eval-' + kind)
    if 'vector-score-file' in e:
        with h5py.File(e['vector-score-file'], 'r') as f:
            ctx.same(sorted(f), sorted(segs), 'segments with a score vector')
            for i, v in enumerate(segs):
                ctx.close(np.asarray(f[v]).ravel(), want[:, i], 'score vector', rtol=tol, atol=tol)
    ctx.sig(kind, pa, p is None, names == sorted(names))
    ctx.sample(kind=kind, n=len(y), segs=len(segs), options=sorted(o), eval=sorted(e))


@case(quick=100, mult=8)
def verification(ctx):
    """tools that train PLDA and score trials by PLDA or cosine: model of the class, score of each enrolled model against each segment"""
    from hyperion.helpers import VectorClassReader as VCR
    from hyperion.pdfs.plda import FRPLDA, SPLDA, PLDA
    from hyperion.transforms import LNorm
    from hyperion.utils import TrialNdx
    kind = ctx.pick(['frplda', 'splda', 'splda', 'plda'])
    d, n = ctx.int(2, 4), ctx.int(32, 50)
    keys, x, cls = table(ctx, n, d, ctx.int(6, 7))
    src = store(ctx, keys, x)
    pf, p = pre(ctx, d)
    row = dict(zip(keys, x.astype(float) if p is None else p.predict(x.astype(float))))
    score = ctx.pick(['plda-1vs1', 'plda-nvs1', 'cos-1vs1'])
    o = {}
    if score != 'cos-1vs1':
        ro = reader_options(ctx, True)
        for k in [k for k in ro if k.startswith('csplit')]:
            del ro[k]
        lst = write_list(ctx.path('l'), list(zip(keys, cls)), ro['vlist-sep'])
        y, ids = VCR(src, lst, p, **parse(VCR, dict(ro))).read()
        o = dict(ro)
        val = {}
        if 'min-spc' not in ro and ctx.flip(.5):
            iv = ctx.rng.permutation(n)[:ctx.int(8, n)]
            o['val-list'] = write_list(ctx.path('val'), [(keys[i], cls[i]) for i in iv], ro['vlist-sep'])
            v = VCR(src, o['val-list'], p, **parse(VCR, dict(ro))).read()
            val = dict(x_val=v[0], class_ids_val=v[1])
        a, fit = dict(name='plda'), dict(epochs=ctx.int(1, 6), ml_md='ml+md')
        yd, zd = ctx.int(1, d), ctx.int(1, d)
        if kind != 'splda' or ctx.flip():
            o['plda-type'] = kind
        o['y-dim'], o['z-dim'], o['epochs'] = yd, zd, fit['epochs']
        if ctx.flip(.3):
            fit['ml_md'] = o['ml-md'] = ctx.pick(['ml', 'md', 'ml+md'])
        if ctx.flip(.3):
            fit['md_epochs'] = o['md-epochs'] = [int(i) for i in range(fit['epochs']) if i == 0 or ctx.flip()]
        if ctx.flip(.3):
            a['name'] = o['name'] = 'my'
        off = {}
        for k in ('mu', 'V', 'U', 'B', 'W', 'D'):
            if ctx.flip(.12):
                off[k] = flag(o, 'no-update-' + (k.lower() if k in 'WD' else k), True)
        diag = flag(o, 'diag-W', ctx.flip(.3))
        if kind == 'frplda':
            m, use = FRPLDA(fullcov_W=not diag, **dict(a, **{'update_' + k: k not in off for k in ('mu', 'B', 'W')})), FRPLDA
        elif kind == 'splda':
            m, use = SPLDA(y_dim=yd, fullcov_W=not diag, **dict(a, **{'update_' + k: k not in off for k in ('mu', 'V', 'W')})), SPLDA
        else:
            fl = 1e-5
            if ctx.flip(.3):
                fl = o['floor-id'] = .01
            m, use = PLDA(y_dim=yd, z_dim=zd, floor_iD=fl, **dict(a, **{'update_' + k: k not in off for k in ('mu', 'V', 'U', 'D')})), PLDA
        e = m.fit(y, ids, **dict(fit, **val))
        out = ctx.path('plda.h5')
        tool(ctx, 'train-plda', None, iv_file=src, train_list=lst, preproc_file=pf, output_path=out, **o)
        g = use.load(out)
        ctx.same((type(g).__name__, g.name), (use.__name__, a['name']), 'class and name of the model')
        q = y[:4]
        w = m.llr_1vs1(q, q[::-1])
        tol = dict(rtol=5e-3, atol=5e-3 * (1 + np.max(np.abs(w))))
        ctx.close(g.llr_1vs1(q, q[::-1]), w, 'PLDA from train-plda', **tol)
        t = np.loadtxt(ctx.path('plda.csv'), delimiter=',', ndmin=2)
        ctx.close(t, np.vstack((np.arange(fit['epochs']), np.vstack(e))).T, 'table of the objective', rtol=1e-4, atol=1e-3)
    # evaluation
    ev = ctx.pick(['enroll-test', 'enroll-test', 'enroll-test', 'enroll-coh', 'coh-test', 'coh-coh'])
    order = [keys[i] for i in ctx.rng.permutation(n)]
    ne = ctx.int(2, n - 3)
    E, S = order[:ne], order[ne:]
    if ev.startswith('coh'):
        enroll, models = [(k, k) for k in E], list(E)
    else:
        nm = ne if score != 'plda-nvs1' else ctx.int(1, ne)
        names = ['m%d' % i for i in ctx.rng.permutation(99)[:nm]]
        enroll = [(k, names[i] if i < nm else ctx.pick(names)) for i, k in enumerate(E)]
        enroll = [enroll[i] for i in ctx.rng.permutation(ne)]
        models = [names[i] for i in ctx.rng.permutation(nm)[:ctx.int(1, nm)]]
    sep = ctx.pick([' ', ','])
    ef, tf = write_list(ctx.path('e'), enroll, sep), write_list(ctx.path('t'), [(k, '-') for k in S], sep)
    nf = None
    if ev != 'coh-coh':
        nf = ctx.path('ndx.' + ctx.pick(['h5', 'txt']))
        TrialNdx(models if ev != 'coh-test' else ['q1', 'q2'], S if ev != 'enroll-coh' else ['z1', 'z2']).save(nf)
    c = {'tlist-sep': sep, 'eval-set': ev}
    if ev == 'enroll-test' and ctx.flip():
        del c['eval-set']
    if score == 'plda-nvs1' and ctx.flip(.8):
        c['pool-method'] = ctx.pick(['book', 'vavg', 'vavg-lnorm', 'savg'])
    if score != 'cos-1vs1':
        c.update({'plda-type': kind, 'model-file': out})
    mp, sp = ctx.int(1, min(3, len(models))), ctx.int(1, min(3, len(S)))
    if ctx.flip():
        mp = sp = 1
    seen = {}
    from hyperion.utils.trial_scores import TrialScores
    for i in range(1, mp + 1):
        for j in range(1, sp + 1):
            if mp * sp > 1:
                c.update({'num-model-parts': mp, 'model-part-idx': i, 'num-seg-parts': sp, 'seg-part-idx': j})
            sf = ctx.path('s%d_%d.%s' % (i, j, ctx.pick(['h5', 'txt'])))
            tool(ctx, 'eval-' + score, None, iv_file=src, ndx_file=nf, enroll_file=ef, test_file=tf if ev in ('enroll-coh', 'coh-coh') or ctx.flip() else None,
                 preproc_file=pf, score_file=sf, **c)
            s = TrialScores.load(sf)
            ctx.check(np.all(np.asarray(s.score_mask)), 'every trial has a score')
            for r, mo in enumerate(s.model_set):
                for k, sg in enumerate(s.seg_set):
                    ctx.check((mo, sg) not in seen, 'a trial in two parts', mo, sg)
                    seen[str(mo), str(sg)] = s.scores[r, k]
    ctx.same(set(seen), {(a_, b_) for a_ in models for b_ in S}, 'scored trials')
    xt = np.array([row[k] for k in S])
    ms = sorted(models)
    if score == 'plda-nvs1':
        mem = [[row[k] for k, v in enroll if v == a_] for a_ in ms]
        want = m.llr_Nvs1(np.vstack(mem), xt, ids1=np.repeat(np.arange(len(ms)), [len(v) for v in mem]), method=c.get('pool-method', 'vavg-lnorm'))
    else:
        xe = np.array([row[[k for k, v in enroll if v == a_][0]] for a_ in ms])
        if score == 'plda-1vs1':
            want = m.llr_1vs1(xe, xt)
        else:
            want = LNorm().predict(xe).dot(LNorm().predict(xt).T)
    got = np.array([[seen[a_, b_] for b_ in S] for a_ in ms])
    ctx.close(got, want, 'scores of eval-' + score, rtol=5e-3, atol=5e-3 * (1 + np.max(np.abs(want))))
    ctx.event('scores', got.size)
    ctx.sig(score, kind, ev, p is None, (mp, sp), c.get('pool-method'))
    ctx.sample(score=score, kind=kind, ev=ev, parts=(mp, sp), options=sorted(o))


@case(quick=60, mult=10)
def normalised_scores(ctx):
    """score normalisation of files: rows and columns are found by their names, whatever their order in the files"""
    from hyperion.utils.trial_scores import TrialScores
    kind = ctx.pick(['t-norm', 'z-norm', 'zt-norm', 's-norm', 's-norm', 'adapt'])
    ne, nt = ctx.int(1, 6), ctx.int(1, 6)
    nz, nq = ctx.int(2, 7), ctx.int(2, 7)       # cohort segments against models, cohort models against segments
    M, S = ['m%d' % i for i in ctx.rng.permutation(20)[:ne]], ['t%d' % i for i in ctx.rng.permutation(20)[:nt]]
    Z = ['c%d' % i for i in ctx.rng.permutation(20)[:nz]]
    Q = list(ctx.rng.permutation(Z)) if kind == 'adapt' else ['c%d' % i for i in ctx.rng.permutation(20)[:nq]]
    s, ez, qt, qz = [ctx.rng.randn(len(a), len(b)) * 2 + 1 for a, b in ((M, S), (M, Z), (Q, S), (Q, Z))]

    def write(name, rows, cols, v):
        """extra rows and columns, another order"""
        r = rows + ['x%d' % i for i in range(ctx.int(0, 2))] if name != 's' else rows
        c = cols + ['y%d' % i for i in range(ctx.int(0, 2))] if name == 'qz' else cols
        w = 50 * ctx.rng.randn(len(r), len(c))
        w[:len(rows), :len(cols)] = v
        if name == 'qt' or name == 'ez':
            r, w = list(rows), w[:len(rows)]
            more = 'y%d' if name == 'qt' else 'x%d'
            k = ctx.int(0, 2)
            if name == 'qt':
                c, w = list(cols) + [more % i for i in range(k)], np.hstack((w, 50 * ctx.rng.randn(len(r), k)))
            else:
                r, w = list(rows) + [more % i for i in range(k)], np.vstack((w, 50 * ctx.rng.randn(k, len(c))))
        pr, pc = ctx.rng.permutation(len(r)), ctx.rng.permutation(len(c))
        f = ctx.path(name + ctx.pick(['.h5', '.txt']))
        TrialScores([r[i] for i in pr], [c[i] for i in pc], w[pr][:, pc]).save(f)
        return f
    files = dict(score_file=write('s', M, S, s))
    if kind in ('z-norm', 'zt-norm', 's-norm', 'adapt'):
        files['enr_coh_file'] = write('ez', M, Z, ez)
    if kind in ('t-norm', 'zt-norm', 's-norm', 'adapt'):
        files['coh_test_file'] = write('qt', Q, S, qt)
    if kind == 'zt-norm' or kind == 's-norm' and ctx.flip(.3):
        files['coh_coh_file'] = write('qz', Q, Z, qz)

    def z(v, c):
        return (v - c.mean(1, keepdims=True)) / np.maximum(c.std(1, keepdims=True), 1e-5)

    def t(v, c):
        return z(v.T, c.T).T
    o = {}
    if kind == 't-norm':
        want = t(s, qt)
    elif kind == 'z-norm':
        want = z(s, ez)
    elif kind == 'zt-norm':
        want = t(z(s, ez), z(qt, qz))
    elif kind == 's-norm':
        want = (z(s, ez) + t(s, qt)) / np.sqrt(2)
    else:
        from .c31 import adaptive
        o['adapt-coh'] = nb = ctx.int(2, nz + 2)
        want = adaptive(s, qt, ez[:, [Z.index(v) for v in Q]], min(nb, nz), 0, 1e-5, np.ones(qt.shape, bool), np.ones(ez.shape, bool))
    if kind not in ('s-norm', 'adapt') or ctx.flip():
        o['norm-type'] = 's-norm' if kind == 'adapt' else kind
    out = ctx.path('out' + ctx.pick(['.h5', '.txt']))
    tool(ctx, 'eval-score-norm', None, output_file=out, **dict(files, **o))
    big = np.max(np.abs(want))
    look_scores(ctx, out, M, S, want, kind, rtol=1e-2, atol=1e-3 * (1 + big))
    ctx.sig(kind, ne, nt, nz, nq)
    ctx.sample(kind=kind, shape=(ne, nt, nz, nq))


@case(quick=60, mult=10)
def error_rates(ctx):
    """the table of error rates is that of the listed target and non-target trials"""
    from hyperion.utils.trial_scores import TrialScores
    from hyperion.utils.trial_key import TrialKey
    from hyperion.metrics import compute_eer
    m, n = ctx.int(2, 6), ctx.int(2, 12)
    M, S = ['m%d' % i for i in ctx.rng.permutation(20)[:m]], ['t%d' % i for i in ctx.rng.permutation(20)[:n]]
    v = ctx.rng.randn(m, n)
    r = ctx.rng.rand(m, n)
    tar = r < .4
    non = r > ctx.pick([.4, .6])
    tar[0, 0], non[0, 0], tar[1, 1], non[1, 1] = True, False, False, True
    v[tar] += ctx.pick([0., 1., 3.])
    rows, cols = ctx.rng.permutation(m), ctx.rng.permutation(n)
    kf, sf = ctx.path('key' + ctx.pick(['.h5', '.txt'])), ctx.path('s' + ctx.pick(['.h5', '.txt']))
    if kf.endswith('txt'):                      # text keys list the trials only
        keep_r, keep_c = (tar | non).any(1), (tar | non).any(0)
    else:
        keep_r, keep_c = np.ones(m, bool), np.ones(n, bool)
    TrialKey([M[i] for i in rows], [S[i] for i in cols], tar[rows][:, cols], non[rows][:, cols]).save(kf)
    TrialScores(M, S, v).save(sf)
    out = ctx.path(ctx.pick(['new/dir/res', 'res', 'a.b']))
    here = ctx.flip(.3)
    tool(ctx, 'eval-2class-performance', ctx.tmp if here else None, score_file=sf, key_file=kf,
         output_path=os.path.relpath(out, ctx.tmp) if here else out)
    eer = compute_eer(v[tar], v[non])
    lines = dict(l.split() for l in open(out + '.res'))
    ctx.same((sorted(lines), lines['NTAR'], lines['NNON']), (['EER', 'NNON', 'NTAR'], str(tar.sum()), str(non.sum())), 'counts of trials')
    ctx.check(abs(float(lines['EER']) - eer) < 6e-5, 'equal error rate', lines['EER'], eer)
    ctx.sig(m, n, here, kf[-3:], sf[-3:])
    ctx.sample(m=m, n=n, tar=int(tar.sum()), non=int(non.sum()))


def kaldi_gmm(ctx, path, g):
    """a mixture in the text format of Kaldi"""
    f = ctx.pick(['%.9g', '%.7f', '%.9e'])
    L = 1 / g.Sigma
    m = g.mu * L

    def rows(v):
        return '\n'.join('  ' + ' '.join(f % i for i in r) + (' ]' if k == len(v) - 1 else ' ') for k, r in enumerate(v))
    with open(path, 'w') as w:
        w.write('<DiagGMM> \n<GCONSTS>  [ %s ]\n' % ' '.join(f % i for i in np.zeros(len(g.pi))))
        w.write('<WEIGHTS>  [ %s ]\n<MEANS_INVVARS>  [\n%s\n<INV_VARS>  [\n%s\n</DiagGMM> \n' % (' '.join(f % i for i in g.pi), rows(m), rows(L)))
    return path


@case(quick=80, mult=8)
def mixtures(ctx):
    """tools of Gaussian mixtures: evidence of the listed sequences and their largest posteriors, for models of both formats"""
    from hyperion.io import HypDataWriter
    from hyperion.pdfs import DiagGMM
    from hyperion.utils.scp_list import SCPList
    d, K, n = ctx.int(1, 4), ctx.int(1, 5), ctx.int(1, 9)
    pi = .05 + ctx.rng.rand(K)
    g = DiagGMM(x_dim=d, pi=pi / pi.sum(), mu=2 * ctx.rng.randn(K, d), Lambda=.5 + ctx.rng.rand(K, d))
    field = ctx.pick(['', '', '/feat', '.f'])
    seq, f = {}, ctx.path('seq.h5')
    w = HypDataWriter(f)
    for i in ctx.rng.permutation(n + 2):
        seq['s%d' % i] = (g.mu[ctx.rng.randint(0, K, ctx.int(1, 30))] + ctx.rng.randn()).astype('float32')
        seq['s%d' % i] += ctx.rng.randn(*seq['s%d' % i].shape).astype('float32')
        w.write(['s%d' % i], field, [seq['s%d' % i]])
    w.f.close()
    names = [str(v) for v in ctx.rng.permutation(sorted(seq))[:n]]
    sep = ctx.pick(['=', '=', ' '])
    lst = ctx.path('l')
    with open(lst, 'w') as q:
        for i, v in enumerate(names):
            q.write('%s%s%s\n' % (v if ctx.flip(.7) else 'u%02d' % i, sep, v))
    o = {}
    if sep != '=' or ctx.flip(.2):
        o['scp-sep'] = sep
    if field:
        o['seq-field'] = field
    pf, p = pre(ctx, d)
    kind = ctx.pick(['evidence', 'posteriors'])
    kaldi = kind == 'posteriors' or ctx.flip()
    if kaldi:
        mf = kaldi_gmm(ctx, ctx.path('m.txt'), g)
    else:
        mf = ctx.path('m.h5')
        g.save(mf)
    parts = ctx.int(1, min(3, n)) if ctx.flip(.5) else 1
    L = np.log(g.pi)[None] - .5 * np.sum(np.log(2 * np.pi * g.Sigma), 1)[None]
    total, frames, done, num = 0, 0, [], ctx.int(1, K)
    for i in range(1, parts + 1):
        c = dict(o)
        if parts > 1:
            c.update({'part-idx': i, 'num-parts': parts})
        out = ctx.path('out%d' % i)
        if kind == 'evidence':
            if kaldi:
                c['ubm-type'] = 'kaldi-diag-gmm'
            elif ctx.flip(.3):
                c['ubm-type'] = 'diag-gmm'
            tool(ctx, 'eval-elbo-ubm', None, seq_file=f, file_list=lst, model_file=mf, preproc_file=pf, output_file=out, **c)
            v = dict(l.replace(':', '').rsplit(None, 1) for l in open(out))
            ctx.same(sorted(v), ['ELBO_NORM', 'Total ELBO'], 'lines of the evidence')
            e, en = float(v['Total ELBO']), float(v['ELBO_NORM'])
            total += e
            frames += int(round(e / en)) if abs(en) > 1e-2 else np.nan
        else:
            c['num-comp'] = num
            tool(ctx, 'compute-gmm-post', None, seq_file=f, file_list=lst, model_file=mf, preproc_file=pf, output_path=out, **c)
            with h5py.File(out, 'r') as q:
                ks = sorted({k[:-2] for k in q if k.endswith('.r')})
                ctx.same(sorted(q), sorted([k + '.r' for k in ks] + [k + '.index' for k in ks]), 'datasets of the posteriors')
                for k in ks:
                    x = seq[k].astype(float)
                    y = x if p is None else p.predict(x)
                    l = L - .5 * np.sum((y[:, None] - g.mu[None]) ** 2 / g.Sigma[None], 2)
                    r = np.exp(l - l.max(1, keepdims=True))
                    r /= r.sum(1, keepdims=True)
                    got, idx = q[k + '.r'][()], q[k + '.index'][()].astype(int)
                    ctx.same((got.shape, idx.shape), ((len(x), num),) * 2, 'shape of the posteriors')
                    ctx.check(all(len(set(v)) == num for v in idx) and idx.min() >= 0 and idx.max() < K, 'components of a frame', idx)
                    t = np.take_along_axis(r, idx, 1)
                    ctx.close(np.sort(t, 1), np.sort(r, 1)[:, -num:], 'components with the largest posteriors', rtol=1e-3, atol=1e-5)
                    ctx.close(got, t / t.sum(1, keepdims=True), 'posteriors', rtol=1e-3, atol=1e-5)
                    ctx.event('frames', len(x))
                ctx.check(not set(done) & set(ks), 'a sequence in two parts')
                done += ks
    if kind == 'evidence':
        want, nf = 0, 0
        for k in names:
            x = seq[k].astype(float)
            y = x if p is None else p.predict(x)
            l = L - .5 * np.sum((y[:, None] - g.mu[None]) ** 2 / g.Sigma[None], 2)
            m = l.max(1)
            r = np.exp(l - m[:, None])
            want += np.sum(l * r / r.sum(1, keepdims=True))         # expected over the components
            nf += len(x)
        ctx.close(total, want, 'evidence', rtol=1e-3, atol=1e-2)
        if abs(want / nf) > .1 and not np.isnan(frames):
            ctx.check(abs(frames - nf) <= parts * (1 + 1e-3 * nf), 'frames of the evidence', frames, nf)
    else:
        ctx.same(sorted(done), sorted(names), 'sequences with posteriors')
    if ctx.flip(.3):
        out = ctx.path('ubm.h5')
        tool(ctx, 'init-ubm', None, x_dim=d, output_path=out, **({'num-comp': 1} if ctx.flip() else {}))
        u = DiagGMM.load(out)
        y = ctx.rng.randn(5, d)
        ctx.close(u.log_prob(y), -.5 * np.sum(y ** 2, 1) - .5 * d * np.log(2 * np.pi), 'standard normal', rtol=1e-3, atol=1e-3)
    ctx.sig(kind, kaldi, field, p is None, parts)
    ctx.sample(kind=kind, kaldi=kaldi, n=n, d=d, K=K, parts=parts)
