"""C38 every option of the command line reaches the object that it configures, and no other"""
import argparse
import importlib
import inspect

from ..core import case

# option[=parameter]:kind - s text, i integer, f real, b true or false, n auto or integer, + sets, - clears, a|b choices, * several
TABLE = []


def of(classes, kind, text):
    for c in classes.split():
        where, c = c.rsplit('.', 1)
        o = []
        for v in text.split():
            flag, k = v.split(':')
            flag, _, par = flag.partition('=')
            o.append((flag, par or flag.replace('-', '_'), k))
        TABLE.append((where, c, kind, o))


of('helpers.classif_trial_data_reader.ClassifTrialDataReader ', 'args',
   'v-field:s seg-part-idx=seg_idx:i num-seg-parts:i ')
of('helpers.multi_test_trial_data_reader.MultiTestTrialDataReader helpers.trial_data_reader.TrialDataReader ', 'args',
   'tlist-sep:s model-part-idx=model_idx:i num-model-parts:i seg-part-idx=seg_idx:i num-seg-parts:i '
   'eval-set:enroll-test|enroll-coh|coh-test|coh-coh ')
of('helpers.plda_factory.PLDAFactory ', 'eval_args',
   'plda-type:frplda|splda|plda model-file:s ')
of('helpers.plda_factory.PLDAFactory ', 'train_args',
   'plda-type:frplda|splda|plda y-dim:i z-dim:i diag-W=fullcov_W:- no-update-mu=update_mu:- no-update-V=update_V:- '
   'no-update-U=update_U:- no-update-B=update_B:- no-update-w=update_W:- no-update-d=update_D:- floor-id=floor_iD:f '
   'epochs:i ml-md:ml+md|ml|md md-epochs:i* name:s ')
of('helpers.sequence_class_reader.SequenceClassReader helpers.sequence_reader.SequenceReader ', 'args',
   'scp-sep:s seq-field:s no-shuffle-seqs=shuffle_seqs:- subsample:f min-seq-length:i max-seq-length:i '
   'seq-split-mode:sequential|random_slice|random_samples|random_slice_1seq|random_samples_1seq seq-split-overlap:f '
   'seqr-seed:i part-idx:i num-parts:i ')
of('helpers.sequence_class_reader.SequenceClassReader helpers.sequence_reader.SequenceReader ', 'eval_args',
   'scp-sep:s seq-field:s part-idx:i num-parts:i ')
of('helpers.sequence_post_class_reader.SequencePostClassReader helpers.sequence_post_reader.SequencePostReader ', 'args',
   'scp-sep:s seq-field:s no-shuffle-seqs=shuffle_seqs:- subsample:f min-seq-length:i max-seq-length:i '
   'seq-split-mode:sequential|random_slice|random_samples|random_slice_1seq|random_samples_1seq seq-split-overlap:f '
   'seqr-seed:i part-idx:i num-parts:i num-comp:i ')
of('helpers.sequence_post_class_reader.SequencePostClassReader helpers.sequence_post_reader.SequencePostReader ', 'eval_args',
   'scp-sep:s seq-field:s part-idx:i num-parts:i num-comp:i ')
of('helpers.vector_class_reader.VectorClassReader ', 'args',
   'vlist-sep:s class2int-file:s min-spc:i max-spc:i spc-pruning-mode:random|first|last csplit-min-spc:i csplit-max-spc:i '
   'csplit-mode:sequential|random|random_1part csplit-overlap:i no-csplit-once=csplit_once:- vcr-seed:i ')
of('helpers.vector_reader.VectorReader ', 'args',
   'vlist-sep:s ')
of('classifiers.binary_logistic_regression.BinaryLogisticRegression '
   'classifiers.logistic_regression.LogisticRegression ', 'eval_args',
   'model-file:s eval-type:logit|log-post|post ')
of('classifiers.binary_logistic_regression.BinaryLogisticRegression ', 'train_args',
   'penalty:l2|l1 lambda-reg:f no-use-bias=use_bias:- bias-scaling:f lr-seed:i solver:newton-cg|lbfgs|liblinear|sag|saga '
   'max-iter:i dual:+ tol:f verbose:i no-warm-start=warm_start:- prior:f name:s ')
of('classifiers.linear_gbe.LinearGBE classifiers.linear_gbe_up.LinearGBEUP ', 'eval_args',
   'model-file:s normalize:+ eval-method:linear|llk|predictive ')
of('classifiers.linear_gbe.LinearGBE classifiers.linear_gbe_up.LinearGBEUP ', 'train_args',
   'no-update-mu=update_mu:- no-update-W=update_W:- balance-class-weight:+ prior:s prior-beta:f prior-nu:f post-beta:f '
   'post-nu:f name:s ')
of('classifiers.linear_svmc.LinearSVMC ', 'eval_args',
   'model-file:s eval-type:logit|bin-logpost|bin-post|cat-logpost|cat-post ')
of('classifiers.linear_svmc.LinearSVMC ', 'train_args',
   'penalty:l2|l1 c=C:f loss:hinge|squared_hinge no-use-bias=use_bias:- bias-scaling:f lr-seed:i max-iter:i no-dual=dual:- '
   'tol:f multi-class:ovr|crammer_singer verbose:i balance-class-weight:+ name:s ')
of('classifiers.logistic_regression.LogisticRegression ', 'train_args',
   'penalty:l2|l1 lambda-reg:f no-use-bias=use_bias:- bias-scaling:f lr-seed:i solver:newton-cg|lbfgs|liblinear|sag|saga '
   'max-iter:i dual:+ tol:f multi-class:ovr|multinomial verbose:i num-jobs:i no-warm-start=warm_start:- name:s ')
of('classifiers.q_scoring_homo_gbe.QScoringHomoGBE ', 'eval_args',
   'model-file:s normalize:+ ')
of('classifiers.q_scoring_homo_gbe.QScoringHomoGBE ', 'train_args',
   'balance-class-weight:+ prior:s prior-n=prior_N:f post-n=post_N:f name:s ')
of('feats.energy_vad.EnergyVAD ', 'args',
   'sample-frequency=fs:i frame-length:i frame-shift:i dither:f snip-edges:b vad-energy-mean-scale:f '
   'vad-energy-threshold:f vad-frames-context:i vad-proportion-threshold:f ')
of('feats.feature_normalization.MeanVarianceNorm ', 'args',
   'no-norm-mean=norm_mean:- norm-var:+ left-context:i right-context:i ')
of('feats.frame_selector.FrameSelector ', 'args',
   'tol-num-frames:i ')
of('feats.mfcc.MFCC ', 'args',
   'sample-frequency=fs:i frame-length:i frame-shift:i fft-length:i remove-dc-offset:b preemphasis-coeff=preemph_coeff:f '
   'window-type:hamming|hanning|povey|rectangular|blackman use-fft2:b dither:f fb-type:mel_kaldi|mel_etsi|linear '
   'num-filters:i low-freq:f high-freq:f norm-filters:b num-ceps:i snip-edges:b energy-floor:f raw-energy:b use-energy:b '
   'cepstral-lifter:f input-step:wave|fft|fft_mag|log_spec|logfb output-step:fft|fft_mag|log_spec|logfb|cepstrum ')
of('generators.sequence_batch_generator_v1.SequenceBatchGeneratorV1 ', 'args',
   'scp-sep:s path-prefix:s batch-size:i class-list:s iters-per-epoch:n gen-method:full_seqs|sequential|random '
   'min-seq-length:i max-seq-length:i seq-overlap:i prune-min-length:i class-weight:balanced|unbalanced '
   'seq-weight:balanced|unbalanced init-epoch:i sg-seed:i part-idx:i num-parts:i ')
of('generators.sequence_batch_generator_v2.SequenceBatchGeneratorV2 ', 'args',
   'scp-sep:s path-prefix:s batch-size:i class-list:s iters-per-epoch:n num-egs-per-class:i num-egs-per-utt:i '
   'min-seq-length:i max-seq-length:i prune-min-length:i class-weight:balanced|unbalanced init-epoch:i sg-seed:i '
   'part-idx:i num-parts:i ')
of('transforms.cent_whiten.CentWhiten transforms.cent_whiten_up.CentWhitenUP transforms.lnorm.LNorm '
   'transforms.lnorm_up.LNormUP ', 'args',
   'update-mu:b update-t=update_T:b name:s ')
of('transforms.gaussianizer.Gaussianizer ', 'args',
   'max-vectors:i name:s ')
of('transforms.pca.PCA ', 'args',
   'update-mu:b update-t=update_T:b pca-dim:i name:s ')
of('io.audio_reader.SequentialAudioReader ', 'args',
   'wav-scale:f part-idx:i num-parts:i ')
of('io.copy_feats.CopyFeats ', 'args',
   'scp-sep:s path-prefix:s part-idx:i num-parts:i compress:+ '
   'compression-method:auto|speech-feat|2byte-auto|2byte-signed-integer|1byte-auto|1byte-unsigned-integer|1byte-0-1 ')
of('io.data_rw_factory.DataWriterFactory ', 'args',
   'scp-sep:s compress:+ '
   'compression-method:auto|speech-feat|2byte-auto|2byte-signed-integer|1byte-auto|1byte-unsigned-integer|1byte-0-1 ')
of('io.data_rw_factory.SequentialDataReaderFactory ', 'args',
   'scp-sep:s path-prefix:s part-idx:i num-parts:i ')
of('io.data_rw_factory.RandomAccessDataReaderFactory ', 'args',
   'scp-sep:s path-prefix:s ')


def value(ctx, kind):
    """(words after the option, value of the parameter)"""
    if kind == '+':
        return [], True
    if kind == '-':
        return [], False
    if kind == 's':
        v = ctx.pick(['a b', 'x.y', '/tmp/z', 'ab', '=', '7'])
        return [v], v
    if kind == 'i*':
        v = [ctx.int(0, 9) for i in range(ctx.int(1, 4))]
        return [str(i) for i in v], v
    if kind == 'b':
        v = ctx.flip()
        return [ctx.pick(['true', 'True', 'yes', 't', 'Y'] if v else ['false', 'False', 'no', 'f', 'N'])], v
    if kind == 'n':
        v = ctx.pick(['auto', ctx.int(1, 99)])
        return [str(v)], v
    if kind == 'i':
        v = ctx.int(1, 999)
        return [str(v)], v
    if kind == 'f':
        v = ctx.int(1, 999) / 8.
        return [ctx.pick(['%r', '%e', '%.3f']) % v], v
    v = ctx.pick(kind.split('|'))
    return [v], v


def pick_options(ctx, table, some=True):
    """words for some of the options and the parameters that they give"""
    words, want = [], {}
    for i in ctx.rng.permutation(len(table)):
        flag, par, kind = table[i]
        if some and ctx.flip(.5) or par in want:
            continue
        w, want[par] = value(ctx, kind)
        words.append((flag, w))
    return words, want


def argv(ctx, words, prefix):
    out = []
    for flag, w in words:
        o = '--' + ('' if prefix is None else prefix + '-') + flag
        if len(w) == 1 and ctx.flip(.4):
            out.append(o + '=' + w[0])
        else:
            out += [o] + w
    return out


def methods(row):
    c = getattr(importlib.import_module('hyperion.' + row[0]), row[1])
    return c, getattr(c, 'add_argparse_' + row[2]), getattr(c, 'filter_' + row[2])


def equal(ctx, got, want, label, *info):
    ctx.check(type(got) is type(want) and got == want, label, *(info + (got, want)))


@case(quick=400, mult=8)
def options(ctx):
    """one parser with the options of several objects, of the same or other classes: each object gets its own"""
    rows = [TABLE[ctx.int(0, len(TABLE) - 1)]]
    groups = ctx.int(1, 3)
    if groups > 1:
        for i in range(groups - 1):
            rows.append(rows[0] if ctx.flip() else TABLE[ctx.int(0, len(TABLE) - 1)])
        names = [str(v) for v in ctx.rng.permutation(['aa', 'bb', 'tr', 'v'])[:groups]]
        if ctx.flip(.4):
            names[0] = None
    else:
        names = [ctx.pick([None, None, 'pre', 'x'])]
    p = argparse.ArgumentParser()
    words, want = [], []
    for r, name in zip(rows, names):
        c, add, flt = methods(r)
        add(p, **({} if name is None and ctx.flip() else dict(prefix=name)))
        w, v = pick_options(ctx, r[3])
        need = [(flag, par, k) for flag, par, k in r[3] if flag == 'model-file' and par not in v]
        for flag, par, k in need:
            a, v[par] = value(ctx, k)
            w.append((flag, a))
        words += argv(ctx, w, name)
        want.append(v)
        ctx.event('options', len(w))
    try:
        args = vars(p.parse_args(words))
    except SystemExit:
        return ctx.check(False, 'the parser refuses its options', words)
    none = vars(p.parse_args(sum([argv(ctx, [(f, value(ctx, k)[0]) for f, q, k in r[3] if f == 'model-file'], n)
                                  for r, n in zip(rows, names)], [])))
    for r, name, v in zip(rows, names, want):
        c, add, flt = methods(r)
        got = flt(name, **args) if ctx.flip() else flt(prefix=name, **args) if name is not None or ctx.flip() else flt(**args)
        for par, x in v.items():
            ctx.check(par in got, 'an option does not reach its object', r[1], r[2], par, words)
            equal(ctx, got[par], x, 'value of an option', r[1], r[2], par, words)
        rest = flt(name, **none)
        for flag, par, k in r[3]:
            if par not in v:
                ctx.check(par in got, 'an option does not reach its object', r[1], r[2], par, words)
                ctx.check(got[par] == rest[par] or got[par] is rest[par] or flag == 'model-file',
                          'default of an option changes with the other options', r[1], r[2], par, got[par], rest[par])
        # of the options there are
        few = {k: x for k, x in args.items() if ctx.flip()}
        part = flt(name, **few)
        ctx.check(all(k in got and (got[k] is x or got[k] == x) for k, x in part.items()), 'options of a part', r[1], part)
    ctx.sig(*[(r[1], r[2], n is None) for r, n in zip(rows, names)])
    ctx.sample(objects=[r[1] for r in rows], words=words)


SK = dict(penalty='penalty', C='C', loss='loss', use_bias='fit_intercept', max_iter='max_iter', dual='dual', tol='tol', solver='solver',
          multi_class='multi_class', verbose='verbose', warm_start='warm_start', num_jobs='n_jobs')
OBJECTS = ['CentWhiten', 'CentWhitenUP', 'LNorm', 'LNormUP', 'PCA', 'Gaussianizer', 'LinearGBE', 'LinearGBEUP', 'QScoringHomoGBE', 'LinearSVMC',
           'LogisticRegression', 'BinaryLogisticRegression', 'MFCC', 'EnergyVAD', 'MeanVarianceNorm', 'FrameSelector', 'PLDAFactory']


@case(quick=300, mult=8)
def objects(ctx):
    """the object made with the options of the command line has them"""
    rows = [r for r in TABLE if r[1] in OBJECTS and r[2] != 'eval_args']
    r = rows[ctx.int(0, len(rows) - 1)]
    c, add, flt = methods(r)
    name = ctx.pick([None, 'x'])
    p = argparse.ArgumentParser()
    add(p, prefix=name)
    words, want = pick_options(ctx, r[3])
    if r[1] == 'MFCC':                  # consistent steps and sizes
        order = ['wave', 'fft', 'fft_mag', 'log_spec', 'logfb', 'cepstrum']
        if order.index(want.get('input_step', 'wave')) > order.index(want.get('output_step', 'cepstrum')):
            return ctx.check(True, 'no way back')
        for k, f, v in (('fs', 'sample-frequency', 8000), ('num_filters', 'num-filters', 20), ('num_ceps', 'num-ceps', 9), ('low_freq', 'low-freq', 20.),
                        ('high_freq', 'high-freq', 3000.), ('frame_length', 'frame-length', 32), ('frame_shift', 'frame-shift', 7),
                        ('fft_length', 'fft-length', 256)):
            words = [w for w in words if w[0] != f] + [(f, [str(v)])]
            want[k] = v
    if r[1] == 'EnergyVAD':
        want['vad_proportion_threshold'] = v = ctx.pick([.25, .5, .875])
        words = [w for w in words if w[0] != 'vad-proportion-threshold'] + [('vad-proportion-threshold', [str(v)])]
    if 'plda_type' not in want and r[1] == 'PLDAFactory':
        words, want['plda_type'] = words + [('plda-type', ['plda'])], 'plda'
    args = flt(name, **vars(p.parse_args(argv(ctx, words, name))))
    if r[1] == 'PLDAFactory':
        from hyperion.pdfs.plda import FRPLDA, PLDA, SPLDA
        m = c.create_plda(**args)
        ctx.same(type(m).__name__, dict(frplda=FRPLDA, splda=SPLDA, plda=PLDA)[want.pop('plda_type')].__name__, 'class of the PLDA')
        has = dict(FRPLDA=['mu', 'B', 'W'], SPLDA=['mu', 'V', 'W'], PLDA=['mu', 'V', 'U', 'D'])[type(m).__name__]
        own = ['name'] + ['update_' + k for k in has] + dict(FRPLDA=['fullcov_W'], SPLDA=['fullcov_W', 'y_dim'], PLDA=['y_dim', 'z_dim', 'floor_iD'])[type(m).__name__]
        want = {k: v for k, v in want.items() if k in own}
    else:
        m = c(**args)
    conf = m.get_config() if hasattr(m, 'get_config') else {}
    sk = getattr(m, 'lr', getattr(m, 'svm', None))
    for k, v in want.items():
        seen = 0
        if k == 'bias_scaling' and not r[1].endswith('SVMC'):
            continue
        if k in conf:
            seen += 1
            ctx.check(conf[k] == v, 'configuration of the object', r[1], k, conf[k], v)
        if hasattr(m, k) and not callable(getattr(m, k)):
            seen += 1
            ctx.check(getattr(m, k) == v, 'option of the object', r[1], k, getattr(m, k), v)
        if sk is not None and k in SK and hasattr(sk, SK[k]):
            seen += 1
            ctx.check(getattr(sk, SK[k]) == v, 'option of the classifier', r[1], k, getattr(sk, SK[k]), v)
        if sk is not None and k == 'lambda_reg':
            ctx.close(1 / sk.C, v, 'regularisation of the classifier')
        ctx.event('seen options', seen > 0)
    ctx.sig(r[1], tuple(sorted(want)))
    ctx.sample(object=r[1], words=words)


# options whose default on the command line is that of the tools and not of the class
TOOLS = dict(BinaryLogisticRegression='lambda_reg solver prior', LinearGBE='balance_class_weight prior_beta prior_nu',
             LinearGBEUP='balance_class_weight prior_beta prior_nu', LinearSVMC='balance_class_weight', LogisticRegression='multi_class',
             QScoringHomoGBE='balance_class_weight', MeanVarianceNorm='left_context right_context',
             SequenceBatchGeneratorV1='path_prefix batch_size', SequenceBatchGeneratorV2='path_prefix batch_size')


@case(quick=60, mult=8)
def defaults(ctx):
    """options that are not given leave the object as its class makes it"""
    rows = [r for r in TABLE if not r[1].endswith('Factory') and r[2] != 'eval_args']
    r = rows[ctx.int(0, len(rows) - 1)]
    c, add, flt = methods(r)
    name = ctx.pick([None, 'x'])
    p = argparse.ArgumentParser()
    add(p, prefix=name)
    words, given = pick_options(ctx, r[3])
    got = flt(name, **vars(p.parse_args(argv(ctx, words, name))))
    own = {}
    for k in c.__mro__:
        for q in inspect.signature(k.__init__).parameters.values() if '__init__' in vars(k) else ():
            own.setdefault(q.name, q.default)
    n = 0
    for flag, par, k in r[3]:
        if par not in given and par in own and par != 'name' and par not in TOOLS.get(r[1], '').split():
            n += 1
            ctx.check(got[par] == own[par], 'default of an option is not that of the class', r[1], par, got[par], own[par])
    ctx.event('defaults', n)
    ctx.sig(r[1], name is None)
