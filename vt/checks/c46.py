"""C46 the tools that train embeddings with keras: data, validation, what is frozen, resumed trainings"""
import csv
import os
import numpy as np

from ..core import case
from ..tool import tool
from .c43 import mods, randomise

STOP = 'the training dies'


class Recorder:
    """stands in the place of the optimisation: takes the batches, changes the weights, and tells the callbacks"""

    def __init__(self, ctx, die=None):
        self.ctx, self.die, self.rng = ctx, die, np.random.RandomState(ctx.seedint())
        self.compiled, self.fits, self.after = [], 0, {}

    def __enter__(self):
        from keras.models import Model
        me = self
        self.old = Model.fit_generator, Model.compile

        def compile(model, *a, **kw):
            me.compiled.append(frozen(model))
            return me.old[1](model, *a, **kw)

        def fit_generator(model, generator, steps_per_epoch=None, epochs=1, verbose=1, callbacks=None, validation_data=None,
                          validation_steps=None, class_weight=None, max_queue_size=10, workers=1, use_multiprocessing=False,
                          shuffle=True, initial_epoch=0):
            return me.fit(model, generator, steps_per_epoch, epochs, callbacks or [], validation_data, validation_steps, initial_epoch)
        Model.fit_generator, Model.compile = fit_generator, compile
        return self

    def __exit__(self, *a):
        from keras.models import Model
        Model.fit_generator, Model.compile = self.old

    def fit(self, model, gen, steps, epochs, cbs, val, vsteps, first):
        self.fits += 1
        self.model, self.first, self.epochs, self.steps, self.vsteps, self.val = model, first, epochs, steps, vsteps, val is not None
        self.start = [np.array(w) for w in model.get_weights()]
        self.train, self.held, self.logs = [], [], []
        self.opt, self.loss, self.weights = model.optimizer, model.loss, getattr(model, 'loss_weights', None)
        self.stopped = False
        model.stop_training = False
        for cb in cbs:
            cb.set_params({})
            cb.set_model(model)
        for cb in cbs:
            cb.on_train_begin({})
        for e in range(first, epochs):
            for cb in cbs:
                cb.on_epoch_begin(e, {})
            self.train.append([next(gen) for _ in range(int(steps))])
            ws = [np.array(w) for w in model.get_weights()]
            model.set_weights([w + .05 * self.rng.standard_normal(w.shape) for w in ws] if e % 2 else [w * (1 + .1 * self.rng.uniform(size=w.shape)) for w in ws])
            names = ['loss', 'acc']
            if val is not None:
                self.held.append([next(val) for _ in range(int(vsteps))])
                names += ['val_loss', 'val_acc']
            logs = {n: float(self.rng.uniform()) for n in names}
            self.logs.append(logs)
            self.after[e] = [np.array(w) for w in model.get_weights()]
            if self.die is not None and len(self.train) > self.die:
                raise SystemExit(0)         # before anything of this epoch is saved
            for cb in cbs:
                cb.on_epoch_end(e, dict(logs))
            if model.stop_training:
                break
        for cb in cbs:
            cb.on_train_end({})


def frozen(model, out=None, up=False, where=''):
    """what is frozen: {network/layer: bool}"""
    out = {} if out is None else out
    for l in model.layers:
        f = up or not l.trainable
        if hasattr(l, 'layers'):
            frozen(l, out, f, l.name + '/')
        elif l.get_weights():
            out[where + l.name] = f
    return out


KIND = {'keras-train-cat-seq-embed-gen-v1': ('prepool', 'postpool'), 'keras-train-cat-seq-embed-lde-gen-v1': ('prepool', 'postpool'),
        'keras-train-cat-seq-embed-gen-v2': ('enc', 'pt')}
# the embeddings are posteriors: (class, options of the networks, options of the weights of the losses after the first)
POST = {'keras-train-cat-seq-q-embed': ('SeqQEmbed', ('embed',), ('kl-weight',)),
        'keras-train-cat-tied-dvae': ('TiedDVAE_QY', ('qy', 'pt'), ('kl-weight',)),
        'keras-train-cat-tied-sup-vae': ('TiedSupVAE_QYQZgY', ('qy', 'pt', 'qz', 'px'), ('px-weight', 'pt-weight', 'kl-qy-weight', 'kl-qz-weight'))}


def corpus(ctx):
    from hyperion.io import DataWriterFactory as DWF
    nc = ctx.int(2, 4)
    cls = ['c%d' % i for i in ctx.rng.permutation(9)[:nc]]
    d = ctx.int(1, 3)
    utts, lab, X = [], {}, {}
    for c in cls:
        for j in range(ctx.int(2, 5)):
            u = 'u%s-%d' % (c, j)
            utts.append(u)
            lab[u] = c
            X[u] = ctx.rng.standard_normal((ctx.int(12, 30), d)).astype('float32') + .5
    spec = 'h5:' + ctx.path('f.h5')
    w = DWF.create(spec)
    w.write(utts, [X[u] for u in utts])
    del w
    lists = {}
    val = [u for u in utts if u.endswith('-0')]
    for n, us in (('train', [u for u in utts if u not in val]), ('val', val)):
        us = [us[i] for i in ctx.rng.permutation(len(us))]
        with open(ctx.path(n), 'w') as f:
            f.writelines('%s %s\n' % (u, lab[u]) for u in us)
        lists[n] = ctx.path(n)
    with open(ctx.path('classes'), 'w') as f:
        f.writelines(c + '\n' for c in cls)
    return dict(spec=spec, d=d, nc=nc, X=X, lab=lab, cls=cls, classes=ctx.path('classes'), **lists)


def xnets(ctx, c, o, name, A):
    """networks of an x-vector"""
    lde = 'lde' in name
    o['pooling'] = pool = ctx.pick(['mean+std', 'mean', 'mean+logvar'] + ['lde'] * 3 * lde)
    pd, ncomp = ctx.int(1, 3), ctx.int(1, 3)
    if lde:
        o['lde-num-comp'] = ncomp
    n = ctx.int(1, 2)
    enc = A.TDNNV1(n, 1, pd, 3, 3, c['d'], [3] * n, 1, use_batchnorm=ctx.flip())
    pt = A.FFNetV1(2, c['nc'], 4, dict(mean=pd, lde=ncomp * pd).get(pool, 2 * pd), output_activation='softmax', hidden_activation='relu', use_batchnorm=ctx.flip())
    return dict(zip([k for k in KIND[name]], [enc, pt]))


def qnets(ctx, c, o, name, A):
    """networks of an embedding that is a posterior"""
    d, z, n = ctx.int(1, 3), ctx.int(1, 2), ctx.int(1, 2)
    f = 'qy-pool-in-fmt' if 'sup' in name else 'pooling-input'
    if ctx.flip():
        o[f] = ctx.pick(['nat', 'mean']) + '+' + ctx.pick(['logitvar', 'logprec-1', 'logvar', 'logprec'])
    if 'sup' in name:
        o['pt-weight'] = 1.
    for k in POST[name][2]:
        if ctx.flip(.7):
            o[k] = ctx.pick([.25, .5, 2., 3.])
    if ctx.flip():
        o['frame-corr-penalty'] = ctx.pick([.5, .1])
    if ctx.flip():
        o['qy-min-var' if 'sup' in name else 'min-var'] = ctx.pick([.2, .5])
    nets = dict(qy=A.TDNNV1(n, 1, [d, d], 3, 3, c['d'], [3] * n, 1, use_batchnorm=ctx.flip(), name='net-qy'),
                pt=A.FFNetV1(2, c['nc'], 4, d, output_activation='softmax', name='net-pt'),
                qz=A.TDNNV1WithEmbedInputV1(1, 1, [z, z], 3, 3, c['d'], d, 1, name='net-qz'),
                px=A.TDNNV1WithEmbedInputV1(1, 1, [c['d']] * 2, 3, 3, d, z, 1, name='net-px'))
    nets['embed'] = nets['qy']
    return {k: nets[k] for k in POST[name][1]}


def setup(ctx):
    """options of a tool"""
    from hyperion.keras.keras_utils import save_model_arch
    from hyperion.transforms import TransformList, MVN
    keras, A, E, V = mods()
    c = corpus(ctx)
    name = ctx.pick(sorted(KIND) + sorted(POST))
    o = {'data-path': c['spec'], 'train-list': c['train'], 'output-path': ctx.path('out/dir'), 'class-list': c['classes'], 'batch-size': ctx.int(1, 6)}
    nets = xnets(ctx, c, o, name, A) if name in KIND else qnets(ctx, c, o, name, A)
    for opt, net in nets.items():
        save_model_arch(ctx.path(opt + '.json'), net)
        o[opt + '-net'] = ctx.path(opt + '.json')
    if ctx.flip(.7):
        o['val-list'] = c['val']
    mn = ctx.int(5, 12)
    o['min-seq-length'], o['max-seq-length'] = mn, ctx.pick([mn, mn + ctx.int(0, 6)])
    if ctx.flip(.3):
        del o['max-seq-length']
    o['iters-per-epoch'] = ctx.int(1, 2)
    o['sg-seed'] = ctx.int(1, 999)
    if 'v2' in name:
        o['num-egs-per-class'] = ctx.int(1, 2)
    else:
        o['gen-method'] = ctx.pick(['random', 'random', 'sequential', 'full_seqs'])
        if o['gen-method'] == 'full_seqs':
            del o['min-seq-length']
            o.pop('max-seq-length', None)
    if ctx.flip(.3):
        t = MVN(mu=ctx.rng.standard_normal(c['d']), s=ctx.rng.uniform(.5, 2, c['d']))
        TransformList([t]).save(ctx.path('pre.h5'))
        o['preproc-file'] = ctx.path('pre.h5')
    if name in KIND and ctx.flip(.6):
        o['loss'] = ctx.pick(['categorical_crossentropy', 'categorical_hinge', 'categorical_mbr'])
    o['optimizer'] = ctx.pick(['sgd', 'adam'])
    o['lr'] = ctx.pick([.1, .02])
    c.update(name=name, nets=nets, E=E, V=V)
    return c, o


def generators(c, o, epoch):
    """the generators of training and validation, as the options say"""
    import argparse
    from hyperion import generators as GG
    from hyperion.transforms import TransformList
    G = GG.SequenceBatchGeneratorV2 if 'v2' in c['name'] else GG.SequenceBatchGeneratorV1
    p = argparse.ArgumentParser()
    G.add_argparse_args(p)
    args = [a for k in ('class-list', 'batch-size', 'min-seq-length', 'max-seq-length', 'iters-per-epoch', 'sg-seed', 'num-egs-per-class', 'gen-method')
            if k in o for a in ('--' + k, str(o[k]))] + ['--init-epoch', str(epoch)]
    kw = G.filter_args(**vars(p.parse_args(args)))
    t = TransformList.load(o['preproc-file']) if 'preproc-file' in o else None
    a = G(o['data-path'], o['train-list'], shuffle_seqs=True, reset_rng=False, transform=t, **kw)
    b = G(o['data-path'], o['val-list'], shuffle_seqs=False, reset_rng=True, transform=t, **kw) if 'val-list' in o else None
    return a, b


def batches(ctx, r, c, o, epoch):
    """the batches that the training took are those of the generators"""
    a, b = generators(c, o, epoch)
    L = max([g.max_seq_length for g in (a, b) if g is not None])
    ctx.same(int(r.steps), int(a.steps_per_epoch), 'batches of an epoch')
    ctx.same(r.val, b is not None, 'there is validation if there is a list for it')
    if b is not None:
        ctx.same(int(r.vsteps), int(b.steps_per_epoch), 'batches of validation')
    n = 0
    for g, E, what in ((a, r.train, 'training'), (b, r.held, 'validation')):
        for e in E:
            for batch in e:
                _, x, sw, y = g.read(max_seq_length=L)
                x = np.asarray(x)
                ctx.check(len(batch) >= 2, 'inputs and targets in a batch of ' + what)
                ctx.close(np.asarray(batch[0]), x, 'features of ' + what, rtol=1e-5, atol=1e-6)
                t = batch[1]
                if c['name'] in POST:
                    sup = 'sup' in c['name']
                    ctx.same(len(t), 4 if sup else 2, 'targets of the losses, of ' + what)
                    if sup:
                        ctx.close(np.asarray(t[0]), x, 'frames to rebuild, of ' + what, rtol=1e-5, atol=1e-6)
                        w = batch[2]
                        ctx.same((len(w), w[1] is None, w[2] is None), (4, True, True), 'weights are of the frames, in ' + what)
                        for i in (0, 3):
                            ctx.close(np.asarray(w[i]), np.asarray(sw), 'weights of the frames leave the padding out, in ' + what, rtol=0, atol=0)
                    t = t[1 if sup else 0]
                ctx.same(np.asarray(t).shape, (len(x), c['nc']), 'targets of all classes, of ' + what)
                ctx.close(np.asarray(t), np.asarray(y), 'targets of ' + what, rtol=0, atol=0)
                ctx.same(x.shape[1:], (L, c['d']), 'frames of a batch of ' + what)
                n += 1
    ctx.event('batches', n)
    return L


def same_weights(ctx, got, want, label):
    ctx.same(len(got), len(want), 'number of weights of ' + label)
    for g, w in zip(got, want):
        ctx.close(np.asarray(g), w, label, rtol=1e-6, atol=1e-7)


def weights_of(c, path, L):
    from hyperion.keras.keras_model_loader import KerasModelLoader as KML
    m = KML.load(path)
    m.build(L)
    return m, m.model.get_weights()


def initial(ctx, c, o):
    """another model with the same networks"""
    nets = c['nets']
    for net in nets.values():
        randomise(ctx, net)
    name = c['name']
    if name in KIND:
        cls = c['E'].SeqEmbedLDE if 'lde' in name else c['E'].SeqEmbed
        kw = dict(num_comp=o['lde-num-comp']) if 'lde-num-comp' in o else {}
        return cls(*nets.values(), pooling=o['pooling'], loss=o.get('loss', 'categorical_crossentropy'), **kw)
    if 'q-embed' in name:
        return c['E'].SeqQEmbed(nets['embed'], c['nc'])
    if 'dvae' in name:
        return c['V'].TiedDVAE_QY(nets['qy'], nets['pt'])
    return c['V'].TiedSupVAE_QYQZgY(nets['px'], nets['qy'], nets['qz'], nets['pt'])


def freeze(ctx, c, o):
    """options to freeze, and what they freeze: {network/layer: bool}"""
    names = {net.name + '/' + l.name: False for net in c['nets'].values() for l in net.layers if l.get_weights()}
    if not ctx.flip(.4):
        return names, False
    of = lambda net: [l.name for l in net.layers if l.get_weights()]
    kinds = list(c['nets'])
    if c['name'] in POST:
        o['freeze-embed'] = True
        net = c['nets'][kinds[0]]
        names.update({net.name + '/' + l: True for l in of(net)})
        return names, True
    kind = ctx.pick(['all', 'enc', 'pt', 'both'])
    if kind == 'all':
        net = c['nets'][kinds[0]]
        o['freeze-' + kinds[0]] = True
        names.update({net.name + '/' + l: True for l in of(net)})
    for k, p in zip(('enc', 'pt'), kinds):
        if kind in (k, 'both'):
            net = c['nets'][p]
            o['freeze-%s-layers' % p] = ls = [str(l) for l in ctx.rng.permutation(of(net))[:ctx.int(1, len(of(net)))]]
            names.update({net.name + '/' + l: True for l in ls})
    return names, kind == 'all'


def losses(ctx, r, c, o):
    """what is minimised is what was asked"""
    if c['name'] in KIND:
        ctx.same(getattr(r.loss, '__name__', r.loss), o.get('loss', 'categorical_crossentropy'), 'loss')
        return
    w = [o.get(k, 0. if k == 'kl-weight' else 1.) for k in POST[c['name']][2]]
    ctx.same([float(x) for x in r.weights], w if 'sup' in c['name'] else [1.] + w, 'weights of the losses')
    ctx.event('weights of losses')


@case(quick=16, mult=8)
def trained(ctx):
    """a training from the architecture or from another model, until its end"""
    c, o = setup(ctx)
    out = o['output-path']
    o['epochs'] = ctx.int(1, 3)
    if ctx.flip(.6):
        o['save-all-epochs'] = True
    if ctx.flip(.3):
        o['monitor'] = 'loss'
    init = None
    if ctx.flip(.3):
        m = initial(ctx, c, o)
        m.build(7)
        m.save(ctx.path('init'))
        o['init-path'] = ctx.path('init')
        init = m.model.get_weights()
    names, cold = freeze(ctx, c, o)
    with Recorder(ctx) as r:
        tool(ctx, c['name'], None, True, **o)
    ctx.same(r.fits, 1, 'trainings')
    ctx.same((r.first, r.epochs), (0, o['epochs']), 'epochs of a new training')
    L = batches(ctx, r, c, o, 0)
    ctx.same(len(r.train), o['epochs'], 'epochs that were trained')
    if init is not None:
        same_weights(ctx, r.start, init, 'the initial model')
    got = {k: v for k, v in r.compiled[-1].items() if k in names}
    ctx.same(sorted(got.items()), sorted(names.items()), 'layers that are frozen')
    losses(ctx, r, c, o)
    ctx.same(type(r.opt).__name__.lower(), o['optimizer'], 'optimizer')
    ctx.close(float(np.asarray(r.opt.get_config()['lr'])), o['lr'], 'learning rate', rtol=1e-6)
    last = r.after[o['epochs'] - 1]
    m, w = weights_of(c, out + '/model', L)
    same_weights(ctx, w, last, 'the final model')
    if c['name'] in KIND:
        ctx.same(type(m).__name__, 'SeqEmbedLDE' if 'lde' in c['name'] else 'SeqEmbed', 'class of the model')
        ctx.same((m.pooling, m.loss), (o['pooling'], o.get('loss', 'categorical_crossentropy')), 'options of the model')
    else:
        ctx.same(type(m).__name__, POST[c['name']][0], 'class of the model')
        for k in POST[c['name']][2] + (('frame-corr-penalty', 'min-var', 'qy-min-var', 'pooling-input', 'qy-pool-in-fmt') if init is None else ()):
            if k in o:
                ctx.same(getattr(m, k.replace('-', '_')), o[k], 'options of the model')
    mon = o.get('monitor', 'val_loss')
    if 'save-all-epochs' in o:
        for e in range(o['epochs']):
            same_weights(ctx, weights_of(c, '%s/model.%04d' % (out, e), L)[1], r.after[e], 'the model of the epoch')
            ctx.event('checkpoints')
    elif mon in r.logs[0]:
        v = [l[mon] for l in r.logs]
        same_weights(ctx, weights_of(c, out + '/model.best', L)[1], r.after[int(np.argmin(v))], 'the best model')
    with open(out + '/train.log') as f:
        ctx.same(len(list(csv.DictReader(f))), o['epochs'], 'rows of the table')
    ctx.event('epochs', len(r.train))
    ctx.sig('trained', c['name'], o.get('pooling'), 'val-list' in o, init is not None, o.get('gen-method'), cold, 'save-all-epochs' in o)
    ctx.sample(tool=c['name'], options=' '.join(sorted(o)), batches=int(r.steps))


@case(quick=10, mult=8)
def resumed(ctx):
    """a training that died goes on with the model of its last complete epoch, from the next one"""
    c, o = setup(ctx)
    o['save-all-epochs'] = True
    o['epochs'] = E = ctx.int(1, 5)
    done, after = 0, {}
    longer = ctx.pick([None, 0, 2])
    for i in range(12):
        die = ctx.int(0, 3) if i < 6 else None
        with Recorder(ctx, die) as r:
            tool(ctx, c['name'], None, True, **o)
        ctx.same(r.fits, 1, 'trainings')
        ctx.same((r.first, r.epochs), (done, E), 'epochs of a training that goes on')
        L = batches(ctx, r, c, o, done)
        if done:
            ctx.event('resumed')
            same_weights(ctx, r.start, after[done - 1], 'the model of the last epoch that was saved')
        died = die is not None and len(r.train) > die
        after.update(r.after)
        done += len(r.train) - died
        ctx.event('trainings that died' if died else 'trainings that ended')
        if not died:
            ctx.same(done, E, 'epochs in all')
            if longer is None:
                break
            o['epochs'] = E = E + longer       # finished, and run again
            longer = None
    ctx.same(done, E, 'epochs in all')
    for e in range(E):
        same_weights(ctx, weights_of(c, '%s/model.%04d' % (o['output-path'], e), L)[1], after[e], 'the model of the epoch')
    same_weights(ctx, weights_of(c, o['output-path'] + '/model', L)[1], after[E - 1], 'the final model')
    ctx.event('epochs', E)
    ctx.sig('resumed', c['name'], i, E, 'val-list' in o)
