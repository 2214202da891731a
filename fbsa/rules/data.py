"""Datasets: restoration masks, corruption, enumeration, splits."""
from ..rule import *
from .smc import VFG, NOTE, ASM
from .. import arr as ar

I = 'fbs.data.images.'


def big(name, k=16):
    """An image side of at least k pixels."""
    return scalar(add(dim(name), const(k)))


def mask_parts(cx, m):
    return tuple(cx.it.getattr(m, a) for a in ('unobs_inds_ravelled', 'obs_inds_ravelled'))


@rule('D01', VFG, NOTE, ASM + ['image sides are multiples of the super-resolution rate'], 12)
def d01(cx):
    con = I + 'ImageRestore'
    C = scalar(add(dim('C'), ONE))
    cases = [('inpaint-15', 15, (big('W'), big('H'), C), 'W x H > 15'), ('inpaint-15', 15, (28, 28, 1), '28 x 28'),
             ('inpaint-32', 32, (64, 64, 3), '64 x 64'), ('inpaint-20', 20, (48, 40, 3), '48 x 40'),
             ('inpaint-40', 40, (32, 48, 3), '32 x 48')]
    for r in (2, 4):
        cases.append((f'supr-{r}', r, (scalar(mul(const(r), add(dim('W'), ONE))), scalar(mul(const(r), add(dim('H'), ONE))), C),
                      f'multiples of {r}'))
    cases += [('supr-4', 4, (28, 28, 1), '28 x 28'), ('supr-8', 8, (64, 64, 3), '64 x 64')]
    for task, s, shp, nm in cases:
        for rnd in ((True, False) if 'supr' in task else (True,)):
            ds = lambda: cx.call(I + 'ImageRestore', task, shp, rnd)
            law, extra = ('data:inpaint', []) if 'inpaint' in task else ('data:supr', [rnd])
            tag = f'{task}{"" if rnd else ",fixed"} on {nm}'
            cx.law(f'mask[{tag}]', lambda: mask_parts(cx, cx.call(cx.it.getattr(ds(), 'gen_mask'), key())), [], law,
                   sargs=[key(), shp[0], shp[1], s] + extra, cons=con + '.gen_mask', labels=['unobserved', 'observed'],
                   rule='the two index sets partition the pixels')
            cx.law(f'unobs_shape[{tag}]', lambda: cx.it.getattr(ds(), 'unobs_shape'), [],
                   lambda: shape_law(cx, law, shp, s, extra), cons=con + '.__init__',
                   rule='declared shape of the unobserved part is the shape of the index set')


def shape_law(cx, law, shp, s, extra):
    u = lift(cx.call(law, key(), shp[0], shp[1], s, *extra)[0])
    return (scalar(u.shape[0]), shp[2])


@rule('D02', VFG, NOTE, ASM + ['mask index sets are distinct, disjoint and cover the image (decided by D01)'], 9)
def d02(cx):
    con = I + 'ImageRestore'
    W, H, C = (dim(x) for x in 'WHC')
    p, q = dim('p'), dim('q')
    un, ob = fvar('unobs', p, kind='i'), fvar('obs', q, kind='i')
    for x in (un, ob):
        ar.INJ.add(x.node())
    ar.DISJOINT.add(frozenset((un.node(), ob.node())))
    for task in ('inpaint-15', 'supr-4'):
        for nb in (0, 1, 2):
            B = tuple(dim(f'b{i}') for i in range(nb))
            ds = lambda: cx.call(I + 'ImageRestore', task, (scalar(W), scalar(H), scalar(C)))
            mk_ = (lambda: cx.call(I + 'InpaintingMask', scalar(dim('w')), scalar(dim('h')), fvar('shift', kind='i'), un, ob)) \
                if 'inpaint' in task else (lambda: cx.call(I + 'SRMask', 4, un, ob))
            img, x, y = fvar('img', B + (W, H, C)), fvar('x', B + (p, C)), fvar('y', B + (q, C))
            dims = [scalar(W), scalar(H), scalar(C)]
            do = lambda n, *a: cx.call(cx.it.getattr(ds(), n), *a)
            cx.law(f'unpack[{task}, {nb} batch axes]', lambda: do('unpack', img, mk_()), [], 'data:unpack',
                   sargs=[img, un, ob] + dims, cons=con + '.unpack', labels=['unobserved', 'observed'],
                   rule='the pixels at the two index sets')
            cx.law(f'concat[{task}, {nb} batch axes]', lambda: do('concat', x, y, mk_()), [], 'data:concat',
                   sargs=[x, y, un, ob] + dims, cons=con + '.concat', labels=['image'],
                   rule='each part written to its own index set')
            cx.law(f'unpack(concat)[{task}, {nb} batch axes]', lambda: do('unpack', do('concat', x, y, mk_()), mk_()), [],
                   lambda: (x, y), cons=con + '.concat', labels=['unobserved', 'observed'], rule='inverse pair')


def with_data(cx, ds, n, xs):
    ds.attrs['n'], ds.attrs['xs'] = n, xs
    return ds


@rule('D03', VFG, NOTE, ASM, 6)
def d03(cx):
    n, b, i = scalar(add(dim('n'), ONE)), scalar(add(dim('b'), ONE)), fvar('i', kind='i')
    W, H, C = (scalar(dim(x)) for x in 'WHC')
    xs = fvar('xs', n.body, dim('W'), dim('H'), dim('C'))
    base = 'fbs.data.base.Dataset'
    rest = lambda: with_data(cx, cx.call(I + 'ImageRestore', 'inpaint-15', (W, H, C)), n, xs)

    def image(task):
        ds = with_data(cx, cx.call(I + 'Image'), n, xs)
        ds.attrs['task'], ds.attrs['image_shape'] = task, (W, H, C)
        return ds

    do = lambda ds, m, *a, **k: cx.call(cx.it.getattr(ds, m), *a, _kw=k)
    q = dim('q')
    inds = fvar('inds', q, kind='i')

    def epoch(ds, given):
        chunks = do(ds, 'init_enumeration', key(), b)
        mine = ar.index(chunks, (i,)) if isinstance(chunks, ar.Arr) else chunks.at(i.body)
        if given:
            return mine, do(ds, 'enumerate_subset', i, perm_inds=chunks)
        return mine, do(ds, 'enumerate_subset', i)

    for nm, ds in (('ImageRestore', rest),):
        for given in (False, True):
            cx.law(f'{nm}: chunk i of an epoch[perm_inds {"given" if given else "kept"}]', lambda: epoch(ds(), given), [],
                   'data:enumeration', sargs=[key(), n, b, xs, i], cons=base + '.init_enumeration',
                   labels=['indices', 'samples'],
                   rule='consecutive blocks of one random permutation: every visited sample once per epoch')
    cx.law('draw_subset', lambda: do(with_data(cx, cx.call(base), n, fvar('xs', n.body, dim('d'))), 'draw_subset', key(), b), [],
           'data:subset', sargs=[key(), n, b, fvar('xs', n.body, dim('d'))], cons=base + '.draw_subset', labels=['samples'],
           rule='uniform without replacement')

    plain = fvar('xs', n.body, dim('d'))
    for given in (False, True):
        cx.law(f'Dataset: chunk i of an epoch[perm_inds {"given" if given else "kept"}]',
               lambda: epoch(with_data(cx, cx.call(base), n, plain), given), [], 'data:enumeration', sargs=[key(), n, b, plain, i],
               cons=base + '.enumerate_subset', labels=['indices', 'samples'],
               rule='consecutive blocks of one random permutation: every visited sample once per epoch')
    for sh in ((), (dim('p'),), (dim('p'), dim('d')), (dim('p'), dim('w'), dim('h'))):
        z = fvar('z', *sh)
        cx.law(f'reshape[{len(sh)} axes]', lambda: do(cx.call(base), 'reshape', z), [], 'data:rows', sargs=[z],
               cons=base + '.reshape', labels=['rows'], rule='rows of samples: scalars become 1 x 1, vectors columns')
    tab = fvar('tab', dim('p'), dim('d'))
    cx.law('standardise', lambda: do(cx.call(base), 'standardise', tab), [], 'data:standard', sargs=[tab],
           cons=base + '.standardise', labels=['rows'], rule='zero mean and unit deviation in each column')

    def restore_sample():
        ds = rest()
        x, y, m = do(ds, 'sampler', key())
        return (x, y) + mask_parts(cx, m)

    cx.law('ImageRestore.sampler', restore_sample, [], 'data:sample_restore',
           sargs=[key(), n, xs, cx.it.getattr(rest(), 'gen_mask'), W, H, C], cons=I + 'ImageRestore.sampler',
           labels=['image', 'observed', 'unobserved set', 'observed set'],
           rule='uniform image, its own mask, observed part of that image under that mask')
    cor = opqf('corrupt', lambda i_, a, k: ('f', tuple(lift(a[1]).shape)))

    def pairs():
        ds = image('supr')
        ds.attrs['corrupt'] = cor
        return ds

    cx.law('Image.sampler', lambda: do(pairs(), 'sampler', key()), [], 'data:sample_pair', sargs=[key(), n, xs, cor],
           cons=I + 'Image.sampler', labels=['clean', 'corrupted'], rule='a uniform image and its own corruption')
    cx.law('Image.enumerate_subset', lambda: do(pairs(), 'enumerate_subset', 0, perm_inds=[inds], key=key()), [],
           'data:enumerate_pairs', sargs=[key(), xs, inds, cor], cons=I + 'Image.enumerate_subset',
           labels=['clean', 'corrupted'], rule='each image with its own independently drawn corruption')


@rule('D05', VFG, NOTE, ASM, 10)
def d05(cx):
    def image(shp, task='supr'):
        ds = cx.call(I + 'Image')
        ds.attrs['task'], ds.attrs['image_shape'] = task, shp
        return ds

    do = lambda ds, m, *a, **k: cx.call(cx.it.getattr(ds, m), *a, _kw=k)
    for shp in ((28, 28, 1), (32, 48, 3)):
        img = fvar('img', *[const(s) for s in shp])
        tag = ' x '.join(map(str, shp))
        cx.law(f'downsample[{tag}]', lambda: do(image(shp), 'downsample', key(), img), [], 'data:downsample',
               sargs=[key(), img], cons=I + 'Image.downsample', labels=['image'],
               rule='nearest-neighbour down and up again, ratio 4 or 8 at random')
        cx.law(f'supr task[{tag}]', lambda: do(image(shp, 'supr'), 'corrupt', key(), img), [], 'data:downsample',
               sargs=[key(), img], cons=I + 'Image.corrupt', labels=['image'], rule='task supr is the down-sampling')
        for s in (15, 8):
            cx.law(f'inpaint-{s} task[{tag}]', lambda: do(image(shp, f'inpaint-{s}'), 'corrupt', key(), img), [],
                   'data:paint', sargs=[key(), img, s], cons=I + 'Image.corrupt', labels=['image'],
                   rule='one of 16 equally likely squares set to zero, other pixels kept')
        cx.law(f'deconv-15 task[{tag}]', lambda: do(image(shp, 'deconv-15'), 'corrupt', key(), img), [], 'data:blur',
               sargs=[key(), img, 15], cons=I + 'Image.corrupt', labels=['image'],
               rule='Gaussian blur of random width, rescaled to the unit range')
    B = rest_dim('b')
    C = dim('C')
    x, y = fvar('x', dim('w'), dim('h'), C), fvar('y', dim('w'), dim('h'), C)
    xy = fvar('xy', dim('w'), dim('h'), mul(const(2), C))
    shp = (scalar(dim('w')), scalar(dim('h')), scalar(C))
    for ex in (False, True):
        cx.law(f'concat[expand={ex}]', lambda: do(image(shp), 'concat', x, y, ex), [], 'data:join', sargs=[x, y, ex],
               cons=I + 'Image.concat', labels=['pair'], rule='parts stacked along the last axis')
    cx.law('unpack', lambda: do(image(shp), 'unpack', xy), [], 'data:split_channels', sargs=[xy, scalar(C)],
           cons=I + 'Image.unpack', labels=['clean', 'corrupted'], rule='first C channels and the rest')
    cx.law('unpack(concat)', lambda: do(image(shp), 'unpack', do(image(shp), 'concat', x, y)), [], lambda: (x, y),
           cons=I + 'Image.unpack', labels=['clean', 'corrupted'], rule='inverse pair')
    im = fvar('img', dim('w'), dim('h'), C)
    cx.law('normalise[clip]', lambda: cx.call(I + 'normalise', im), [], 'data:clip', sargs=[im], cons=I + 'normalise',
           labels=['image'], rule='values clipped to [0, 1]')
    cx.law('normalise[norm]', lambda: cx.call(I + 'normalise', im, 'norm'), [], 'data:rescale', sargs=[im],
           cons=I + 'normalise', labels=['image'], rule='each channel rescaled to [0, 1]')


def loader(cx, files):
    """np.load returns the arrays the dataset makers write."""
    def ext(it, p, args, kwargs):
        if p == 'np.io' and args and args[0] in files:
            return files[args[0]]
        raise Unmodelled(f'library function {p}')
    cx.it.unknown_ext = ext


@rule('D04', VFG, NOTE, ASM + ['files hold the arrays the repository\'s own dataset makers write'], 10)
def d04(cx):
    mnist = {'X': fvar('X', const(60000), const(28), const(28)), 'X_test': fvar('X_test', const(10000), const(28), const(28))}
    cifar = {'train_data': fvar('train_data', const(50000), const(32), const(32), const(3)),
             'test_data': fvar('test_data', const(10000), const(32), const(32), const(3))}
    celeba = {r: fvar(f'celeba{r}', const(30000), const(r), const(r), const(3)) for r in (64, 128)}
    loader(cx, {'mnist.npz': mnist, 'cifar10.npz': cifar, 'celeba64.npy': celeba[64], 'celeba128.npy': celeba[128]})
    labels = ['number of samples', 'samples', 'height', 'width', 'channels']

    def parts(ds):
        return cx.it.getattr(ds, 'n'), cx.it.getattr(ds, 'xs'), cx.it.getattr(ds, 'image_shape')

    for cls, task in (('MNIST', 'deconv-15'), ('MNISTRestore', 'inpaint-15'), ('MNISTRestore', 'supr-4')):
        for test in (False, True):
            cx.law(f'{cls}[{task}, test={test}]', lambda: parts(cx.call(I + cls, key(), 'mnist.npz', task, test)), [],
                   'data:whole', sargs=[key(), mnist['X_test' if test else 'X'], 28, 28, 1], cons=I + cls + '.__init__',
                   labels=labels, rule='a random order of the whole designated array')
    for test in (False, True):
        cx.law(f'CIFAR10[test={test}]', lambda: parts(cx.call(I + 'CIFAR10', key(), 'cifar10.npz', 'supr', test)), [],
               'data:whole', sargs=[key(), cifar['test_data' if test else 'train_data'], 32, 32, 3],
               cons=I + 'CIFAR10.__init__', labels=labels, rule='a random order of the whole designated array')
    for cls, task in (('CelebAHQ', 'supr'), ('CelebAHQRestore', 'supr-4'), ('CelebAHQRestore', 'inpaint-32')):
        for r in (64, 128):
            for test in (False, True):
                cx.law(f'{cls}[{task}, {r} pixels, test={test}]',
                       lambda: parts(cx.call(I + cls, key(), f'celeba{r}.npy', r, task, test)), [], 'data:held_out',
                       sargs=[key(), celeba[r], test, 1000, r, r, 3], cons=I + cls + '.__init__', labels=labels,
                       rule='test set: the first 1000 images; training set: all the others')
    cx.it.unknown_ext = None


@rule('D06', VFG, NOTE, ASM, 8)
def d06(cx):
    c = 'fbs.data.bayesian.Crescent'
    FACTS_pos('xi')
    n, psi, xi = scalar(add(dim('n'), ONE)), fvar('psi'), fvar('xi')
    mk_ = lambda diag=True: cx.call(c, 10, psi, xi)
    do = lambda m, *a: cx.call(cx.it.getattr(mk_(), m), *a)
    phi, y, xy = fvar('phi', const(2)), fvar('y'), fvar('xy', const(3))
    cx.law('sampler', lambda: do('sampler', key(), n), [], 'data:crescent_sample', sargs=[key(), n, psi, xi],
           cons=c + '.sampler', labels=['phi', 'y'], rule='prior N(0, diag(2, 1)), then the emission plus N(0, xi) noise')
    cx.law('emission', lambda: do('emission', phi, psi), [], 'data:crescent_emission', sargs=[phi, psi],
           cons=c + '.emission', labels=['mean'], rule='documented emission')

    def prior(diag):
        ds = mk_()
        ds.attrs['cov_is_diag'] = diag
        return cx.call(cx.it.getattr(ds, 'log_prior_pdf'), phi)

    for d in (True, False):
        cx.law(f'log prior[diagonal={d}]', lambda: prior(d), [], 'data:crescent_log_prior', sargs=[phi],
               cons=c + '.log_prior_pdf', labels=['log density'], rule='log density of N(0, diag(2, 1))')
    cx.law('log likelihood', lambda: do('log_cond_pdf_likelihood', y, phi), [], 'data:crescent_log_lik',
           sargs=[y, phi, psi, xi], cons=c + '.log_cond_pdf_likelihood', labels=['log density'],
           rule='log density of N(emission, xi)')
    cx.law('score', lambda: do('score', xy), [], 'data:crescent_score', sargs=[xy, psi, xi], cons=c + '.score',
           labels=['score'], rule='gradient of the log joint density with respect to (phi, y)')
    for B in ((), (dim('b'),)):
        z = fvar('z', *B, const(3))
        cx.law(f'unpack[{len(B)} batch axes]', lambda: do('unpack', z), [], 'data:crescent_unpack', sargs=[z],
               cons=c + '.unpack', labels=['phi', 'y'], rule='first two coordinates and the last')
    p, q = scalar(add(dim('p'), const(2))), scalar(add(dim('q'), const(2)))
    mesh = fvar('mesh', p.body, q.body, const(2))
    cx.law('posterior', lambda: do('posterior', mesh, y), [], 'data:crescent_posterior', sargs=[mesh, y, psi, xi],
           cons=c + '.posterior', labels=['density'], rule='prior times likelihood, normalised by trapezoids over the mesh')
