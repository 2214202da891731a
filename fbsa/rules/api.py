"""Documented defaults of the public functions."""
import os
from ..rule import *
from .smc import SSM, VFG, NOTE, ASM
from .csmc import CS
from .gibbs import GS, SUMM
from .sims import world

I = 'fbs.data.images.'
L = 'fbs.sdes.linear.'
SIM = 'fbs.sdes.simulators.'


def plain(v):
    """The Python value of a default, if it is one."""
    if isinstance(v, Arr):
        if v.ndim:
            return NotImplemented
        q = tm.cval(v.body)
        return NotImplemented if q is None else q
    if v is None or isinstance(v, (bool, int, float, str, Fr)):
        return v
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    return NotImplemented


def defaults(cx, name, fn, doc, call=None, summ=(), labels=None, cons=None):
    """Leaving an argument out means its documented default: the signature says so, or both calls have the same value."""
    cons = cons or fn

    def declared(p):
        f = cx.get(fn) if isinstance(fn, str) else fn() if not isinstance(fn, ip.Func) else fn
        if isinstance(f, ip.Class):
            f = f.lookup('__init__')
        if not isinstance(f, ip.Func):
            return NotImplemented
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if p in pos:
            j = pos.index(p) - (len(pos) - len(f.defaults))
            return plain(f.defaults[j]) if j >= 0 else NotImplemented
        if p in [x.arg for x in a.kwonlyargs]:
            return plain(f.kwdefaults[[x.arg for x in a.kwonlyargs].index(p)])
        return NotImplemented

    def settled():
        for p, v in doc.items():
            d = declared(p)
            if d is NotImplemented or d is None and v is not None or isinstance(d, bool) != isinstance(v, bool) or d != v:
                return False
        return True

    tag = ', '.join(f'{k}={v!r}' for k, v in doc.items())
    rule_ = 'an argument left out means its documented default'
    try:
        done = not os.environ.get('FBSA_NODECL') and settled()
    except (Unmodelled, Anchor, PathEnd):
        done = False
    if done or call is None:
        def go():
            if not done:
                raise Unmodelled('the declared defaults are not the documented ones and no call is compared')
            return len(doc)
        return cx.ob(f'{name}: {tag}', rule_, cx.where(cons), go)
    cx.law(f'{name}: {tag}', lambda: call(), [], lambda: call(**doc), cons=cons, summ=summ, labels=labels, rule=rule_)


@rule('A01', VFG + ' of the call with the argument left out and the call with the documented default', NOTE, ASM, 20)
def a01(cx):
    x0, ts, drift, disp, score = world()
    K = lambda: key()
    xT = fvar('xT', tuple(x0.shape))
    sde = Rec('sde', {'bridge_drift': opqf('bridge_drift', lambda i, a, k: ('f', tuple(lift(a[0]).shape))), 'dispersion': disp})
    defaults(cx, 'euler_maruyama', SIM + 'euler_maruyama', {'integration_nsteps': 1, 'return_path': False},
             lambda **k: cx.call(SIM + 'euler_maruyama', key(), x0, ts, drift, disp, _kw=k))
    defaults(cx, 'reverse_simulator', SIM + 'reverse_simulator', {'integration_nsteps': 1, 'integrator': 'euler-maruyama'},
             lambda **k: cx.call(SIM + 'reverse_simulator', key(), x0, ts, score, drift, disp, _kw=k))
    defaults(cx, 'doob_bridge_simulator', SIM + 'doob_bridge_simulator', {'integration_nsteps': 1, 'replace': False},
             lambda **k: cx.call(SIM + 'doob_bridge_simulator', key(), sde, x0, xT, ts, _kw=k))
    s = SSM()
    defaults(cx, 'bootstrap_filter', 'fbs.samplers.smc.bootstrap_filter', {'log': True, 'return_last': True},
             lambda **k: cx.call('fbs.samplers.bootstrap_filter', s.trans, s.lik, s.vs, s.ts, s.init, s.key, s.n_, s.res, _kw=k))
    uT, ll, ys, y0 = fvar('uT', s.du), fvar('log_ell'), fvar('ys', s.K1, s.dv), fvar('y0', s.dv)
    fwd = opqf('fwd_ys_sampler', lambda i, a, k: ('f', (s.K1, s.dv)))
    msde = Rec('sde', {'mean': opqf('sde_mean', lambda i, a, k: ('f', tuple(lift(a[2]).shape)))})
    ref = opq('ref_sampler', s.n, s.du)
    defaults(cx, 'pmcmc_kernel', 'fbs.samplers.smc.pmcmc_kernel', {'delta': None, 'which_u': 0},
             lambda **k: cx.call('fbs.samplers.pmcmc_kernel', s.key, uT, ll, ys, y0, s.ts, fwd, msde, ref, s.trans, s.lik, s.res,
                                 s.n_, _kw=k))
    c = CS()
    defaults(cx, 'csmc_kernel', 'fbs.samplers.csmc.csmc.csmc_kernel', {'backward': False},
             lambda **k: cx.call('fbs.samplers.csmc.csmc.csmc_kernel', c.key, c.us, c.bs, c.vs, c.ts, c.initk, c.il, c.trans,
                                 c.tlogpdf, c.lik, c.cres, c.n_, _kw=k),
             summ=('forward_pass', 'backward_scanning_pass', 'backward_sampling_pass'))
    g = GS()
    defaults(cx, 'gibbs_kernel', 'fbs.samplers.gibbs.gibbs_kernel', {'marg_y': False, 'explicit_backward': True, 'explicit_final': False},
             lambda **k: cx.call('fbs.samplers.gibbs.gibbs_kernel', g.key, g.x0, g.y0, g.us, g.bs, g.ts, g.fwd, g.sde, g.unpack,
                                 g.n_, g.trans, g.tlogpdf, g.lik, _kw=k), summ=SUMM)
    defaults(cx, 'gibbs_init', 'fbs.samplers.gibbs.gibbs_init', {'method': 'smoother', 'marg_y': True, 'x0': None},
             lambda **k: cx.call('fbs.samplers.gibbs.gibbs_init', g.key, g.y0, star(g.du), g.ts, g.fwd, g.sde, g.unpack, g.trans,
                                 g.tlogpdf, g.lik, g.n_, _kw=k), summ=SUMM)
    n = dim('n')
    w = fvar('weights', n)
    i, j = scalar(var('i', kind='i', min=0, size=n)), scalar(var('j', kind='i', min=0, size=n))
    for f in ('multinomial', 'killing'):
        q = 'fbs.samplers.csmc.resamplings.' + f
        defaults(cx, 'csmc ' + f, q, {'i': 0, 'j': 0, 'conditional': True}, (lambda q: lambda **k: cx.call(q, key(), w, _kw=k))(q))
    defaults(cx, 'sqrtm', 'fbs.utils.sqrtm', {'method': 'eigh'}, lambda **k: cx.call('fbs.utils.sqrtm', fvar('C', dim('d'), dim('d')), _kw=k))
    # linear SDEs
    a, b, t0, T = fvar('a'), fvar('b'), fvar('t0'), fvar('T')
    lsde = cx.call(L + 'StationaryConstLinearSDE', a, b)
    sim = lambda: cx.call(L + 'make_linear_sde', lsde)[2]
    defaults(cx, 'make_linear_sde simulate_cond_forward', sim, {'t0': None, 'keep_path': True},
             lambda **k: cx.call(sim(), key(), x0, ts, _kw=k), cons=L + 'make_linear_sde')
    osim = lambda: cx.call(L + 'make_ou_sde', a, b)[2]
    xd = fvar('x0', dim('d'))
    defaults(cx, 'make_ou_sde simulate_cond_forward', osim, {'keep_path': True}, lambda **k: cx.call(osim(), key(), xd, ts, _kw=k),
             cons=L + 'make_ou_sde')
    nn = opqf('nn', lambda i_, a_, k: ('f', tuple(lift(a_[0]).shape)))
    par, x0s = fvar('param', dim('np')), fvar('x0s', dim('n'), dim('d'))
    defaults(cx, 'make_linear_sde_law_loss', L + 'make_linear_sde_law_loss', {'t0': 0., 'T': 2., 'nsteps': 100, 'random_times': True,
                                                                        'loss_type': 'score', 'save_mem': False},
             lambda **k: cx.call(cx.call(L + 'make_linear_sde_law_loss', lsde, nn, _kw=k), par, key(), x0s), summ=('make_linear_sde',))
    defaults(cx, 'make_ou_score_matching_loss', L + 'make_ou_score_matching_loss', {'t0': 0., 'T': 2., 'nsteps': 100, 'random_times': True},
             lambda **k: cx.call(cx.call(L + 'make_ou_score_matching_loss', a, b, nn, _kw=k), par, key(), x0s), summ=('make_ou_sde',))
    d = dim('d')
    C0, C1 = fvar('cov0', d, d), fvar('cov1', d, d)
    for m in (C0, C1):
        SYMMETRIC.add(m.node())
    defaults(cx, 'make_gaussian_bw_sb', L + 'make_gaussian_bw_sb', {'sig': 1.},
             lambda **k: (lambda r: (cx.call(r[0], t0), cx.call(r[1], t0), cx.call(r[2], xd, t0)))(
                 cx.call(L + 'make_gaussian_bw_sb', fvar('m0', d), C0, fvar('m1', d), C1, _kw=k)), summ=('sqrtm',))
    # networks
    defaults(cx, 'sinusoidal_embedding', 'fbs.nn.base.sinusoidal_embedding', {'out_dim': 64, 'max_period': 10000},
             lambda **k: cx.call('fbs.nn.base.sinusoidal_embedding', t0, _kw=k))

    def members(cls, *args, **doc):
        def fields(**k):
            o = cx.call(cls, *args, _kw=k)
            return tuple(str(cx.it.getattr(o, f)) if isinstance(cx.it.getattr(o, f), (str, bool, type(None))) else cx.it.getattr(o, f)
                         for f in doc)
        cx.law(f'{cls.rsplit(".", 1)[1]}: ' + ', '.join(f'{k}={v!r}' for k, v in doc.items()), lambda: fields(), [],
               lambda: fields(**doc), cons=cls, rule='an argument left out means its default')
    members('fbs.nn.unet.UNet', fvar('dt'), 64, upsampling='resize', dim_mults=(1, 2, 4), resnet_block_groups=8, learnt_variance=False)
    members('fbs.nn.models.CrescentMLP', fvar('dt'), dim=3)
    # data
    members('fbs.data.bayesian.Crescent', n=10, psi=1., xi=1.)
    img = fvar('img', dim('w'), dim('h'), dim('C'))
    defaults(cx, 'normalise', I + 'normalise', {'method': 'clip'}, lambda **k: cx.call(I + 'normalise', img, _kw=k))
    W, H = scalar(mul(const(4), dim('w'))), scalar(mul(const(4), dim('h')))
    C = scalar(dim('C'))

    def supr(**k):
        ds = cx.call(I + 'ImageRestore', 'supr-4', (W, H, C), _kw=k)
        from .data import mask_parts
        return mask_parts(cx, cx.call(cx.it.getattr(ds, 'gen_mask'), key()))
    defaults(cx, 'ImageRestore', I + 'ImageRestore', {'sr_random': True}, supr)
    for cls, doc in (('MNIST', {'task': 'deconv-15', 'test': False}), ('CIFAR10', {'task': 'supr', 'test': False}),
                     ('CelebAHQ', {'resolution': 64, 'task': 'supr', 'test': False}), ('MNISTRestore', {'task': 'inpaint-15', 'test': False}),
                     ('CelebAHQRestore', {'resolution': 64, 'task': 'supr-4', 'test': False})):
        defaults(cx, cls, I + cls, doc, built(cx, cls))
    from .data import with_data
    x, y = fvar('x', dim('w'), dim('h'), C.body), fvar('y', dim('w'), dim('h'), C.body)

    def concat(**k):
        ds = cx.call(I + 'Image')
        ds.attrs['task'], ds.attrs['image_shape'] = 'supr', (W, H, C)
        return cx.call(cx.it.getattr(ds, 'concat'), x, y, _kw=k)
    defaults(cx, 'Image.concat', lambda: cx.get(I + 'Image').lookup('concat'), {'expand': False}, concat, cons=I + 'Image.concat')


def built(cx, cls):
    from .data import loader
    files = {'data': {'X': fvar('X', const(60000), const(28), const(28)), 'X_test': fvar('X_test', const(10000), const(28), const(28)),
                      'train_data': fvar('train_data', const(50000), const(32), const(32), const(3)),
                      'test_data': fvar('test_data', const(10000), const(32), const(32), const(3))}}
    if cls.startswith('Celeb'):
        files = {'data': fvar('celeba', const(30000), const(64), const(64), const(3))}

    def run(**k):
        loader(cx, files)
        try:
            ds = cx.call(I + cls, key(), 'data', _kw=k)
            task = cx.it.getattr(ds, 'task')
            return cx.it.getattr(ds, 'n'), cx.it.getattr(ds, 'xs'), cx.it.getattr(ds, 'image_shape'), task
        finally:
            cx.it.unknown_ext = None
    return run
