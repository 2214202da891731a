"""The experiment scripts: each is run abstractly and compared with a reference script."""
from ..rule import *
from ..scripts import Run, is_fn, Space
from ..interp import Func, SymStr
from .smc import VFG, NOTE, ASM

G, SM, EM = 'fbs.samplers.gibbs.', 'fbs.samplers.smc.', 'fbs.sdes.simulators.'


def shp(v):
    return tuple(lift(v).shape)


def o_gibbs(it, v):
    return ('f', shp(v['x0'])), ('f', shp(v['us_star'])), ('i', shp(v['bs_star'])), ('b', shp(v['bs_star']))


def o_filter(it, v):
    K1, *d = shp(v['vs'])
    u = (lift(v['nparticles']).body,) + tuple(d)
    return ('f', u if v['return_last'] is True else (K1,) + u), ('f', ())


def o_smoother(it, v):
    K1, n, *d = shp(v['filter_us'])
    return 'f', (K1,) + tuple(d)


def o_pmcmc(it, v):
    return ('f', shp(v['uT'])), ('f', ()), ('f', shp(v['ys'])), \
        {'acceptance_prob': ('f', ()), 'is_accepted': ('b', ())}


def o_twisted(it, v):
    n = lift(v['nparticles']).body
    return ('f', (n,) + shp(v['y'])), ('f', (n,))


def o_em(it, v):
    x = shp(v['x0'])
    return 'f', (shp(v['ts'])[0],) + x if v['return_path'] is True else x


def o_bridge(it, v):
    m = shp(v['mean0'])
    return lambda t: ('f', m), lambda t: ('f', m + m), lambda x, t: ('f', shp(x))


STUBS = {
    G + 'gibbs_kernel': (o_gibbs, 'key x0 y0 us_star bs_star ts fwd_sampler sde unpack nparticles transition_sampler '
                                  'transition_logpdf likelihood_logpdf marg_y explicit_backward explicit_final'),
    SM + 'bootstrap_filter': (o_filter, 'transition_sampler measurement_cond_pdf vs ts init_sampler key nparticles '
                                        'resampling log return_last'),
    SM + 'bootstrap_backward_smoother': (o_smoother, 'key filter_us vs ts transition_logpdf'),
    SM + 'pmcmc_kernel': (o_pmcmc, 'key uT log_ell ys y0 ts fwd_ys_sampler sde ref_sampler transition_sampler '
                                   'likelihood_logpdf resampling nparticles delta which_u'),
    SM + 'twisted_smc': (o_twisted, 'key y ts init_sampler transition_logpdf twisting_logpdf twisting_prop_sampler '
                                    'twisting_prop_logpdf resampling nparticles'),
    EM + 'euler_maruyama': (o_em, 'key x0 ts drift dispersion integration_nsteps return_path')}


def split_path(p):
    """A file name without leading './' and extension."""
    parts = list(p.parts) if isinstance(p, SymStr) else [p]
    if isinstance(parts[0], str) and parts[0].startswith('./'):
        parts[0] = parts[0][2:]
    if isinstance(parts[-1], str):
        for e in ('.npz', '.npy'):
            if parts[-1].endswith(e):
                parts[-1] = parts[-1][:-4]
    return [x for x in parts if x != '']


def path_same(p, q):
    a, b = split_path(p), split_path(q)
    return len(a) == len(b) and all(x == y if isinstance(x, (str, tuple)) else x is y for x, y in zip(a, b))


def path_str(p):
    return ''.join(x if isinstance(x, str) else '{' + (pp(x, 3) if isinstance(x, T) else str(x)) + '}' for x in split_path(p))


def same_fn(a, b):
    if a is b:
        return True
    if isinstance(a, Func) and isinstance(b, Func) and a.qual == b.qual and a.scope is getattr(a.module, 'env', None) \
            and a.module is b.module:
        return True
    return False


def known_same(x, y):
    return x is y or is_zero(sub(x, y))


class Pair:
    """Script and reference script under the same flags."""

    def __init__(self, cx, rel, spec, args, probes, stubs=STUBS, files=None, extra=None, ignore=()):
        """extra: (callables given the extra keyword arguments of the call, value of one);
        ignore: entry points whose calls are no part of the results (plots)."""
        self.cx, self.rel, self.spec, self.args = cx, rel, spec, args
        self.extra, self.ignore = extra, ignore
        self.probes, self.stubs, self.files = probes, stubs, files

    def __call__(self):
        cx = self.cx
        cx.fresh()
        try:
            return self.compare()
        finally:
            cx.fresh()

    def compare(self):
        cx = self.cx
        A = Run(cx, self.rel, self.args, self.stubs, self.files)
        with A:
            A.go()
        B = Run(cx, self.rel, self.args, self.stubs, self.files)
        with B:
            out = cx.call(self.spec, Space(self.args))
        saves = B.saves + [ip.Effect(q, v, None, []) for q, v in ([out] if isinstance(out, tuple) else out or [])]
        n = self.calls(A, B)
        if len(A.saves) != len(saves):
            raise cmp.Mismatch(f'{self.rel} writes {len(A.saves)} result files, the law has {len(saves)}', None)
        left = list(saves)
        for e in A.saves:
            p, vals = e.path, e.vals
            for d in left:
                # the same counters
                if e.loops and len(d.loops) == len(e.loops) and all(known_eq(x, y) is True for (_, x), (_, y) in zip(e.loops, d.loops)):
                    m = {j: i for (i, _), (j, _) in zip(e.loops, d.loops)}
                    d.map(lambda t: subst(t, m))
                    d.loops = e.loops
            k = next((i for i, d in enumerate(left) if path_same(p, d.path)), None)
            if k is None:
                raise cmp.Mismatch(f'results are written to {path_str(p)}, expected {path_str(left[0].path)}', e.loc)
            d = left.pop(k)
            want = d.vals
            if d.loops != e.loops:
                raise cmp.Mismatch(f'{path_str(p)} is not written once per iteration of the same loops', e.loc)
            if len(d.conds) != len(e.conds) or any(not known_same(x, y) for x, y in zip(e.conds, d.conds)):
                raise cmp.Mismatch(f'{path_str(p)} is written under {[pp(c, 3) for c in e.conds]}, expected {[pp(c, 3) for c in d.conds]}', e.loc)
            if set(vals) != set(want):
                raise cmp.Mismatch(f'{path_str(p)} holds {sorted(vals)}, expected {sorted(want)}', e.loc)
            ks = sorted(want)
            n += self.same([vals[k] for k in ks], [want[k] for k in ks], ks)
        return n

    def same(self, a, b, labels):
        return self.cx.same(a, b, labels, keys=True)

    def calls(self, A, B):
        """The callables handed to the library: every use in the script is one of the law's, and the other way round."""
        n = -1
        self.n = 0
        self.seen, self.hit = set(), set()
        while n != self.n:
            n = self.n
            for q in self.stubs:
                if q in self.ignore:
                    continue
                ca = [c for c in A.calls if c.qual == q]
                cb = [c for c in B.calls if c.qual == q]
                if not ca and not cb:
                    continue
                if not ca or not cb:
                    raise cmp.Mismatch(f'{self.rel} ' + (f'does not call {q.rsplit(".", 1)[1]}' if cb else
                                                         f'calls {q.rsplit(".", 1)[1]}, the law does not'),
                                       ca[0].loc if ca else None)
                for X, Y, xs, ys in ((A, B, ca, cb), (B, A, cb, ca)):
                    for i, c in enumerate(xs):
                        if id(c) not in self.seen:
                            self.seen.add(id(c))
                            if id(c) not in self.hit:
                                self.match(X, Y, c, ys[min(i, len(ys) - 1):][:1] + ys, X is B)
        return self.n

    def match(self, X, Y, c, cands, flip):
        err = None
        for d in {id(d): d for d in cands}.values():
            try:
                self.n += self.call(Y, X, d, c) if flip else self.call(X, Y, c, d)
                self.hit.add(id(d))
                return
            except cmp.Mismatch as e:
                err = err or e
        raise err

    def kw(self, short, k, c):
        if not self.extra or not (f'{short}.{k}' in self.extra[0] or k in self.extra[0]):
            return {}
        return {r: self.extra[1] for r in c.rest}

    def call(self, A, B, c, d):
        short = c.qual.rsplit('.', 1)[1]
        n = 0
        for k in sorted(set(c.vals) | set(d.vals)):
            if k not in c.vals or k not in d.vals:
                raise cmp.Mismatch(f'argument {k!r} of {short} is not a function', c.loc)
            f, g = c.vals[k], d.vals[k]
            if same_fn(f, g):
                n += 1
                continue
            args = self.probes.get(f'{short}.{k}', self.probes.get(k))
            if args is None:
                raise Unmodelled(f'no probe for argument {k!r} of {short}')
            with A:
                x = self.cx.it.call(f, list(args), self.kw(short, k, c))
            with B:
                y = self.cx.it.call(g, list(args), self.kw(short, k, d))
            try:
                n += self.same(x, y, [f'{k} given to {short}' + (f' [{i}]' if i else '') for i in range(4)])
            except cmp.Mismatch as e:
                e.loc = e.loc or c.loc
                raise
        return n


def gauss_probes(d, n, K1):
    u, v, v2, t = fvar('u', d), fvar('v', d), fvar('v_prev', d), fvar('t')
    us, us2, k, n_ = fvar('us', n, d), fvar('us_prev', n, d), key('k'), scalar(n)
    return {'transition_sampler': (us, v, t, k), 'measurement_cond_pdf': (v, us, v2, t),
            'likelihood_logpdf': (v, us, v2, t), 'transition_logpdf': (u, us, v, t),
            'init_sampler': (k, v, n_), 'ref_sampler': (k, v, n_), 'fwd_sampler': (k, u, v), 'fwd_ys_sampler': (k, v),
            'unpack': (fvar('z', K1, add(d, d)),), 'resampling': (fvar('w', n), k),
            'twisted_smc.init_sampler': (k, n_), 'twisted_smc.transition_logpdf': (us, us2, t),
            'twisting_logpdf': (v, us, t), 'twisting_prop_sampler': (k, us, t, v),
            'twisting_prop_logpdf': (us, us2, t, v), 'drift': (u, t), 'dispersion': (t,)}


@rule('E01', VFG, NOTE, ASM, 8)
def e01(cx):
    d, n = dim('d'), dim('n')
    base = {'d': scalar(d), 'nsamples': scalar(dim('nsamples')), 'id': scalar(var('id', kind='i'))}
    part = {'nparticles': scalar(n)}
    chains = {'nchains': scalar(dim('nchains'))}
    probes = gauss_probes(d, n, const(201))
    for sde in ('const', 'lin'):
        a = dict(base, sde=sde)
        todo = [('filter', dict(a, **part)), ('twisted', dict(a, **part)), ('csgm', a),
                ('pmcmc', dict(a, **part, **chains, delta=fvar('delta')))]
        for eb, ef, mg in ((False, False, False), (True, False, False), (True, True, True)):
            if sde == 'const' or not mg:
                todo.append(('gibbs', dict(a, **part, **chains, explicit_backward=eb, explicit_final=ef, marg=mg)))
        for m, args in todo:
            fl = ','.join(k for k in ('explicit_backward', 'explicit_final', 'marg') if args.get(k) is True)
            rel = f'experiments/toy/gp_{m}.py'
            cx.ob(f'gp_{m}[{sde}{"," + fl if fl else ""}]', 'the experiment is the sampler on the exact problem', rel,
                  Pair(cx, rel, f'toy:gp_{m}', args, probes))


BRIDGE = dict(STUBS, **{'fbs.sdes.linear.make_gaussian_bw_sb': (o_bridge, 'mean0 cov0 mean1 cov1 sig')})


@rule('E02', VFG, NOTE, ASM, 4)
def e02(cx):
    d, n = dim('d'), dim('n')
    base = {'d': scalar(d), 'nsamples': scalar(dim('nsamples')), 'id': scalar(var('id', kind='i')), 'nparticles': scalar(n)}
    probes = gauss_probes(d, n, const(101))
    probes['drift'] = (fvar('z', add(d, d)), fvar('t'))
    for x0 in ('heuristic', 'proper'):
        cx.ob(f'filter[{x0}]', 'the experiment is the sampler on the exact bridge', 'experiments/sb/filter.py',
              Pair(cx, 'experiments/sb/filter.py', 'toy:sb_filter', dict(base, x0=x0), probes, BRIDGE))
    for eb in (False, True):
        cx.ob(f'gibbs[explicit_backward={eb}]', 'the experiment is the sampler on the exact bridge', 'experiments/sb/gibbs.py',
              Pair(cx, 'experiments/sb/gibbs.py', 'toy:sb_gibbs', dict(base, explicit_backward=eb), probes, BRIDGE))


DS, NB = 'fbs.data.images.ImageRestore.', 'fbs.nn.base.'


def o_init(it, v):
    K1, = shp(v['ts'])
    u = tuple(lift(x).body for x in v['x0_shape'])
    return ('f', u), ('f', (K1,) + u)


def o_twist(it, v):
    n = lift(v['nparticles'])
    return ('f', shp(it.call(v['init_sampler'], [v['key'], n], {}))), ('f', (n.body,))


def o_net(it, v):
    return ('f', (dim('nparam'),)), lambda p: ('f', (dim('nparam'),)), lambda x, t, p: ('f', shp(x))


def mask_facts(it, m):
    """The two index sets of a mask are distinct and disjoint (decided by D01)."""
    u, o = (it.getattr(m, f).node() for f in ('unobs_inds_ravelled', 'obs_inds_ravelled'))
    for x in (u, o):
        ar.INJ.add(x)
    ar.DISJOINT.add(frozenset((u, o)))


def o_data(it, v):
    ds = v['self']
    w, h, c = (lift(x).body for x in it.getattr(ds, 'image_shape'))
    m = lift(it.getattr(ds, 'unobs_shape')[0]).body
    r = sub(mul(w, h), m)
    cls = it.get('fbs.data.images.' + ('SRMask' if 'supr' in it.getattr(ds, 'task') else 'InpaintingMask'))
    inds = {'unobs_inds_ravelled': ('i', (m,)), 'obs_inds_ravelled': ('i', (r,))}
    return ('f', (w, h, c)), ('f', (r, c)), ('nt', cls, [inds.get(f, ('i', ())) for f, _ in cls.fields], mask_facts)


IMGS = dict(STUBS, **{
    G + 'gibbs_init': (o_init, 'key y0 x0_shape ts fwd_sampler sde unpack transition_sampler transition_logpdf '
                               'likelihood_logpdf nparticles method marg_y x0'),
    SM + 'twisted_smc': (o_twist, STUBS[SM + 'twisted_smc'][1]),
    NB + 'make_st_nn': (o_net, 'key nn dim_in batch_size', 'key dim_in batch_size'),
    DS + 'sampler': (o_data, 'self key')})


def image_files(run, it, path):
    p = ''.join(x if isinstance(x, str) else '{}' for x in split_path(path))
    sig = ('file',) + tuple(split_path(path))
    arr = lambda k, *s: of_node(app('load:' + k, (sig,), 'f', tuple(const(x) if isinstance(x, int) else x for x in s)))
    if 'checkpoints' in p:
        return {k: arr(k, dim('nparam')) for k in ('param', 'ema_param', 'param_fwd', 'param_bwd')}
    if 'mnist' in p:
        return {'X': arr('X', 60000, 28, 28), 'X_test': arr('X_test', 10000, 28, 28)}
    for r in (64, 128):
        if str(r) in p:
            return arr('X', 30000, r, r, 3)
    return None


MASKED = {'transition_sampler', 'likelihood_logpdf', 'gibbs_kernel.transition_logpdf', 'gibbs_init.transition_logpdf',
          'unpack', 'fwd_sampler', 'twisting_logpdf', 'twisting_prop_sampler', 'twisting_prop_logpdf'}


def image_probes(cx, m, r, w, c, n, K1, supr):
    u, v, v2, t = fvar('u', m, c), fvar('v', r, c), fvar('v_prev', r, c), fvar('t')
    us, k, n_ = fvar('us', n, m, c), key('k'), scalar(n)
    z, zs, zs2 = fvar('z', w, w, c), fvar('zs', n, w, w, c), fvar('zs_prev', n, w, w, c)
    cls = cx.get('fbs.data.images.' + ('SRMask' if supr else 'InpaintingMask'))
    inds = {'unobs_inds_ravelled': fvar('unobs', m, kind='i'), 'obs_inds_ravelled': fvar('obs', r, kind='i')}
    mask = ip.NT(cls, [inds.get(f, fvar(f, kind='i')) for f, _ in cls.fields])
    mask_facts(cx.it, mask)
    return {'transition_sampler': (us, v, t, k), 'likelihood_logpdf': (v, us, v2, t), 'transition_logpdf': (u, us, v, t),
            'ref_sampler': (k, v, n_), 'fwd_sampler': (k, u, v), 'fwd_ys_sampler': (k, v),
            'unpack': (fvar('path', K1, w, w, c),), 'resampling': (fvar('w', n), k),
            'twisted_smc.init_sampler': (k, n_), 'twisted_smc.transition_logpdf': (zs, zs2, t),
            'twisting_logpdf': (v, zs, t), 'twisting_prop_sampler': (k, zs, t, v),
            'twisting_prop_logpdf': (zs, zs2, t, v), 'drift': (z, t), 'dispersion': (t,)}, (MASKED, mask)


@rule('E03', VFG, NOTE, ASM + ['file contents are opaque arrays of the shapes their makers write'], 10)
def e03(cx):
    n, K = dim('n'), dim('nsteps', lo=1)
    base = {'test_nsteps': scalar(K), 'test_seed': scalar(var('seed', kind='i')), 'test_epoch': scalar(var('epoch', kind='i')),
            'nsamples': scalar(dim('nsamples')), 'ny0s': 2, 'start_from': 0}
    todo = []
    for kind, size in (('inpainting', {'rect_size': 15}), ('supr', {'rate': 4})):
        for m, more in (('filter', {'method': 'filter', 'init_method': 'smoother', 'marg': False}),
                        ('gibbs', {'method': 'gibbs', 'init_method': 'smoother', 'marg': False}),
                        ('gibbs', {'method': 'gibbs-eb', 'init_method': 'filter', 'marg': True}),
                        ('gibbs', {'method': 'gibbs-eb-ef', 'init_method': 'smoother', 'marg': False}),
                        ('pmcmc', {'method': 'pmcmc', 'init_method': 'smoother', 'marg': False}),
                        ('pmcmc', {'method': 'pmcmc-0.1', 'init_method': 'smoother', 'marg': False})):
            todo.append((kind, '', 'particle', dict(base, **size, **more, nparticles=scalar(n))))
        todo.append((kind, '_csgm', 'csgm', dict(base, **size)))
        todo.append((kind, '_twisted', 'twisted', dict(base, **size, nparticles=scalar(n))))
    for i, (kind, suf, law, args) in enumerate(todo):
        args = dict(args, dataset='mnist' if law == 'twisted' and not cx.thorough else ('mnist', 'celeba-64')[i % 2], sde=('lin', 'const')[(i // 2) % 2], test_ema=i % 3 == 0)
        if kind == 'supr':
            args['rnd_mask'] = i % 2 == 0
        if i % 3 == 1:
            args['start_from'] = 1
        w, c = (28, 1) if args['dataset'] == 'mnist' else (64, 3)
        m = 225 if kind == 'inpainting' else w * w * 15 // 16
        rel = f'experiments/imgs/{kind}{suf}.py'
        pr, ex = image_probes(cx, const(m), const(w * w - m), const(w), const(c), n, add(K, ONE), kind == 'supr')
        tag = ','.join(str(args.get(k)) for k in ('dataset', 'sde', 'method') if k in args)
        cx.ob(f'{kind}{suf}[{tag}]', 'the experiment is the sampler on the reverse process of the model', rel,
              Pair(cx, rel, f'imgs:{law}', args, pr, IMGS, image_files, ex))
    for m in ('filter', 'gibbs'):
        args = {k: v for k, v in base.items() if k not in ('ny0s', 'start_from', 'test_epoch')}
        args.update(rate=4, sde='const', method=m, sb_step=scalar(var('sb_step', kind='i')), y0_id=2, nparticles=scalar(n),
                    init_method='smoother')
        pr, ex = image_probes(cx, const(735), const(49), const(28), const(1), n, add(K, ONE), True)
        cx.ob(f'bridge super-resolution[{m}]', 'the experiment is the sampler on the trained bridge', 'experiments/sb_imgs/supr.py',
              Pair(cx, 'experiments/sb_imgs/supr.py', 'imgs:bridge_supr', args, pr, IMGS, image_files, ex))


LL, OK, IPF = 'fbs.sdes.linear.make_linear_sde_law_loss', 'fbs.nn.utils.make_optax_kernel', 'fbs.dsb.base.ipf_loss_cont'


def o_kernel(it, v):
    p = lambda x, *a: ('f', shp(x))
    return (lambda x, s, *a: ('t', p(x), p(s), ('f', ()))), p


def train_probes(v):
    """The drifts and the dispersion enter the value of the loss."""
    x = tuple(lift(v['init_samples']).shape[1:])
    z, t, p = fvar('z', *x), fvar('t'), fvar('p', *lift(v['param']).shape)
    return {'parametric_drift': (z, t, p), 'simulator_drift': (z, t, p), 'dispersion': (t,)}


IPF_STUB = (lambda it, v: ('f', ()), 'key param simulator_param init_samples ts parametric_drift simulator_drift dispersion', '', train_probes)
TRAIN = {NB + 'make_st_nn': (o_net, 'key nn dim_in batch_size', 'batch_size'),
         LL: (lambda it, v: lambda p, k, x: ('f', ()), 'sde nn_fn t0 T nsteps random_times loss_type save_mem'),
         OK: (o_kernel, 'optimiser loss_fn jit', 'jit'), IPF: IPF_STUB, IPF + '_v': IPF_STUB,
         DS + 'sampler': (o_data, 'self key'), EM + 'euler_maruyama': STUBS[EM + 'euler_maruyama']}


@rule('E04', VFG, NOTE, ASM + ['file contents are opaque arrays of the shapes their makers write'], 6)
def e04(cx):
    B, K = dim('B'), dim('nsteps', lo=2)
    base = {'batch_size': scalar(B), 'nsteps': scalar(K), 'lr': fvar('lr'), 'upsampling': 'resize'}
    p = fvar('p', dim('nparam'))
    plots = (DS + 'sampler', EM + 'euler_maruyama')

    def probes(w, c):
        z, t = fvar('z', w, w, c), fvar('t')
        return {'nn_fn': (z, t, p), 'loss_fn': (p, key('k'), fvar('xs', B, w, w, c)), 'parametric_drift': (z, t, p),
                'simulator_drift': (z, t, p), 'dispersion': (t,)}
    for ds, sde, sched, clip, mem, lt in (('mnist', 'lin', 'cos', False, False, 'score'), ('celeba-64', 'const', 'exp', True, True, 'ipf'),
                                          ('celeba-128', 'lin', 'constant', False, False, 'score')):
        args = dict(base, dataset=ds, sde=sde, schedule=sched, grad_clip=clip, save_mem=mem, loss_type=lt, nepochs=scalar(dim('nepochs')))
        w, c = (28, 1) if ds == 'mnist' else (int(ds.split('-')[1]), 3)
        cx.ob(f'score training[{ds},{sde},{sched}]', 'the checkpoint is the documented training recursion', 'experiments/imgs/train.py',
              Pair(cx, 'experiments/imgs/train.py', 'train:score', args, probes(const(w), const(c)), TRAIN, image_files, ignore=plots))
    N = scalar(dim('nepochs'))
    for ds, sde, sched, clip, vm, ne, ni in (('mnist', 'const', 'cos', False, False, N, 1), ('mnist', 'lin', 'cos', True, False, 1, 2),
                                             ('celeba-64', 'const', 'exp', False, True, 1, 2),
                                             ('mnist', 'const', 'constant', False, False, 1, 3)):
        if ni == 3 and not cx.thorough:
            continue
        args = dict(base, dataset=ds, sde=sde, schedule=sched, grad_clip=clip, vmap_loss=vm, nepochs=ne, nsbs=ni,
                    nn_dim=scalar(mul(const(8), dim('g'))), T=scalar(FACTS_pos('T')))
        w, c = (28, 1) if ds == 'mnist' else (int(ds.split('-')[1]), 3)
        cx.ob(f'bridge training[{ds},{sde},{sched},{ni} iteration{"s" * (ni > 1)}]', 'the checkpoint is the documented training recursion',
              'experiments/sb_imgs/train.py',
              Pair(cx, 'experiments/sb_imgs/train.py', 'train:bridge', args, probes(const(w), const(c)), TRAIN, image_files, ignore=plots))
