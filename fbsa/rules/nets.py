"""Neural networks: embedding, sub-pixel rearrangement, wrappers, per-sample evaluation, training kernels."""
from ..rule import *
from .. import flaxlib as fx

U = 'fbs.nn.unet.'
M = 'fbs.nn.models.'


def root(name='p'):
    return fx.Vars(mk('var', ('net ' + name, 0), 'f', shape=()))


def forward(cx, net, v, *args):
    return cx.call(cx.it.getattr(net, 'apply'), v, *args)


def unet(cx, C=None, mults=(1, 2, 4), up='resize', lv=False):
    lo = 2 ** (len(mults) - 1)
    g = dim('g')
    B = dim('B', lo=2)
    H, W = mul(const(lo), dim('h')), mul(const(lo), dim('w'))
    d = mul(const(8), g)
    net = cx.call(U + 'UNet', scalar(FACTS_pos('dt')), scalar(d), up, dim_mults=mults, learnt_variance=lv)
    return net, B, H, W, C or dim('C')


@rule('N01', technique='value-flow graph of the embedding compared with the reference law', note='', minimum=3)
def n01(cx):
    t = fvar('t')
    for n, m in ((dim('half', lo=2), fvar_pos('period')),):
        cx.law('embedding of a scalar', M_('sinusoidal_embedding'), [t], 'nets:embedding',
               kw={'out_dim': scalar(mul(const(2), n)), 'max_period': m}, skw={'out_dim': scalar(mul(const(2), n)), 'max_period': m})
    cx.law('defaults', M_('sinusoidal_embedding'), [t], 'nets:embedding', skw={'out_dim': 64, 'max_period': 10000})
    n, m = dim('half', lo=2), fvar_pos('period')
    tc = fvar('tc', dim('n'), ONE)
    cx.law('embedding of a column of times', M_('sinusoidal_embedding'), [tc], 'nets:embeddings',
           kw={'out_dim': scalar(mul(const(2), n)), 'max_period': m}, skw={'out_dim': scalar(mul(const(2), n)), 'max_period': m})

    def odd():
        try:
            cx.call(M_('sinusoidal_embedding'), t, out_dim=scalar(add(mul(const(2), dim('half')), ONE)))
        except PathEnd as e:
            if 'NotImplementedError' in str(e) or 'ValueError' in str(e):
                return 1
            raise
        raise cmp.Mismatch('an odd output dimension is accepted', None)
    cx.ob('odd dimension refused', 'every path raises', cx.where(M_('sinusoidal_embedding')), odd)


def M_(n):
    return 'fbs.nn.base.' + n


def fvar_pos(name):
    return scalar(FACTS_pos(name))


@rule('N02', technique='index map of the rearrangement compared with the reference law for all extents', note='', minimum=2)
def n02(cx):
    for s in (2, 3, dim('s')):
        sc = as_dim(s)
        B, H, W, C = dim('B'), dim('H'), dim('W'), dim('C')
        x = fvar('x', B, H, W, mul(C, sc, sc))
        sv = s if isinstance(s, int) else scalar(s)

        def impl():
            return cx.call(cx.call('fbs.nn.utils.PixelShuffle', sv), x)
        cx.law(f'scale {pp(sc)}', impl, [], lambda: cx.call('nets:pixel_shuffle', x, sv), cons='fbs.nn.utils.PixelShuffle')


class OpaqueNet:
    """A user-supplied network: init and apply are uninterpreted."""

    def __init__(self, shape):
        self.shape = shape

    def _attr(self, it, a):
        if a == 'init':
            def init(it2, args, kw):
                return OpaqueVars(mk('app', ('net.init', tuple(it2.to_nodes(x) for x in args)), 'f', shape=()))
            return Native('init', init)
        if a == 'apply':
            def ap(it2, args, kw):
                if kw:
                    raise Unmodelled('keyword arguments of apply')
                return of_node(app('net.apply', tuple(it2.to_nodes(x) for x in args), 'f', self.shape(args)))
            return Native('apply', ap)
        raise Unmodelled(f'network attribute {a}')

    def _to_nodes(self, it):
        return ('net',)


class OpaqueVars(fx.Vars):
    """Variables of an opaque network: ravel and unravel are inverse to each other."""

    def _to_nodes(self, it):
        return self.node

    def _ravel(self, it):
        n = dim('nparam')
        flat = of_node(mk('arrfn', ('ravel', self.node), 'f', shape=(n,)))

        def un(it2, a, k):
            x = lift(a[0]).node()
            if x.op == 'arrfn' and x.args[0] == 'ravel':
                return OpaqueVars(x.args[1])
            return OpaqueVars(mk('app', ('unravel', (x,)), 'f', shape=()))
        return flat, Native('unravel', un)


@rule('N03', technique='value-flow graph of the wrappers over an uninterpreted network; ravel and unravel are inverse', note='',
      minimum=6)
def n03(cx):
    B, d, p = dim('B'), dim('d'), dim('nparam')
    k, q, t, ts = key(), fvar('q', p), fvar('t'), fvar('ts', B)
    x = fvar('x', B, d)
    net = OpaqueNet(lambda a: lift(a[1]).shape)
    base = 'fbs.nn.base.make_st_nn'

    def parts():
        return cx.call(base, k, net, (scalar(d),), scalar(B))

    def ap(v, *a):
        return cx.call(cx.it.getattr(net, 'apply'), v, *a)

    def unravel(q):
        return OpaqueVars(mk('app', ('unravel', (q.node(),)), 'f', shape=()))

    def init(*a):
        return cx.call(cx.it.getattr(net, 'init'), k, *a)

    for nm, tt in (('scalar time', t), ('times', ts)):
        cx.law(f'make_st_nn forward, {nm}', lambda tt=tt: cx.call(parts()[2], x, tt, q), [],
               lambda tt=tt: ap(unravel(q), x, tt), cons=base)
        cx.law(f'make_st_nn at the initial parameters, {nm}', lambda tt=tt: (lambda r: cx.call(r[2], x, tt, r[0]))(parts()), [],
               lambda tt=tt: ap(init(ones(B, d), ones(B)), x, tt), cons=base)
    cx.law('make_st_nn array_to_dict', lambda: (lambda r: ap(cx.call(r[1], r[0]), x, t))(parts()), [],
           lambda: ap(init(ones(B, d), ones(B)), x, t), cons=base)
    sh = (dim('h'), dim('w'), dim('c'))
    xi = fvar('xi', B, *sh)
    cx.law('make_st_nn on images', lambda: (lambda r: cx.call(r[2], xi, t, r[0]))(
        cx.call(base, k, net, tuple(scalar(s) for s in sh), scalar(B))), [],
        lambda: ap(init(ones(B, *sh), ones(B)), xi, t), cons=base)

    # the early helper: state and scaled time in one vector
    w = 'fbs.nn.utils.make_nn_with_time'
    one = OpaqueNet(lambda a: (d,))
    x1, s = fvar('x1', d), fvar('s')
    cx.law('make_nn_with_time forward',
           lambda: cx.call(cx.call(w, one, scalar(d), scalar(B), s, k)[2], x1, t, q), [],
           lambda: cx.call(cx.it.getattr(one, 'apply'), unravel(q), concat([x1, reshape(ew(mul, t, s), (ONE,))], 0)), cons=w)
    cx.law('make_nn_with_time initial parameters',
           lambda: (lambda r: cx.call(r[2], x1, t, r[0]))(cx.call(w, one, scalar(d), scalar(B), s, k)), [],
           lambda: cx.call(cx.it.getattr(one, 'apply'),
                           cx.call(cx.it.getattr(one, 'init'), k, ones(B, add(d, ONE))),
                           concat([x1, reshape(ew(mul, t, s), (ONE,))], 0)), cons=w)
    cx.law('make_nn_with_time array to parameters',
           lambda: (lambda r: cx.call(cx.it.getattr(one, 'apply'), cx.call(r[1], q), x1))(cx.call(w, one, scalar(d), scalar(B), s, k)),
           [], lambda: cx.call(cx.it.getattr(one, 'apply'), unravel(q), x1), cons=w)
    # the wrapper over a given model
    ms = 'fbs.nn.models.make_simple_st_nn'
    cx.law('make_simple_st_nn forward', lambda: cx.call(cx.call(ms, k, (scalar(d),), scalar(B), net)[4], x, t, q), [],
           lambda: ap(unravel(q), x, t), cons=ms)


def ones(*shape):
    return broadcast_to(scalar(ONE), shape)


@rule('N04', technique='value-flow graph of the network with layers uninterpreted per sample; one sample of the batched '
      'call is compared with the call on that sample', note='', minimum=6)
def n04(cx):
    cons = U + 'UNet'
    b = dim('b', lo=0)
    cases = [('resize', 'scalar'), ('pixel_shuffle', 'vector')]
    if cx.thorough:
        cases = [(u, t) for u in ('resize', 'pixel_shuffle') for t in ('scalar', 'vector')]
    for up, tn in cases:
        net, B, H, W, C = unet(cx, up=up, mults=(1, 2, 4) if tn == 'vector' or cx.thorough else (1, 2))
        x = fvar('x', B, H, W, C)
        t = fvar('t') if tn == 'scalar' else fvar('ts', B)

        def impl():
            y = forward(cx, net, root(), x, t)
            shape_is(y, (B, H, W, C))
            return index(y, (scalar(b),))

        def spec():
            tb = t if tn == 'scalar' else index(t, (scalar(b),))
            return forward(cx, net, root(), index(x, (scalar(b),)), tb)
        cx.law(f'UNet {up}, {tn} time: one sample of a batch', impl, [], spec, cons=cons,
               rule='each sample of a batch is mapped as if alone, to its own shape')
    net, B, H, W, C = unet(cx, up='pixel_shuffle')
    x1, t = fvar('x1', H, W, C), fvar('t')
    cx.law('UNet: an image and a batch of one', lambda: forward(cx, net, root(), reshape(x1, (ONE, H, W, C)), t), [],
           lambda: forward(cx, net, root(), x1, t), cons=cons)
    g = dim('g')

    def mknet(dt):
        return cx.call(cons, dt, scalar(mul(const(8), g)), 'pixel_shuffle')
    dt = fvar_pos('dt')
    cx.law('UNet: time enters as t / dt', lambda: forward(cx, mknet(dt), root(), x1, t), [],
           lambda: forward(cx, mknet(1), root(), x1, ew(div, t, dt)), cons=cons)
    for nm, kw, ch in (('learnt variance', {'learnt_variance': True}, mul(const(2), C)), ('out_dim', {'out_dim': scalar(dim('o'))}, dim('o')),
                       ('init_dim', {'init_dim': scalar(mul(const(24), g))}, C), ('three resolutions', {'dim_mults': (1, 2, 4)}, C),
                       ('four resolutions', {'dim_mults': (1, 2, 4, 8)}, C)):
        def sh(kw=kw, ch=ch):
            kw = {'dim_mults': (1, 2, 4) if cx.thorough else (1, 2), **kw}
            m = 2 ** (len(kw['dim_mults']) - 1)
            h, w = mul(const(m), dim('h')), mul(const(m), dim('w'))
            n = cx.call(cons, dt, scalar(mul(const(8), g)), _kw=kw)
            y = forward(cx, n, root(), fvar('y', B, h, w, C), t)
            shape_is(y, (B, h, w, ch))
            return 1
        cx.ob(f'UNet: output shape, {nm}', 'the image shape is preserved', cx.where(cons), sh)


def shape_is(y, shape):
    if len(y.shape) != len(shape) or any(not is_zero(sub(p, q)) for p, q in zip(y.shape, shape)):
        raise cmp.Mismatch(f'output of shape {pps(y.shape)}, expected {pps(shape)}', None)


@rule('N05', technique='value-flow graph of the networks with layers uninterpreted per sample; one sample of the batched '
      'call is compared with the call on that sample', note='', minimum=6)
def n05(cx):
    B, b = dim('B', lo=2), dim('b', lo=0)
    dt = fvar_pos('dt')
    t, ts = fvar('t'), fvar('ts', B)
    d = dim('d', lo=2)
    for nm, kw, D in (('CrescentMLP', {}, const(3)), ('CrescentMLP', {'dim': scalar(d)}, d), ('GMSBMLP', {'dim': scalar(d)}, d)):
        for tn, tt in (('scalar', t), ('vector', ts)):
            def net():
                return cx.call(M + nm, _kw={**kw, 'dt': dt})
            x = fvar('x', B, D)

            def impl():
                y = forward(cx, net(), root(), x, tt)
                shape_is(y, (B, D))
                return index(y, (scalar(b),))

            def spec():
                tb = tt if tn == 'scalar' else index(tt, (scalar(b),))
                y = forward(cx, net(), root(), reshape(index(x, (scalar(b),)), (ONE, D)), tb)
                return reshape(y, (D,))
            cx.law(f'{nm} {pp(D)}, {tn} time', impl, [], spec, cons=M + nm,
                   rule='each sample of a batch is mapped as if alone, to its own shape')
    n = fvar('x', B, const(784))

    def rc():
        return cx.call(M + 'MNISTResConv', dt)

    def impl():
        y = forward(cx, rc(), root(), n, t)
        shape_is(y, (B, const(784)))
        return index(y, (scalar(b),))
    cx.law('MNISTResConv', impl, [], lambda: forward(cx, rc(), root(), index(n, (scalar(b),)), t), cons=M + 'MNISTResConv',
           rule='each sample of a batch is mapped as if alone, to its own shape')
    im = fvar('x', B, const(28), const(28))
    cx.law('MNISTResConv on images', lambda: forward(cx, rc(), root(), im, t), [],
           lambda: forward(cx, rc(), root(), reshape(im, (B, const(784))), t), cons=M + 'MNISTResConv')


@rule('N06', technique='value-flow graph of the blocks compared with the reference law (library layers uninterpreted)', note='',
      minimum=5)
def n06(cx):
    B, H, W, C, e = dim('B', lo=2), dim('h'), dim('w'), dim('C'), dim('e')
    x = fvar('x', B, H, W, C)
    F = mul(const(8), dim('g'))

    def mod(name, **kw):
        return cx.call(U + name, _kw=kw)

    def ref(name, *a):
        return cx.call(cx.spec('nets:' + name), *a)

    cx.law('weight-standardised convolution', lambda: forward(cx, mod('WeightStandardizedConv', features=scalar(F), kernel_size=(3, 3)), root(), x),
           [], lambda: forward(cx, ref('WSConv', scalar(F)), root(), x), cons=U + 'WeightStandardizedConv')
    te = fvar('e', B, e)
    xf = fvar('xf', B, H, W, F)
    for nm, z, skip in (('same width', xf, False), ('new width', fvar('xg', B, H, W, mul(const(8), dim('q'))), None)):
        if skip is None:
            z, skip = fvar('xg', B, H, W, add(F, const(8), dim('q', lo=0))), True
        cx.law(f'residual block, {nm}', lambda z=z: forward(cx, mod('ResnetBlock', dim=scalar(F)), root(), z, te), [],
               lambda z=z, skip=skip: forward(cx, ref('Res', scalar(F), 8, skip), root(), z, te), cons=U + 'ResnetBlock')
    cx.law('attention', lambda: forward(cx, mod('Attention'), root(), x), [],
           lambda: forward(cx, ref('Attn', 4, 32, 10), root(), x), cons=U + 'Attention')
    cx.law('linear attention', lambda: forward(cx, mod('LinearAttention'), root(), x), [],
           lambda: forward(cx, ref('LinAttn', 4, 32), root(), x), cons=U + 'LinearAttention')


@rule('N07', technique='value-flow graph of the training kernels over an uninterpreted optimiser and loss, every branch',
      note='', minimum=5)
def n07(cx):
    mk_ = 'fbs.nn.utils.make_optax_kernel'
    p, s = dim('nparam'), dim('nstate')
    param, state = fvar('param', p), fvar('state', s)
    loss = opq('loss')
    opt = Rec('optimiser', {'update': opqf('opt.update', lambda i, a, k: (('f', (p,)), ('f', (s,)))),
                            'init': opq('opt.init', s)})
    data, key_ = fvar('data', dim('n')), key()
    for jit in (True, False):
        def step():
            return cx.call(cx.call(mk_, opt, loss, jit)[0], param, state, key_, data)
        cx.law(f'optimiser step, jit={jit}', step, [],
               lambda: cx.call('nets:train_step', opt, loss, param, state, key_, data), cons=mk_,
               labels=['param', 'state', 'loss'])
    cx.law('optimiser step, extra keyword', lambda: cx.call(cx.call(mk_, opt, loss)[0], param, state, key_, _kw={'extra': data}), [],
           lambda: cx.call('nets:train_step', opt, loss, param, state, key_, _kw={'extra': data}), cons=mk_,
           labels=['param', 'state', 'loss'])
    e, dec = fvar('ema', p), fvar('decay')
    st = dim('start', lo=0)
    ev = dim('every')
    k = dim('k', lo=0)

    def run(count, start):
        return cx.call(cx.call(mk_, opt, loss)[1], e, param, scalar(count), scalar(start), scalar(ev), dec)
    # before the start; at a multiple of the period; between two multiples
    cx.law('ema: before the start the average is the parameter', lambda: run(k, add(k, ONE, st)), [], lambda: param, cons=mk_)
    q, r = dim('q', lo=0), dim('r')
    cx.law('ema: averaged at multiples of the period', lambda: run(mul(ev, add(q, st)), mul(ev, q)), [],
           lambda: cx.call('nets:ema', e, param, dec), cons=mk_)
    cx.law('ema: averaged at the start itself', lambda: run(ev, ev), [], lambda: cx.call('nets:ema', e, param, dec), cons=mk_)

    def off(q):
        # the start is no multiple of the period
        r, more, a = dim('r'), dim('more'), dim('a', lo=0)
        every = add(r, more)
        count = mul(every, add(a, q))
        return cx.call(cx.call(mk_, opt, loss)[1], e, param, scalar(count), scalar(sub(mul(every, q), r)), scalar(every), dec)

    cx.law('ema: averaged at multiples of the period from any start', lambda: off(dim('q')), [],
           lambda: cx.call('nets:ema', e, param, dec), cons=mk_)

    def between(off=False):
        # 0 < r < every
        r, more = dim('r'), dim('more')
        every = add(r, more)
        count = add(mul(every, add(q, st)), r)
        start = add(mul(every, q), r) if off else mul(every, q)
        return cx.call(cx.call(mk_, opt, loss)[1], e, param, scalar(count), scalar(start), scalar(every), dec)
    cx.law('ema: unchanged between the multiples', between, [], lambda: e, cons=mk_)
    cx.law('ema: unchanged between the multiples whatever the start', lambda: between(True), [], lambda: e, cons=mk_)
