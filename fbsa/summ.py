"""Call summaries: a public function with its own property is an uninterpreted function of its arguments."""
from . import terms as tm
from .terms import *
from .arr import *
from .interp import Opaque, Func, Native, Partial, Bound, Instance


class NoSummary(Exception):
    pass


def params(f, args, kwargs):
    """Arguments by position of the declared parameters, plus the remaining keyword arguments."""
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    n = len(names)
    if len(args) > n:
        raise NoSummary()
    vals = dict(zip(names, args))
    rest = {}
    for k, v in kwargs.items():
        if k in names:
            if k in vals:
                raise NoSummary()
            vals[k] = v
        else:
            rest[k] = v
    nd = len(f.defaults)
    for i, p in enumerate(names):
        if p not in vals:
            j = i - (n - nd)
            if j < 0:
                raise NoSummary()
            vals[p] = f.defaults[j]
    if rest and a.kwarg is None:
        raise NoSummary()
    return [vals[p] for p in names], rest


def sig(it, v):
    """Identity of an argument of a summarised call."""
    if isinstance(v, Opaque):
        return ('fn', v.name)
    if isinstance(v, Func):
        if v.scope is getattr(v.module, 'env', None):
            return ('fn', v.qual)
        raise NoSummary()
    if isinstance(v, (Native, Partial, Bound)):
        raise NoSummary()
    if isinstance(v, (tuple, list)):
        return tuple(sig(it, x) for x in v)
    return it.to_nodes(v)


def app_(it, name, args, rest, out):
    nodes = tuple(sig(it, x) for x in args)
    if rest:
        nodes = nodes + (('kw',) + tuple((k, sig(it, rest[k])) for k in sorted(rest, key=str)),)

    def make(s, path):
        if isinstance(s[0], str):
            return of_node(app('summary:' + name + path, nodes, s[0], tuple(s[1])))
        return tuple(make(x, f'{path}.{i}') for i, x in enumerate(s))

    it.summary_log.append(name)
    return make(out, '')


def shp(it, v):
    return tuple(lift(v).shape)


def forward_pass(it, f, a, rest):
    from .rule import key  # noqa
    k, us, bs, vs, ts, init, il, trans, lik, res, n = a[:11]
    K1 = shp(it, us)[0]
    kk = lift(k).body
    k0, k1 = ksplit(kk, const(2), ZERO), ksplit(kk, const(2), ONE)
    us0 = lift(it.call(init, [scalar(k0), lift(as_dim_add(n))], {}))
    us_, bs_, vs_ = lift(us), lift(bs), lift(vs)
    ref, b0 = index(us_, (0,)), index(bs_, (0,))
    us0 = build(us0.shape, lambda i, *r: ite(eq(i, b0.body), elem_(ref, r), elem_(us0, (i,) + r)))
    lw0 = lift(it.call(il, [index(vs_, (0,)), us0, index(vs_, (1,))], rest))
    if lw0.ndim != 1:
        raise NoSummary()
    N = lw0.shape[0]
    v = lw0.vs[0]
    tot = sum_(N, v, exp(lw0.body))
    lwn = build((N,), lambda i: sub(elem_(lw0, (i,)), log(tot)))
    K = sub(K1, ONE)
    return app_(it, 'forward_pass', [scalar(k1), us, bs, vs, ts, us0, lwn, trans, lik, res], rest,
                (('i', (K, N)), ('f', (K1, N)), ('f', (K1,) + us0.shape)))


def as_dim_add(n):
    return add(as_dim(n), ONE)


def elem_(x, ix):
    return subst(x.body, dict(zip(x.vs, ix))) if x.ndim else x.body


def backward_scanning_pass(it, f, a, rest):
    As, xss = lift(a[1]), lift(a[2])
    K1 = xss.shape[0]
    return app_(it, 'backward_scanning_pass', a[:4], rest, (('f', (K1,) + xss.shape[2:]), ('i', (K1,))))


def backward_sampling_pass(it, f, a, rest):
    xss = lift(a[4])
    K1 = xss.shape[0]
    return app_(it, 'backward_sampling_pass', a[:6], rest, (('f', (K1,) + xss.shape[2:]), ('i', (K1,))))


def force_move(it, f, a, rest):
    return app_(it, 'force_move', a[:3], rest, (('i', ()), ('f', ())))


def doob_bridge_simulator(it, f, a, rest):
    k, sde, x0, xT, ts, n, replace = a[:7]
    return app_(it, 'doob_bridge_simulator', [k, sde, x0, xT, ts, lift(n), replace], rest,
                ('f', shp(it, ts)[:1] + shp(it, x0)))


def bootstrap_filter(it, f, a, rest):
    trans, lik, vs, ts, init, k, n, res, log_, last = a[:10]
    if last not in (True, False) or log_ not in (True, False):
        raise NoSummary()
    kk = lift(k).body
    k0, k1 = ksplit(kk, const(2), ZERO), ksplit(kk, const(2), ONE)
    us0 = lift(it.call(init, [scalar(k0), index(lift(vs), (0,)), n], {}))
    K1 = shp(it, vs)[0]
    sh = us0.shape if last else (K1,) + us0.shape
    return app_(it, f'bootstrap_filter[{log_},{last}]', [trans, lik, vs, ts, us0, scalar(k1), lift(n), res], rest,
                (('f', sh), ('f', ())))


def bootstrap_backward_smoother(it, f, a, rest):
    us = lift(a[1])
    return app_(it, 'bootstrap_backward_smoother', a[:5], rest, ('f', (us.shape[0],) + us.shape[2:]))


def euler_maruyama(it, f, a, rest):
    k, x0, ts, drift, disp, n, path = a[:7]
    if path not in (True, False):
        raise NoSummary()
    sh = shp(it, x0)
    out = ('f', shp(it, ts)[:1] + sh) if path else ('f', sh)
    return app_(it, f'euler_maruyama[{path}]', [k, x0, ts, drift, disp, lift(n)], rest, out)


def sde_blocks(it, tag, ident, nolen, has_s):
    """(discretisation, conditional score, forward simulator) as uninterpreted functions."""
    base = ('blk', tag) + ident

    def disc(it_, a, k):
        xs = list(a) + [k[n] for n in (('t', 's') if has_s else ('t',)) if n in k]
        if len(xs) != (2 if has_s else 1):
            raise NoSummary()
        return tuple(ew(lambda *b: fn('disc' + c + str(base), *b), *xs) for c in 'FQ')

    def score(it_, a, k):
        names = ('x', 't', 'x0', 's') if has_s else ('x', 't', 'x0')
        xs = list(a) + [k[n] for n in names[len(a):]]
        return ew(lambda *b: fn('score' + str(base), *b), *xs)

    def sim(it_, a, k):
        names = ('key', 'x0', 'ts') + (('t0',) if has_s else ()) + ('keep_path',)
        d = dict(zip(names, a))
        d.update(k)
        t0, keep = d.get('t0'), d.get('keep_path', True)
        x0, ts = lift(d['x0']), lift(d['ts'])
        args = [d['key'], x0, ts] + ([] if keep or t0 is None else [t0])
        return app_(it_, f'sim[{keep}]{base}', args, {}, ('f', ts.shape + x0.shape))

    return Native('disc', disc), Native('score', score), Native('sim', sim)


def make_linear_sde(it, f, a, rest):
    it.summary_log.append('make_linear_sde')
    return sde_blocks(it, 'linear', (str(sig(it, a[0])),), True, True)


def make_ou_sde(it, f, a, rest):
    it.summary_log.append('make_ou_sde')
    return sde_blocks(it, 'ou', tuple(lift(x).body.dig.hex() if hasattr(lift(x).body.dig, 'hex') else str(lift(x).body.dig)
                                      for x in a[:2]), True, False)


def sqrtm(it, f, a, rest):
    m = lift(a[0])
    if m.ndim != 2 or len(a) > 1 and a[1] != f.defaults[-1]:
        raise NoSummary()
    out = app_(it, 'sqrtm', [m], rest, ('f', m.shape))
    tm.SYMMETRIC.add(out.node())
    return out


TABLE = {
    'fbs.utils.sqrtm': sqrtm,
    'fbs.sdes.linear.make_linear_sde': make_linear_sde,
    'fbs.sdes.linear.make_ou_sde': make_ou_sde,
    'fbs.samplers.csmc.csmc.forward_pass': forward_pass,
    'fbs.samplers.csmc.csmc.backward_scanning_pass': backward_scanning_pass,
    'fbs.samplers.csmc.csmc.backward_sampling_pass': backward_sampling_pass,
    'fbs.samplers.gibbs.force_move': force_move,
    'fbs.sdes.simulators.doob_bridge_simulator': doob_bridge_simulator,
    'fbs.samplers.smc.bootstrap_filter': bootstrap_filter,
    'fbs.samplers.smc.bootstrap_backward_smoother': bootstrap_backward_smoother,
}


def install(it, names):
    """Summarise the named functions in this interpreter; returns the overrides to remove afterwards."""
    it.summary_log = []
    done = []
    for nm in names:
        full = [k for k in TABLE if k.endswith('.' + nm)][0]
        f = it.get(full)
        if not isinstance(f, Func) or f.qual in it.overrides:
            continue

        def ov(it_, args, kwargs, f=f, full=full):
            try:
                a, rest = params(f, args, kwargs)
                return TABLE[full](it_, f, a, rest)
            except NoSummary:
                it_.summary_log.append('!' + full)
                return it_.call_func(f, args, kwargs)

        it.overrides[f.qual] = ov
        done.append(f.qual)
    return done
