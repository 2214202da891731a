"""Linear SDEs: moments, conditional simulation, scores, losses, Gaussian bridges."""
from ..rule import *
from .smc import VFG, NOTE, ASM

L = 'fbs.sdes.linear.'
ODE = 'symbolic differentiation on the value-flow graph, compared with the moment equations and the closed forms'


def sdes(cx):
    """The three families with symbolic parameters: name -> (instance, parameter tuple)."""
    p = {'const': (fvar('a'), fvar('b')), 'lin': tuple(fvar(x) for x in ('beta_min', 'beta_max', 't0_', 'T_')),
         'exp': tuple(fvar(x) for x in ('a', 'b', 'c', 'z'))}
    cls = {'const': 'StationaryConstLinearSDE', 'lin': 'StationaryLinLinearSDE', 'exp': 'StationaryExpLinearSDE'}
    return {k: (cx.call(L + cls[k], *p[k]), p[k], L + cls[k]) for k in p}


@rule('S01', VFG + '; ' + ODE, NOTE, ASM, 12)
def s01(cx):
    t, s, m0 = fvar('t'), fvar('s'), fvar('m0')
    x = fvar('x', rest_dim('d'))
    M = fvar('m0v', rest_dim('d'))
    for k, (sde, p, cls) in sdes(cx).items():
        cx.law(f'{k}.drift', lambda: cx.call(cx.it.getattr(sde, 'drift'), x, t), [], 'sdes:drift', sargs=[k, p, x, t],
               cons=cls + '.drift', rule='drift coefficient of the documented SDE')
        cx.law(f'{k}.dispersion', lambda: ew(lambda u: powq(u, Fr(2)), lift(cx.call(cx.it.getattr(sde, 'dispersion'), t))), [],
               'sdes:dispersion_squared', sargs=[k, p, t], cons=cls + '.dispersion',
               rule='squared dispersion of the documented SDE')
        if k == 'exp':
            continue
        cx.law(f'{k}.mean', lambda: cx.call(cx.it.getattr(sde, 'mean'), t, s, M), [], 'sdes:mean', sargs=[k, p, t, s, M],
               cons=cls + '.mean', rule='closed-form conditional mean')
        cx.law(f'{k}.variance', lambda: cx.call(cx.it.getattr(sde, 'variance'), t, s), [], 'sdes:variance',
               sargs=[k, p, t, s], cons=cls + '.variance', rule='closed-form conditional variance')
        cx.law(f'{k}: dm/dt = a m', 'sdes:mean_rate', [sde, t, s, m0], 'sdes:mean_rate_law', cons=cls + '.mean',
               rule='mean evolution equation with the class own drift')
        cx.law(f'{k}: dv/dt = 2 a v + b^2', 'sdes:var_rate', [sde, t, s], 'sdes:var_rate_law', cons=cls + '.variance',
               rule='variance evolution equation with the class own drift and dispersion')


@rule('S02', VFG + '; ' + ODE, NOTE, ASM, 12)
def s02(cx):
    t, r, s = fvar('t'), fvar('r'), fvar('s')
    for k, (sde, p, cls) in sdes(cx).items():
        disc, score, sim = cx.call(L + 'make_linear_sde', sde)
        con = L + 'make_linear_sde'
        cx.law(f'{k}: F, Q', 'sdes:disc_at', [disc, t, s], lambda: cx.call('sdes:moments', k, p, t, s), cons=con,
               labels=['F', 'Q'], rule='closed-form transition moments')
        cx.law(f'{k}: d/dt (F, Q)', 'sdes:disc_rate', [disc, t, s], 'sdes:disc_rate_law', sargs=[disc, sde, t, s],
               labels=['dF', 'dQ'], cons=con, rule='moment evolution equations with the class own drift and dispersion')
        cx.law(f'{k}: (F, Q)(s, s)', 'sdes:disc_start', [disc, s], 'sdes:start_law', sargs=[], cons=con,
               labels=['F', 'Q'], rule='identity at zero elapsed time')
        cx.law(f'{k}: semigroup', 'sdes:semigroup', [disc, t, r, s], 'sdes:disc_at', sargs=[disc, t, s], cons=con,
               labels=['F', 'Q'], rule='Chapman-Kolmogorov over any intermediate time')


@rule('S03', VFG, NOTE, ASM, 12)
def s03(cx):
    d = rest_dim('d')
    x, x0 = fvar('x', d), fvar('x0', d)
    t, s = fvar('t'), fvar('s')
    K1 = add(dim('K'), ONE)
    m = dim('m')
    ts = fvar('ts', K1)
    con = L + 'make_linear_sde'
    for k, (sde, p, cls) in sdes(cx).items():
        disc, score, sim = cx.call(L + 'make_linear_sde', sde)
        cx.law(f'{k}: path', lambda: cx.call(sim, key(), x0, ts), [], 'sdes:forward_path', sargs=[k, p, key(), x0, ts],
               cons=con, labels=['path'], rule='exact Markov transitions along ts, starting at x0, fresh noise per step')
        for nm, t0 in (('None', None), ('given', s)):
            cx.law(f'{k}: marginals[t0={nm}]', lambda: cx.call(sim, key(), x0, ts, t0=t0, keep_path=False), [],
                   'sdes:forward_marginals', sargs=[k, p, key(), x0, ts, t0], cons=con, labels=['marginals'],
                   rule='marginal transition from t0 at every time')
        cx.law(f'{k}: marginal at one time', lambda: cx.call(sim, key(), x0, t, t0=s, keep_path=False), [],
               'sdes:forward_marginal_scalar', sargs=[k, p, key(), x0, t, s], cons=con, labels=['marginal'],
               rule='marginal transition from t0')


@rule('S04', VFG, NOTE, ASM, 8)
def s04(cx):
    d = rest_dim('d')
    x, x0 = fvar('x', d), fvar('x0', d)
    t, s = fvar('t'), fvar('s')
    for k, (sde, p, cls) in sdes(cx).items():
        disc, score, sim = cx.call(L + 'make_linear_sde', sde)
        con = L + 'make_linear_sde'
        for law in ('cond_score', 'cond_score_grad'):
            cx.law(f'{k}: {law}', lambda: cx.call(score, x, t, x0, s), [], f'sdes:{law}', sargs=[k, p, x, t, x0, s],
                   cons=con, labels=['score'], rule='score of the Gaussian transition density')
        if k != 'exp':
            T, y = fvar('T'), fvar('target', d)
            cx.law(f'{k}: bridge_drift', lambda: cx.call(cx.it.getattr(sde, 'bridge_drift'), x, t, y, T), [],
                   'sdes:bridge_drift', sargs=[k, p, x, t, y, T], cons=cls + '.bridge_drift', labels=['drift'],
                   rule='drift plus squared dispersion times the gradient of log p(target at T | x at t)')


@rule('S05', VFG, NOTE, ASM, 5)
def s05(cx):
    a, b, t = fvar('a'), fvar('b'), fvar('t')
    d = dim('d')
    x, x0 = fvar('x', d), fvar('x0', d)
    ts = fvar('ts', add(dim('K'), ONE))
    disc, score, sim = cx.call(L + 'make_ou_sde', a, b)
    con = L + 'make_ou_sde'
    cx.law('ou: F, Q', lambda: cx.call(disc, t), [], 'sdes:ou_moments', sargs=[a, b, t], cons=con, labels=['F', 'Q'],
           rule='closed-form transition moments')
    cx.law('ou: cond_score', lambda: cx.call(score, x, t, x0), [], 'sdes:ou_score', sargs=[a, b, x, t, x0], cons=con,
           labels=['score'], rule='score of the Gaussian transition density')
    cx.law('ou: path', lambda: cx.call(sim, key(), x0, ts), [], 'sdes:ou_path', sargs=[a, b, key(), x0, ts], cons=con,
           labels=['path'], rule='exact Markov transitions along ts')
    cx.law('ou: marginals', lambda: cx.call(sim, key(), x0, ts, keep_path=False), [], 'sdes:ou_marginals',
           sargs=[a, b, key(), x0, ts], cons=con, labels=['marginals'], rule='marginal transition from time 0')
    nn = opqf('nn', lambda i, ar_, k: ('f', tuple(lift(ar_[0]).shape)))
    t0, T, par = fvar('t0'), fvar('T'), fvar('param', dim('np'))
    x0s = fvar('x0s', dim('n'), d)
    ns = dim('nsteps')
    for rt in (True, False):
        cx.law(f'ou loss[random_times={rt}]',
               lambda: cx.call(cx.call(L + 'make_ou_score_matching_loss', a, b, nn, t0, T, scalar(ns), rt), par, key(), x0s),
               [], 'sdes:ou_loss', sargs=[a, b, nn, t0, T, scalar(ns), rt, par, key(), x0s], summ=('make_ou_sde',),
               cons=L + 'make_ou_score_matching_loss',
               labels=['loss'], rule='variance-weighted denoising score matching')


@rule('S06', VFG, NOTE, ASM, 12, ranks=(1, 2))
def s06(cx):
    d = rest_dim('d')
    nn = opqf('nn', lambda i, ar_, k: ('f', tuple(lift(ar_[0]).shape)))
    t0, T, par = fvar('t0'), fvar('T'), fvar('param', dim('np'))
    x0s = fvar('x0s', dim('n'), d)
    ns = scalar(dim('nsteps'))
    con = L + 'make_linear_sde_law_loss'
    for k, (sde, p, cls) in sdes(cx).items():
        def loss(*cfg):
            return cx.call(cx.call(L + 'make_linear_sde_law_loss', sde, nn, t0, T, ns, *cfg), par, key(), x0s)
        for rt in (True, False):
            for lt in ('score', 'ipf', 'ipf-score'):
                if k != 'const' and (rt or lt != 'score'):
                    continue
                cx.law(f'{k}: loss[{lt},random_times={rt}]', lambda: loss(rt, lt, False), [], 'sdes:law_loss',
                       sargs=[sde, nn, t0, T, ns, rt, lt, par, key(), x0s], cons=con, labels=['loss'],
                       summ=('make_linear_sde',), rule='the documented objective over simulated forward paths')
            if k != 'const' and rt:
                continue
            cx.law(f'{k}: loss[score,save_mem,random_times={rt}]', lambda: loss(rt, 'score', True), [],
                   'sdes:law_loss_save_mem', sargs=[sde, nn, t0, T, rt, par, key(), x0s], cons=con, labels=['loss'],
                   summ=('make_linear_sde',), rule='the documented objective, one time per example')


@rule('S07', VFG, NOTE, ASM + ['cov0, cov1 symmetric positive definite; sqrtm is the symmetric square root'], 3)
def s07(cx):
    d = dim('d')
    m0, m1 = fvar('mean0', d), fvar('mean1', d)
    C0, C1 = fvar('cov0', d, d), fvar('cov1', d, d)
    for c in (C0, C1):
        SYMMETRIC.add(c.node())
    sig, t = fvar('sig'), fvar('t')
    x = fvar('x', d)
    sq = cx.get('fbs.utils.sqrtm')
    con = L + 'make_gaussian_bw_sb'
    base = [m0, C0, m1, C1, sig, sq]
    def member(i, *args):
        return lambda: cx.call(cx.call(L + 'make_gaussian_bw_sb', m0, C0, m1, C1, sig)[i], *args)

    cx.law('sb: marginal mean', member(0, t), [], 'sdes:sb_mean', sargs=base + [t], cons=con, labels=['mean'],
           summ=('sqrtm',), rule='closed form of the Gaussian Schroedinger bridge')
    cx.law('sb: marginal covariance', member(1, t), [], 'sdes:sb_cov', sargs=base + [t], cons=con,
           labels=['cov'], summ=('sqrtm',), rule='closed form of the Gaussian Schroedinger bridge')
    cx.law('sb: drift', member(2, x, t), [], 'sdes:sb_drift', sargs=base + [x, t], cons=con, labels=['drift'],
           summ=('sqrtm',), rule='closed form of the Gaussian Schroedinger bridge')
