"""Particle filters, smoother, particle MCMC, twisted SMC."""
from ..rule import *

VFG = 'value-flow-graph equivalence with a reference law (symbolic abstract interpretation, GVN normal forms)'
NOTE = ('equality of normal forms over exact real arithmetic, for every number of steps/particles/state shape and for '
        'arbitrary user callables; trusts the analyser transfer functions for the jax primitives used.')
ASM = ['real arithmetic (rounding ignored)', 'jax primitives behave as their documented semantics',
       'distinct outputs of jax.random.split are independent keys']


class SSM:
    """Symbolic problem: K steps, n particles, states of any shape."""

    def __init__(self):
        self.K = dim('K')
        self.K1 = add(self.K, ONE)
        self.n = dim('n')
        self.dv, self.du = rest_dim('dv'), rest_dim('du')
        self.vs = fvar('vs', self.K1, self.dv)
        self.ts = fvar('ts', self.K1)
        self.key = key()
        self.n_ = scalar(self.n)
        self.trans = opqf('transition_sampler', lambda i, a, k: ('f', tuple(a[0].shape)))
        self.tlogpdf = opqf('transition_logpdf', lambda i, a, k: ('f', (lift(a[1]).shape[0],)))
        self.lik = opqf('likelihood_logpdf', lambda i, a, k: ('f', (lift(a[1]).shape[0],)))
        self.res = opqf('resampling', lambda i, a, k: ('i', (lift(a[0]).shape[0],)))
        self.init = opq('init_sampler', self.n, self.du)
        self.kw = kws()


@rule('C01', VFG, NOTE, ASM, 4)
def c01(cx):
    s = SSM()
    for log in (True,):
        for last in (True, False):
            args = [s.trans, s.lik, s.vs, s.ts, s.init, s.key, s.n_, s.res, log, last]
            for nm, kw in (('', {}), ('+kwargs', s.kw)):
                cx.law(f'bootstrap_filter[return_last={last}]{nm}', 'fbs.samplers.bootstrap_filter', args,
                       'smc:bootstrap_filter', kw=kw, labels=['particles', 'neg_log_likelihood'],
                       rule='filter recursion, likelihood estimate and ancestor alignment')


@rule('C02', VFG, NOTE, ASM, 1)
def c02(cx):
    s = SSM()
    us = fvar('filter_us', s.K1, s.n, s.du)
    for nm, kw in (('', {}), ('+kwargs', s.kw)):
        cx.law(f'bootstrap_backward_smoother{nm}', 'fbs.samplers.smc.bootstrap_backward_smoother',
               [s.key, us, s.vs, s.ts, s.tlogpdf], 'smc:backward_smoother', kw=kw, labels=['trajectory'],
               rule='backward simulation: terminal draw, weights p(u_{k+1}|u_k), time alignment')


@rule('C03', VFG, NOTE, ASM, 2)
def c03(cx):
    s = SSM()
    u0s = fvar('u0s', s.n, s.du)
    for nm, kw in (('', {}), ('+kwargs', s.kw)):
        cx.law(f'pmcmc_filter_step{nm}', 'fbs.samplers.smc.pmcmc_filter_step',
               [s.key, s.vs, u0s, s.ts, s.trans, s.lik, s.res, s.n_], 'smc:pmcmc_filter_step', kw=kw,
               labels=['uT', 'log_ell'], rule='resample-then-propagate filter and its likelihood estimate')


@rule('C04', VFG, NOTE, ASM, 2)
def c04(cx):
    s = SSM()
    uT, ll, ys = fvar('uT', s.du), fvar('log_ell'), fvar('ys', s.K1, s.dv)
    y0 = fvar('y0', s.dv)
    fwd = opqf('fwd_ys_sampler', lambda i, a, k: ('f', (s.K1, s.dv)))
    sde = Rec('sde', {'mean': opqf('sde_mean', lambda i, a, k: ('f', tuple(lift(a[2]).shape)))})
    ref = opq('ref_sampler', s.n, s.du)
    wu = scalar(var('which_u', kind='i'))
    FACTS_pos('delta')
    delta = fvar('delta')
    for dn, d in (('None', None), ('pcn', delta)):
        for nm, kw in (('', {}), ('+kwargs', s.kw)):
            cx.law(f'pmcmc_kernel[delta={dn}]{nm}', 'fbs.samplers.pmcmc_kernel',
                   [s.key, uT, ll, ys, y0, s.ts, fwd, sde, ref, s.trans, s.lik, s.res, s.n_, d, wu],
                   'smc:pmcmc_kernel', kw=kw,
                   labels=['uT', 'log_ell', 'ys', 'state.acceptance_prob', 'state.is_accepted', 'state.prop_log_ell',
                           'state.log_ell'],
                   rule='Metropolis-Hastings test and atomic accept/reject of (uT, log_ell, ys)')


@rule('C05', VFG, NOTE, ASM, 1)
def c05(cx):
    s = SSM()
    x, mean = fvar('x', s.du), fvar('mean', s.du)
    sampler = opqf('sampler', lambda i, a, k: ('f', (s.du,)))
    delta = fvar('delta')
    cx.law('pcn_proposal', 'fbs.samplers.smc.pcn_proposal', [s.key, delta, x, mean, sampler], 'smc:pcn_proposal',
           labels=['proposal'], rule='coefficients: mean preserving, squares sum to one, independent draws')


@rule('C06', VFG, NOTE, ASM, 2)
def c06(cx):
    s = SSM()
    y = fvar('y', s.dv)
    init = opq('init_sampler', s.n, s.du)
    tl = opqf('transition_logpdf', lambda i, a, k: ('f', (lift(a[0]).shape[0],)))
    tw = opqf('twisting_logpdf', lambda i, a, k: ('f', (lift(a[1]).shape[0],)))
    ps = opqf('twisting_prop_sampler', lambda i, a, k: ('f', tuple(lift(a[1]).shape)))
    pl = opqf('twisting_prop_logpdf', lambda i, a, k: ('f', (lift(a[0]).shape[0],)))
    for nm, kw in (('', {}), ('+kwargs', s.kw)):
        cx.law(f'twisted_smc{nm}', 'fbs.samplers.twisted_smc',
               [s.key, y, s.ts, init, tl, tw, ps, pl, s.res, s.n_], 'smc:twisted_smc', kw=kw,
               labels=['samples', 'log_weights'], rule='incremental weights telescoping against the twisting function')
