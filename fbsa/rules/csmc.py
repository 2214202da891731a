"""Conditional SMC kernels."""
from ..rule import *
from .smc import SSM, VFG, NOTE, ASM


class CS(SSM):
    def __init__(self):
        super().__init__()
        self.N1 = add(self.n, ONE)
        self.us = fvar('us_star', self.K1, self.du)
        self.bs = fvar('bs_star', self.K1, kind='i')
        self.initk = opqf('init_sampler', lambda i, a, k: ('f', (as_dim(a[1]), self.du)))
        self.il = opqf('init_likelihood_logpdf', lambda i, a, k: ('f', (lift(a[1]).shape[0],)))
        self.cres = opqf('cond_resampling', lambda i, a, k: ('i', (lift(a[1]).shape[0],)))


@rule('C07', VFG, NOTE, ASM, 2)
def c07(cx):
    s = CS()
    for nm, kw in (('', {}), ('+kwargs', s.kw)):
        cx.law(f'forward_pass{nm}', 'fbs.samplers.csmc.csmc.forward_pass',
               [s.key, s.us, s.bs, s.vs, s.ts, s.initk, s.il, s.trans, s.lik, s.cres, s.n_], 'csmc:forward_pass',
               kw=kw, labels=['ancestors', 'log_weights', 'particles'],
               rule='reference pinned at its index at every time; conditional resampling indices; weight alignment')


@rule('C08', VFG, NOTE, ASM, 3)
def c08(cx):
    s = CS()
    uss = fvar('uss', s.K1, s.n, s.du)
    lws = fvar('log_ws', s.K1, s.n)
    As = fvar('As', s.K, s.n, kind='i')
    cx.law('backward_scanning_pass', 'fbs.samplers.csmc.csmc.backward_scanning_pass',
           [s.key, As, uss, fvar('log_w_T', s.n)], 'csmc:backward_scanning', labels=['trajectory', 'indices'],
           rule='ancestral lineage of one weighted terminal particle')
    for nm, kw in (('', {}), ('+kwargs', s.kw)):
        cx.law(f'backward_sampling_pass{nm}', 'fbs.samplers.csmc.csmc.backward_sampling_pass',
               [s.key, s.tlogpdf, s.vs, s.ts, uss, lws], 'csmc:backward_sampling', kw=kw,
               labels=['trajectory', 'indices'], rule='backward sampling weights and time alignment')


@rule('C09', VFG, NOTE, ASM, 4)
def c09(cx):
    s = CS()
    for back in (False, True):
        for nm, kw in (('', {}), ('+kwargs', s.kw)):
            cx.law(f'csmc_kernel[backward={back}]{nm}', 'fbs.samplers.csmc.csmc.csmc_kernel',
                   [s.key, s.us, s.bs, s.vs, s.ts, s.initk, s.il, s.trans, s.tlogpdf, s.lik, s.cres, s.n_, back],
                   'csmc:csmc_kernel', kw=kw,
                   summ=('forward_pass', 'backward_scanning_pass', 'backward_sampling_pass'), labels=['trajectory', 'indices'],
                   rule='forward pass then the selected backward pass')


@rule('C10', VFG, NOTE, ASM, 1)
def c10(cx):
    s = CS()
    w = fvar('weights', s.n)
    k = scalar(var('k', kind='i', min=0))
    cx.law('force_move', 'fbs.samplers.gibbs.force_move', [s.key, w, k], 'csmc:force_move',
           labels=['index', 'alpha'], rule='forced-move proposal and acceptance')
