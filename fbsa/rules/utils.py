"""Gaussian and matrix utilities."""
from ..rule import *
from .smc import VFG, NOTE, ASM

M = 'fbs.utils.'


@rule('S09', VFG, NOTE, ASM + ['covariances symmetric positive definite'], 5)
def s09(cx):
    d = dim('d')
    A, G, dt = fvar('A', d, d), fvar('gamma', d, d), fvar('dt')
    m0, m1, C0, C1 = fvar('m0', d), fvar('m1', d), fvar('cov0', d, d), fvar('cov1', d, d)
    for c in (C0, C1):
        SYMMETRIC.add(c.node())
    cx.law('discretise_lti_sde', lambda: cx.call(M + 'discretise_lti_sde', A, G, dt), [], 'utils:lti', sargs=[A, G, dt],
           cons=M + 'discretise_lti_sde', labels=['F', 'cov'], rule='transition moments of dX = A X dt + B dW (Van Loan)')
    cx.law('sqrtm', lambda: cx.call(M + 'sqrtm', C0), [], 'utils:sqrtm', sargs=[C0], cons=M + 'sqrtm', labels=['root'],
           rule='the symmetric square root from the spectral decomposition')
    cx.law('sqrtm[other method]', lambda: cx.call(M + 'sqrtm', C0, 'schur'), [], 'utils:sqrtm_schur', sargs=[C0],
           cons=M + 'sqrtm', labels=['root'], rule='real part of the principal square root')
    sq = cx.get(M + 'sqrtm')
    cx.law('bures_dist', lambda: cx.call(M + 'bures_dist', m0, C0, m1, C1), [], 'utils:bures',
           sargs=[m0, C0, m1, C1, sq], cons=M + 'bures_dist', labels=['distance'], summ=('sqrtm',),
           rule='squared Bures-Wasserstein distance')
    cx.law('kl', lambda: cx.call(M + 'kl', m0, C0, m1, C1), [], 'utils:kl', sargs=[m0, C0, m1, C1], cons=M + 'kl',
           labels=['kl'], rule='Kullback-Leibler divergence of two Gaussians')
