"""Schroedinger-bridge (iterative proportional fitting) losses."""
from ..rule import *
from .smc import VFG, NOTE, ASM

M = 'fbs.dsb.base.'


@rule('B01', VFG, NOTE, ASM, 3, ranks=(1, 2))
def b01(cx):
    like = lambda i, a, k: ('f', tuple(lift(a[0]).shape))
    b, f = opqf('b', like), opqf('f', like)
    g = opqf('g', lambda i, a, k: ('f', tuple(lift(a[0]).shape)))
    K = dim('K')
    th, sp = fvar('param', dim('p')), fvar('sim_param', dim('q'))
    x2 = fvar('x0s', dim('n'), dim('d'))
    xs = fvar('x0s', dim('n'), rest_dim('d'))
    ks, gam, ts = fvar('ks', add(K, ONE)), fvar('gammas', K), fvar('ts', add(K, ONE))
    cx.law('ipf_loss_disc', lambda: cx.call(M + 'ipf_loss_disc', th, sp, x2, ks, gam, b, f, key()), [],
           'dsb:disc', sargs=[th, sp, x2, ks, gam, b, f, key()], cons=M + 'ipf_loss_disc', labels=['loss'],
           rule='sum over the steps of the mean squared regression residual')
    for nm in ('ipf_loss_cont', 'ipf_loss_cont_v'):
        cx.law(nm, lambda: cx.call(M + nm, key(), th, sp, xs, ts, b, f, g), [],
               'dsb:cont', sargs=[key(), th, sp, xs, ts, b, f, g], cons=M + nm, labels=['loss'],
               rule='mean over the steps of the mean squared regression residual')
