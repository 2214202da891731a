"""Resampling schemes."""
from ..rule import *
from .smc import VFG, NOTE, ASM


@rule('C11', VFG, NOTE, ASM, 4)
def c11(cx):
    n = dim('n')
    w = fvar('weights', n)
    for f in ('systematic', 'stratified', 'multinomial', 'killing'):
        cx.law(f, f'fbs.samplers.resampling.{f}', [w, key()], f'resamp:{f}', labels=['indices'],
               rule='ancestor index law given the weights')


@rule('C12', VFG, NOTE, ASM, 5)
def c12(cx):
    n = dim('n')
    w = fvar('weights', n)
    i, j = scalar(var('i', kind='i', min=0, size=n)), scalar(var('j', kind='i', min=0, size=n))
    m = 'fbs.samplers.csmc.resamplings.'
    for f in ('multinomial', 'killing'):
        for c in (True, False):
            cx.law(f'{f}[conditional={c}]', m + f, [key(), w, i, j, c], f'resamp:cond_{f}', labels=['indices'],
                   rule='conditional ancestor law: index j has ancestor i')
    cx.law('systematic[conditional=False]', m + 'systematic', [key(), w, i, j, False], 'resamp:cond_systematic',
           sargs=[key(), w], labels=['indices'], rule='ancestor index law given the weights')
