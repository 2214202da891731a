"""The Gibbs sampler."""
from ..rule import *
from .smc import VFG, NOTE, ASM
from .csmc import CS


SUMM = ('forward_pass', 'backward_scanning_pass', 'force_move', 'doob_bridge_simulator', 'bootstrap_filter',
        'bootstrap_backward_smoother')


class GS(CS):
    def __init__(self):
        super().__init__()
        self.x0 = fvar('x0', self.du)
        self.y0 = fvar('y0', self.dv)
        self.dz = rest_dim('dz')
        self.fwd = opqf('fwd_sampler', lambda i, a, k: ('f', (self.K1, self.dz)))
        self.unpack = opqf('unpack', lambda i, a, k: (('f', (self.K1, self.du)), ('f', (self.K1, self.dv))))
        self.sde = Rec('sde', {'bridge_drift': opqf('bridge_drift', lambda i, a, k: ('f', tuple(lift(a[0]).shape))),
                               'dispersion': opq('dispersion')})


@rule('C13', VFG, NOTE, ASM, 6)
def c13(cx):
    s = GS()
    for marg in (False, True):
        for eb in (True, False):
            for ef in (True, False):
                kws_ = (('', {}), ('+kwargs', s.kw)) if not marg else (('+kwargs', s.kw),)
                for nm, kw in kws_:
                    cx.law(f'gibbs_kernel[marg_y={marg},explicit_backward={eb},explicit_final={ef}]{nm}',
                           'fbs.samplers.gibbs.gibbs_kernel',
                           [s.key, s.x0, s.y0, s.us, s.bs, s.ts, s.fwd, s.sde, s.unpack, s.n_, s.trans, s.tlogpdf,
                            s.lik, marg, eb, ef], 'gibbs:gibbs_kernel', kw=kw,
                           summ=SUMM, labels=['x0', 'us_star', 'bs_star', 'moved'],
                           rule='forward path, conditional SMC in reversed time, selection, fresh reference')


@rule('C14', VFG, NOTE, ASM, 6)
def c14(cx):
    s = GS()
    sh = star(s.du)
    for method in ('filter', 'smoother'):
        for marg in (False, True):
            for xn, x0 in (('None', None), ('given', s.x0)):
                for nm, kw in (('', {}), ('+kwargs', s.kw)):
                    cx.law(f'gibbs_init[method={method},marg_y={marg},x0={xn}]{nm}', 'fbs.samplers.gibbs.gibbs_init',
                           [s.key, s.y0, sh, s.ts, s.fwd, s.sde, s.unpack, s.trans, s.tlogpdf, s.lik, s.n_, method,
                            marg, x0], 'gibbs:gibbs_init', kw=kw, summ=SUMM, labels=['x0', 'us_star'],
                           rule='forward observation path, filter (and smoother), initial trajectory')
