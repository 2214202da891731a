"""SDE simulators."""
from ..rule import *
from .smc import VFG, NOTE, ASM

M = 'fbs.sdes.simulators.'


def world():
    d = rest_dim('d')
    drift = opqf('drift', lambda i, a, k: ('f', tuple(lift(a[0]).shape)))
    score = opqf('score', lambda i, a, k: ('f', tuple(lift(a[0]).shape)))
    disp = opqf('dispersion', lambda i, a, k: ('f', tuple(lift(a[0]).shape)))
    return fvar('x0', d), fvar('ts', add(dim('K'), ONE)), drift, disp, score


@rule('S08', VFG, NOTE, ASM, 10)
def s08(cx):
    x0, ts, drift, disp, score = world()
    for nm, m in (('m', scalar(add(dim('m'), const(2)))), ('1', 1)):
        for path in (False, True):
            cx.law(f'euler_maruyama[substeps={nm},path={path}]',
                   lambda: cx.call(M + 'euler_maruyama', key(), x0, ts, drift, disp, integration_nsteps=m, return_path=path),
                   [], 'sims:em', sargs=[key(), x0, ts, drift, disp, m, path], cons=M + 'euler_maruyama',
                   labels=['path' if path else 'terminal'], rule='Euler-Maruyama recursion, ascending or descending grid')
        cx.law(f'reverse_simulator[substeps={nm}]',
               lambda: cx.call(M + 'reverse_simulator', key(), x0, ts, score, drift, disp, integration_nsteps=m),
               [], 'sims:reverse', sargs=[key(), x0, ts, score, drift, disp, m], cons=M + 'reverse_simulator',
               labels=['terminal'], rule='time-reversed drift -f + g^2 score at T - t')
    cx.law('euler_maruyama[default substeps]', lambda: cx.call(M + 'euler_maruyama', key(), x0, ts, drift, disp),
           [], 'sims:em', sargs=[key(), x0, ts, drift, disp, 1, False], cons=M + 'euler_maruyama',
           labels=['terminal'], rule='one substep, terminal value')
    f = opqf('f', lambda i, a, k: ('f', tuple(lift(a[0]).shape)))
    q = opqf('q', lambda i, a, k: ('f', ()))
    cx.law('discrete_time_simulator', lambda: cx.call(M + 'discrete_time_simulator', key(), x0, ts, f, q),
           [], 'sims:discrete', sargs=[key(), x0, ts, f, q], cons=M + 'discrete_time_simulator', labels=['terminal'],
           rule='X_{k+1} = f(X_k, t_{k+1}, t_k) + q(t_{k+1}, t_k) w')
    xT = fvar('xT', tuple(x0.shape))
    sde = Rec('sde', {'bridge_drift': opqf('bridge_drift', lambda i, a, k: ('f', tuple(lift(a[0]).shape))),
                      'dispersion': disp})
    for nm, m in (('m', scalar(add(dim('m'), const(2)))), ('1', 1)):
        for rep in (False, True):
            cx.law(f'doob_bridge_simulator[substeps={nm},replace={rep}]',
                   lambda: cx.call(M + 'doob_bridge_simulator', key(), sde, x0, xT, ts, integration_nsteps=m, replace=rep),
                   [], 'sims:doob', sargs=[key(), sde, x0, xT, ts, m, rep], cons=M + 'doob_bridge_simulator',
                   labels=['path'], rule='Euler-Maruyama with the bridge drift towards xT at ts[-1], from x0')
