PROPERTY = 'S02'
NEEDS = 'the exponential-schedule SDE with a start time different from its reference time z'
WHAT = 'the integrated coefficient ignores where the step starts, so transitions no longer compose'
EDITS = [('fbs/sdes/linear.py', 'r = a * (jnp.exp(c * (t - z)) - jnp.exp(c * (s - z))) / c',
          'r = a * (jnp.exp(c * (t - s)) - 1.) / c')]
DEMO = '''
import jax.numpy as jnp
from fbs.sdes.linear import StationaryExpLinearSDE, make_linear_sde

disc, _, _ = make_linear_sde(StationaryExpLinearSDE(a=-0.5, b=1., c=1.3, z=0.7))
s, r, t = 0.2, 0.9, 1.6
F1, Q1 = disc(r, s)
F2, Q2 = disc(t, r)
F, Q = disc(t, s)
assert jnp.allclose(F, F1 * F2, rtol=1e-4) and jnp.allclose(Q, F2 ** 2 * Q1 + Q2, rtol=1e-4), (F, F1 * F2, Q)
'''
