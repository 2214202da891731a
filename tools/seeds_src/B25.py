PROPERTY = 'S01'
NEEDS = 'an initial time that is not zero'
WHAT = 'the integral of beta ignores the initial time'
EDITS = [('fbs/sdes/linear.py', '                                + 2 * (beta_min * T - beta_max * t0) / (T - t0))', '                                + 2 * beta_min * T / (T - t0))')]
DEMO = '''
import jax.numpy as jnp
from fbs.sdes.linear import StationaryLinLinearSDE

sde = StationaryLinLinearSDE(beta_min=0.1, beta_max=3., t0=1., T=3.)
s, t = 1.5, 2.5
mid = s + (t - s) * (jnp.arange(1000) + 0.5) / 1000
want = jnp.mean(sde.beta(mid)) * (t - s)
assert jnp.allclose(sde.beta_integral(t, s), want, rtol=1e-3), (sde.beta_integral(t, s), want)
assert jnp.allclose(sde.variance(t, s), 1 - jnp.exp(-want), rtol=1e-3)
'''
