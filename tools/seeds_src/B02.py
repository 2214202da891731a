PROPERTY = 'C02'
NEEDS = 'a time-inhomogeneous transition density'
WHAT = 'the backward smoother evaluates the transition density at the end instead of the start of each step'
EDITS = [('fbs/samplers/smc.py', '(filter_us[-2::-1], vs[-2::-1], ts[-2::-1],', '(filter_us[-2::-1], vs[-2::-1], ts[:0:-1],')]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.samplers.smc import bootstrap_backward_smoother

K, n = 3, 4
ts = jnp.array([0., 1., 2., 3.])
uf = jnp.arange(4.)[:, None] * 100 + jnp.arange(n)[None, :]

def tlogpdf(u_next, us, v, t):
    return jnp.where(jnp.arange(n) == t.astype(int), 0., -1e3)     # the particle number t has all the mass

traj = bootstrap_backward_smoother(jax.random.PRNGKey(1), uf, jnp.zeros((K + 1, 1)), ts, tlogpdf)
assert jnp.allclose(traj[:-1], jnp.array([0., 101., 202.])), traj
'''
