PROPERTY = 'C03'
NEEDS = 'a likelihood or transition that depends on time'
WHAT = 'the inner particle filter runs every step with the time of the step end'
EDITS = [('fbs/samplers/smc.py', '(vs_bridge[1:], vs_bridge[:-1], ts[:-1], keys))', '(vs_bridge[1:], vs_bridge[:-1], ts[1:], keys))')]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.samplers.smc import pmcmc_filter_step

K, n = 3, 2
ts = jnp.array([1., 2., 4., 8.])
us, ll = pmcmc_filter_step(jax.random.PRNGKey(0), jnp.zeros((K + 1, 1)), jnp.zeros((n, 1)), ts,
                           lambda us, v, t, k: us + t, lambda v, us, vp, t: -t * jnp.ones(n), lambda w, k: jnp.arange(n), n)
assert jnp.allclose(us, 7.) and jnp.allclose(ll, -7.), (us, ll)
'''
