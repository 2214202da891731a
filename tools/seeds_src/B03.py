PROPERTY = 'C04'
NEEDS = 'the correlated proposal, and a rejected move followed by another step'
WHAT = 'after a rejection the chain keeps the rejected observation path next to the old sample'
EDITS = [('fbs/samplers/smc.py', 'lambda _: (uT, log_ell, ys, mcmc_state),', 'lambda _: (uT, log_ell, prop_ys, mcmc_state),')]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.samplers import pmcmc_kernel
from fbs.sdes.linear import StationaryConstLinearSDE

K, n = 5, 4
ts = jnp.linspace(0., 1., K + 1)
sde = StationaryConstLinearSDE(a=-0.5, b=1.)
ys = jnp.ones((K + 1, 2)) * 0.3
uT = jnp.ones((1,))
out = pmcmc_kernel(jax.random.PRNGKey(3), uT, 1e6, ys, ys[0], ts,
                   lambda key, y: jnp.concatenate([y[None], jax.random.normal(key, (K, 2))]), sde,
                   lambda key, v, m: jax.random.normal(key, (m, 1)),
                   lambda us, v, t, key: us, lambda v, us, vp, t: jnp.zeros(us.shape[0]),
                   lambda w, k: jnp.arange(n), n, delta=0.1)
assert jnp.allclose(out[0], uT) and out[1] == 1e6
assert jnp.allclose(out[2], ys), out[2]
'''
