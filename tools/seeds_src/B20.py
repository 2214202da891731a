PROPERTY = 'C10'
NEEDS = 'a reference weight above 1 - exp(-n)'
WHAT = 'near-degenerate weights make the forced move propose particles of zero weight'
EDITS = [('fbs/samplers/gibbs.py', 'threshold = jnp.maximum(1 - jnp.exp(-M), 1 - 1e-12)', 'threshold = jnp.minimum(1 - jnp.exp(-M), 1 - 1e-12)')]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.samplers.gibbs import force_move

ws = jnp.array([0.96, 0.04, 0.])
inds, _ = jax.vmap(lambda k: force_move(k, ws, 0))(jax.random.split(jax.random.PRNGKey(0), 20000))
assert int(jnp.sum(inds == 2)) == 0
'''
