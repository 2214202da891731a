PROPERTY = 'C10'
NEEDS = 'a current particle that carries most of the weight'
WHAT = 'the forced move accepts with the inverse ratio of complements, so it almost always leaves heavy particles'
EDITS = [('fbs/samplers/gibbs.py', 'accept = u * (1 - weights[i]) < temp', 'accept = u * temp < 1 - weights[i]')]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.samplers.gibbs import force_move

w = jnp.array([0.9, 0.06, 0.04])
keys = jax.random.split(jax.random.PRNGKey(0), 4000)
idx, alpha = jax.vmap(lambda k: force_move(k, w, 0))(keys)
moved = float(jnp.mean(idx != 0))
want = (0.06 / 0.1) * 0.1 / 0.94 + (0.04 / 0.1) * 0.1 / 0.96
assert abs(moved - want) < 0.05, (moved, want)
assert abs(float(alpha[0]) - want) < 1e-4, (alpha[0], want)
'''
