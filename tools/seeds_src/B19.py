PROPERTY = 'C11'
NEEDS = 'weights whose rounded sum is below the last point'
WHAT = 'the resampling returns the index n, which is no particle'
EDITS = [('fbs/samplers/resampling.py', '                           (jnp.arange(n, dtype=weights.dtype) + u) / n)\n    return jnp.clip(idx, 0, n - 1)', '                           (jnp.arange(n, dtype=weights.dtype) + u) / n)\n    return jnp.clip(idx, 0, n)')]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.samplers.resampling import stratified, systematic

ws = jnp.array([0.3, 0.3, 0.2, 0.19])  # a sum below one, as after rounding, only larger
for f in (stratified, systematic):
    inds = jax.vmap(lambda k: f(ws, k))(jax.random.split(jax.random.PRNGKey(0), 2000))
    assert int(inds.max()) <= 3 and int(inds.min()) >= 0, f
'''
