PROPERTY = 'C14'
NEEDS = "the 'filter' initialisation"
WHAT = 'the initial trajectory is simulated with the key that already made the observation path'
EDITS = [('fbs/samplers/gibbs.py', 'approx_us_star = unpack(fwd_sampler(key_fwd2, approx_x0, y0, **kwargs), **kwargs)[0][::-1]',
          'approx_us_star = unpack(fwd_sampler(key_fwd, approx_x0, y0, **kwargs), **kwargs)[0][::-1]')]
DEMO = '''
import jax
import jax.numpy as jnp
import numpy as np
from fbs.samplers import gibbs_init

K, n = 3, 4
seen = []

def fwd(k, x, y):
    seen.append(tuple(np.asarray(k).tolist()))
    return jnp.zeros((K + 1, 2))

gibbs_init(jax.random.PRNGKey(0), jnp.zeros(1), (1,), jnp.arange(K + 1.), fwd, None,
           lambda p: (p[..., :1], p[..., 1:]), lambda us, v, t, k: us, None,
           lambda v, us, vp, t: jnp.zeros(n), n, method='filter', marg_y=False)
assert len(seen) == 2 and seen[0] != seen[1], seen
'''
