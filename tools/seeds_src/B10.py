PROPERTY = 'C13'
NEEDS = 'explicit_final=True and a time-dependent likelihood'
WHAT = 'the initial weights of the conditional SMC run are taken one time step late'
EDITS = [('fbs/samplers/gibbs.py', 'return likelihood_logpdf(v0, u0s, v1, ts[0], **kwargs)',
          'return likelihood_logpdf(v0, u0s, v1, ts[1], **kwargs)')]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.samplers import gibbs_kernel

K, n = 3, 4
ts = jnp.array([5., 6., 7., 8.])
seen = []

def lik(v, us, vp, t):
    jax.debug.callback(lambda x: seen.append(float(x)), t)
    return jnp.zeros(us.shape[0])

out = gibbs_kernel(jax.random.PRNGKey(0), jnp.zeros(1), jnp.zeros(1), jnp.zeros((K + 1, 1)), jnp.zeros(K + 1, dtype=int),
                   ts, lambda k, x, y: jnp.zeros((K + 1, 2)), None, lambda p: (p[..., :1], p[..., 1:]), n,
                   lambda us, v, t, k: us, None, lik, marg_y=False, explicit_backward=True, explicit_final=True)
jax.block_until_ready(out)
jax.effects_barrier()
assert sorted(seen) == [5., 5., 6., 7.], seen
'''
