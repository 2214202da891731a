PROPERTY = 'C07'
NEEDS = 'a likelihood that takes keyword arguments'
WHAT = 'the forward pass does not hand the keyword arguments to the likelihood'
EDITS = [('fbs/samplers/csmc/csmc.py', 'log_ws = likelihood_logpdf(v, us_prev, v_prev, t_prev, **kwargs)', 'log_ws = likelihood_logpdf(v, us_prev, v_prev, t_prev)')]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.samplers.csmc.csmc import forward_pass
from fbs.samplers.csmc.resamplings import killing

K, n = 2, 3


def run(scale):
    return forward_pass(jax.random.PRNGKey(0), jnp.zeros((K + 1, 1)), jnp.zeros(K + 1, dtype=int), jnp.zeros((K + 1, 1)), jnp.arange(K + 1.),
                        lambda key, m: jnp.arange(float(n))[:, None], lambda *a, **k: jnp.zeros(n),
                        lambda us, v, t, key, scale=1.: us, lambda v, us, vp, t, scale=1.: scale * us[:, 0],
                        lambda key, w, i, j, c: jnp.arange(n), n - 1, scale=scale)[1]


for c in (1., 3.):
    assert jnp.allclose(jnp.diff(run(c)[1]), c), c
'''
