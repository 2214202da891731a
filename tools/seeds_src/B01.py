PROPERTY = 'C01'
NEEDS = 'a model whose observation likelihood depends on keyword arguments handed through the filter'
WHAT = 'the bootstrap filter no longer hands its keyword arguments to the measurement density'
EDITS = [('fbs/samplers/smc.py', 'log_weights = measurement_cond_pdf(v, us_prev, v_prev, t_prev, **kwargs)',
          'log_weights = measurement_cond_pdf(v, us_prev, v_prev, t_prev)')]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.samplers import bootstrap_filter

def trans(us, v, t, key, scale=1.):
    return scale * us + 1.

def lik(v, us, v_prev, t, scale=1.):
    return -0.5 * scale * jnp.sum((us - v) ** 2, axis=-1)

K, n = 4, 3
vs = jnp.arange(K + 1.)[:, None]
ts = jnp.linspace(0., 1., K + 1)
us0 = jnp.array([[0.], [1.], [3.]])
_, nell = bootstrap_filter(trans, lik, vs, ts, lambda k, v, m: us0, jax.random.PRNGKey(0), n,
                           lambda w, k: jnp.arange(n), scale=2.)
want, us = 0., us0
for k in range(K):
    want -= jnp.log(jnp.mean(jnp.exp(lik(vs[k + 1], us, vs[k], ts[k], scale=2.))))
    us = trans(us, vs[k], ts[k], None, scale=2.)
assert abs(nell - want) < 1e-3 * abs(want), (nell, want)
'''
