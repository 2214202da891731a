PROPERTY = 'S09'
NEEDS = 'a drift matrix that is not symmetric'
WHAT = 'the matrix-fraction discretisation drops a transpose'
EDITS = [('fbs/utils.py', 'jnp.hstack([jnp.zeros_like(A), -A.T])', 'jnp.hstack([jnp.zeros_like(A), -A])')]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.utils import discretise_lti_sde

A = jnp.array([[0., 1.], [-2., -0.5]])
g = jnp.array([[0., 0.], [0., 1.]])
F, Q = discretise_lti_sde(A, g, 0.7)
s = (jnp.arange(20000) + 0.5) / 20000 * 0.7
E = jax.vmap(lambda r: jax.scipy.linalg.expm(A * r))(s[::20])
want = jnp.mean(jnp.einsum('nij,jk,nlk->nil', E, g, E), axis=0) * 0.7
assert jnp.allclose(Q, want, atol=1e-3), (Q, want)
'''
