PROPERTY = 'N05'
NEEDS = 'a batch of inputs with different times'
WHAT = 'the bridge network uses the first time of the batch for every row'
EDITS = [('fbs/nn/models.py', 'h = jnp.concatenate([x, jnp.broadcast_to(time_emb, (x.shape[0], 32))], axis=-1)', 'h = jnp.concatenate([x, jnp.broadcast_to(time_emb[:1], (x.shape[0], 32))], axis=-1)')]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.nn.models import GMSBMLP

m = GMSBMLP(dim=2, dt=0.1)
x = jax.random.normal(jax.random.PRNGKey(0), (3, 2))
t = jnp.array([0.1, 0.5, 0.9])
p = m.init(jax.random.PRNGKey(1), x, t)
both = m.apply(p, x, t)
for i in range(3):
    assert jnp.allclose(both[i], m.apply(p, x[i:i + 1], t[i])[0], atol=1e-5), i
'''
