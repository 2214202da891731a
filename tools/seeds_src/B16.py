PROPERTY = 'N04'
NEEDS = 'a batch of images with different times'
WHAT = 'the UNet embeds the time of the first image for the whole batch'
EDITS = [('fbs/nn/unet.py', 'time_emb = jax.vmap(lambda z: sinusoidal_embedding(z, out_dim=self.dim))(time / self.dt)', 'time_emb = jnp.broadcast_to(sinusoidal_embedding(time[0] / self.dt, out_dim=self.dim), (B, self.dim))')]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.nn.unet import UNet

m = UNet(dt=0.1, dim=8)
x = jax.random.normal(jax.random.PRNGKey(0), (2, 8, 8, 1))
t = jnp.array([0.1, 0.9])
p = m.init(jax.random.PRNGKey(1), x, t)
p = jax.tree_util.tree_map(lambda a: a + 0.1 * jax.random.normal(jax.random.PRNGKey(2), a.shape), p)
both = m.apply(p, x, t)
for i in range(2):
    assert jnp.allclose(both[i], m.apply(p, x[i], t[i]), atol=1e-3), i
'''
