PROPERTY = 'D03'
NEEDS = 'a batch drawn from few samples'
WHAT = 'a subset contains the same sample more than once'
EDITS = [('fbs/data/base.py', 'inds = jax.random.choice(key, jnp.arange(self.n), (batch_size,), replace=False)', 'inds = jax.random.choice(key, jnp.arange(self.n), (batch_size,))')]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.data.base import Dataset


class D(Dataset):
    def __init__(self):
        self.n, self.xs = 10, jnp.arange(10.)[:, None]


for s in range(10):
    x = D().draw_subset(jax.random.PRNGKey(s), 10)
    assert sorted(x[:, 0].tolist()) == list(range(10)), x
'''
