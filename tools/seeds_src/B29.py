PROPERTY = 'D05'
NEEDS = 'an image that is not square'
WHAT = 'the painted rectangle moves along the width with the stride of the height'
EDITS = [('fbs/data/images.py', '[int(stride_h * i) for i in range(b + 1)], [int(stride_w * i) for i in range(b + 1)]', '[int(stride_h * i) for i in range(b + 1)], [int(stride_h * i) for i in range(b + 1)]')]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.data.images import Image


class I(Image):
    def __init__(self):
        self.image_shape, self.task = (9, 30, 1), 'inpaint-6'


d, cols = I(), set()
for s in range(200):
    y = d.corrupt(jax.random.PRNGKey(s), jnp.ones((9, 30, 1)))
    assert int(jnp.sum(y == 0)) == 36
    cols.add(int(jnp.argmin(jnp.min(y[:, :, 0], axis=0))))
assert cols == {0, 8, 16, 24}, cols
'''
