PROPERTY = 'D02'
NEEDS = 'an image that is not square'
WHAT = 'putting an image back together swaps its sides'
EDITS = [('fbs/data/images.py', 'return img.reshape(*img.shape[:-2], img_w, img_h, img_c)', 'return img.reshape(*img.shape[:-2], img_h, img_w, img_c)')]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.data.images import ImageRestore

d = ImageRestore('inpaint-3', (6, 10, 1))
m = d.gen_mask(jax.random.PRNGKey(0))
x = jax.random.normal(jax.random.PRNGKey(1), (2, 6, 10, 1))
y = d.concat(*d.unpack(x, m), m)
assert y.shape == x.shape and jnp.array_equal(x, y), y.shape
'''
