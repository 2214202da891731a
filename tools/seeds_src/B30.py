PROPERTY = 'D01'
NEEDS = 'an image that is not square'
WHAT = 'the observed pixels of an inpainting mask are counted in a transposed image'
EDITS = [('fbs/data/images.py', "        all_inds_ravelled = jnp.ravel_multi_index([all_inds[:, 0], all_inds[:, 1]], (img_w, img_h), mode='clip')\n        obs_inds_ravelled", "        all_inds_ravelled = jnp.ravel_multi_index([all_inds[:, 0], all_inds[:, 1]], (img_h, img_w), mode='clip')\n        obs_inds_ravelled")]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.data.images import ImageRestore

d = ImageRestore('inpaint-3', (6, 10, 1))
for s in range(5):
    m = d.gen_mask(jax.random.PRNGKey(s))
    both = jnp.concatenate([m.unobs_inds_ravelled, m.obs_inds_ravelled]).tolist()
    assert sorted(both) == list(range(60)), both
'''
