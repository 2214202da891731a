PROPERTY = 'N06'
NEEDS = 'an image with more than one pixel and more than one head'
WHAT = 'linear attention normalises the keys over the heads, not over the pixels'
EDITS = [('fbs/nn/unet.py', 'k = nn.softmax(k, axis=-3)', 'k = nn.softmax(k, axis=-2)')]
DEMO = '''
import jax
import jax.numpy as jnp
import numpy as np
from fbs.nn.unet import LinearAttention

heads, dh, B, H, W, C = 2, 3, 2, 4, 2, 5
m = LinearAttention(heads=heads, dim_head=dh)
x = jax.random.normal(jax.random.PRNGKey(0), (B, H, W, C))
p = m.init(jax.random.PRNGKey(1), x)
w1 = np.asarray(p['params']['to_qkv.conv_0']['kernel'])[0, 0]
w2 = np.asarray(p['params']['to_out.conv_0']['kernel'])[0, 0]
b2 = np.asarray(p['params']['to_out.conv_0']['bias'])
g = np.asarray(p['params']['to_out.norm_0']['scale'])
z = np.asarray(x).reshape(B, H * W, C) @ w1
q, k, v = [a.reshape(B, H * W, heads, dh) for a in np.split(z, 3, axis=-1)]
q = np.exp(q) / np.exp(q).sum(-1, keepdims=True) / np.sqrt(dh)
k = np.exp(k) / np.exp(k).sum(1, keepdims=True)
out = np.zeros((B, H * W, heads, dh))
for b in range(B):
    for h in range(heads):
        out[b, :, h] = q[b, :, h] @ (k[b, :, h].T @ (v[b, :, h] / (H * W)))
out = out.reshape(B, H, W, heads * dh) @ w2 + b2
out = (out - out.mean(-1, keepdims=True)) / np.sqrt(out.var(-1, keepdims=True) + 1e-5) * g
assert np.allclose(out, m.apply(p, x), atol=1e-3)
'''
