import math
import jax
import jax.numpy as jnp
import flax.linen as nn


# -- N01 ---------------------------------------------------------------------------------------------------------------
def embedding(t, out_dim, max_period):
    half = out_dim // 2
    f = [0]
    freqs = jax.vmap(lambda i: max_period ** (-i / (half - 1)))(jnp.arange(half))
    return jnp.concatenate([jnp.sin(t * freqs), jnp.cos(t * freqs)])


def embeddings(t, out_dim, max_period):
    return jax.vmap(lambda s: embedding(s[0], out_dim, max_period))(t)


# -- N02 ---------------------------------------------------------------------------------------------------------------
def pixel_shuffle(x, s):
    b, h, w, c = x.shape
    x = jnp.reshape(x, (b, h, w, s, s, c // (s * s)))
    x = jnp.transpose(x, (0, 1, 3, 2, 4, 5))
    return jnp.reshape(x, (b, h * s, w * s, c // (s * s)))


# -- N06 ---------------------------------------------------------------------------------------------------------------
class WSConv(nn.Module):
    features: int

    @nn.compact
    def __call__(self, x):
        shape = (3, 3, x.shape[-1], self.features)
        k = self.param('kernel', lambda key: jnp.zeros(shape))
        bias = self.param('bias', lambda key: jnp.zeros((self.features,)))
        n = 9 * x.shape[-1]
        m = jnp.sum(k, axis=(0, 1, 2)) / n
        v = jnp.sum((k - m) ** 2, axis=(0, 1, 2)) / n
        k = (k - m) / jnp.sqrt(v + 1e-5)
        conv = nn.Conv(self.features, (3, 3), padding='SAME', parent=None)
        return conv.apply({'params': {'kernel': k, 'bias': bias}}, x)


class Res(nn.Module):
    dim: int
    groups: int
    skip: bool

    @nn.compact
    def __call__(self, x, e):
        silu = lambda z: z * nn.sigmoid(z)
        h = WSConv(self.dim, name='conv_0')(x)
        h = nn.GroupNorm(self.groups, name='norm_0')(h)
        e = nn.Dense(2 * self.dim, name='time_mlp.dense_0')(silu(e))
        scale, shift = e[:, :self.dim], e[:, self.dim:]
        h = jax.vmap(lambda hb, a, b: hb * (1 + a) + b)(h, scale, shift)
        h = WSConv(self.dim, name='conv_1')(silu(h))
        h = silu(nn.GroupNorm(self.groups, name='norm_1')(h))
        if self.skip:
            x = nn.Conv(self.dim, (1, 1), name='res_conv_0')(x)
        return x + h


def heads_of(z, n, d):
    """(H, W, n * d) -> (n, H * W, d)"""
    h, w, _ = z.shape
    return jnp.transpose(jnp.reshape(z, (h * w, n, d)), (1, 0, 2))


class Attn(nn.Module):
    heads: int
    dim_head: int
    scale: int

    @nn.compact
    def __call__(self, x):
        b, h, w, c = x.shape
        n, d = self.heads, self.dim_head
        z = nn.Conv(3 * n * d, (1, 1), use_bias=False, name='to_qkv.conv_0')(x)

        def one(z):
            q, k, v = [heads_of(z[..., i * n * d:(i + 1) * n * d], n, d) for i in range(3)]
            # the rows of q and k are normalised over the positions
            q = q / jnp.maximum(jnp.sqrt(jnp.sum(q ** 2, axis=1, keepdims=True)), 1e-12)
            k = k / jnp.maximum(jnp.sqrt(jnp.sum(k ** 2, axis=1, keepdims=True)), 1e-12)

            def head(q, k, v):
                s = jnp.exp(self.scale * q @ k.T)
                return (s / jnp.sum(s, axis=1, keepdims=True)) @ v

            o = jax.vmap(head)(q, k, v)  # (n, H * W, d)
            return jnp.reshape(jnp.transpose(o, (1, 0, 2)), (h, w, n * d))

        return nn.Conv(c, (1, 1), name='to_out.conv_0')(jax.vmap(one)(z))


class LinAttn(nn.Module):
    heads: int
    dim_head: int

    @nn.compact
    def __call__(self, x):
        b, h, w, c = x.shape
        n, d = self.heads, self.dim_head
        z = nn.Conv(3 * n * d, (1, 1), use_bias=False, name='to_qkv.conv_0')(x)

        def one(z):
            q, k, v = [heads_of(z[..., i * n * d:(i + 1) * n * d], n, d) for i in range(3)]

            def head(q, k, v):
                q = jnp.exp(q) / jnp.sum(jnp.exp(q), axis=1, keepdims=True) / jnp.sqrt(d)
                k = jnp.exp(k) / jnp.sum(jnp.exp(k), axis=0, keepdims=True)
                return q @ (k.T @ v) / (h * w)

            o = jax.vmap(head)(q, k, v)
            return jax.vmap(lambda u: jnp.transpose(u))(jnp.transpose(o, (1, 0, 2)))

        o = jax.vmap(one)(z)  # (b, H * W, d, n)
        o = jnp.reshape(jnp.transpose(o, (0, 1, 3, 2)), (b, h, w, n * d))
        o = nn.Conv(c, (1, 1), name='to_out.conv_0')(o)
        return nn.LayerNorm(epsilon=1e-5, use_bias=False, name='to_out.norm_0')(o)


# -- N07 ---------------------------------------------------------------------------------------------------------------
def train_step(optimiser, loss, param, state, *args, **kwargs):
    g = jax.grad(loss)(param, *args, **kwargs)
    upd, state = optimiser.update(g, state, param)
    return param + upd, state, loss(param, *args, **kwargs)


def ema(ema_param, param, decay):
    return ema_param * decay + param * (1 - decay)
