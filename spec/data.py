"""Reference laws: image restoration masks, image corruption, dataset enumeration, the crescent model."""
import jax
import jax.numpy as jnp


# -- restoration masks -------------------------------------------------------------------------------------------------
def complement(W, H, inds):
    return jnp.setdiff1d(jnp.arange(W * H), inds, assume_unique=True, size=W * H - inds.shape[0])


def inpaint(key, W, H, s):
    w, h = min(s, W), min(s, H)
    shift = jax.random.randint(key, (), 0, min(W, H) - max(w, h))
    hole = ((jnp.arange(w)[:, None] + shift) * H + jnp.arange(h)[None, :] + shift).reshape(w * h)
    return hole, complement(W, H, hole)


def supr(key, W, H, r, random):
    nw, nh = W // r, H // r
    if random:
        o = jax.random.randint(key, (nw * nh, 2), 0, r)
    else:
        o = jnp.zeros((nw * nh, 2), dtype=int) + r // 2
    first = (jnp.arange(nw)[:, None] * r * H + jnp.arange(nh)[None, :] * r).reshape(nw * nh)
    obs = first + o[:, 0] * H + o[:, 1]
    return complement(W, H, obs), obs


def unpack(img, unobs, obs, W, H, C):
    flat = img.reshape(*img.shape[:-3], W * H, C)
    return flat[..., unobs, :], flat[..., obs, :]


def concat(x, y, unobs, obs, W, H, C):
    flat = jnp.zeros((*x.shape[:-2], W * H, C))
    flat = flat.at[..., unobs, :].set(x).at[..., obs, :].set(y)
    return flat.reshape(*x.shape[:-2], W, H, C)


# -- enumeration and sampling ------------------------------------------------------------------------------------------
def enumeration(key, n, b, xs, i):
    c = n // b
    perm = jax.random.permutation(key, c * b)
    inds = perm[i * b + jnp.arange(b)]
    return inds, xs[inds]


def subset(key, n, b, xs):
    return xs[jax.random.choice(key, n, (b,), replace=False)]


def sample_restore(key, n, xs, gen_mask, W, H, C):
    k_img, k_mask = jax.random.split(key)
    img = xs[jax.random.randint(k_img, (), 0, n)]
    mask = gen_mask(k_mask)
    return img, unpack(img, mask.unobs_inds_ravelled, mask.obs_inds_ravelled, W, H, C)[1], \
        mask.unobs_inds_ravelled, mask.obs_inds_ravelled


def rows(z):
    if z.ndim == 0:
        return z[None, None]
    return z[:, None] if z.ndim == 1 else z


def standard(z):
    n = z.shape[0]
    m = jnp.sum(z, axis=0) / n
    v = jnp.sum((z - m[None]) ** 2, axis=0) / n
    return (z - m[None]) / jnp.sqrt(v)[None]


def sample_pair(key, n, xs, corrupt):
    k_img, k_corrupt = jax.random.split(key)
    img = xs[jax.random.randint(k_img, (), 0, n)]
    return img, corrupt(k_corrupt, img)


def enumerate_pairs(key, xs, inds, corrupt):
    x = xs[inds]
    keys = jax.random.split(key, inds.shape[0])
    return x, jnp.stack([corrupt(keys[i], x[i]) for i in range(inds.shape[0])])


# -- corruption --------------------------------------------------------------------------------------------------------
def downsample(key, img):
    w, h, c = img.shape
    out = []
    for r in (4, 8):
        small = jax.image.resize(img, (w // r, h // r, c), 'nearest')
        out.append(jax.image.resize(small, (w, h, c), 'nearest'))
    return jnp.stack(out)[jax.random.randint(key, (), 0, 2)]


def paint(key, img, s):
    w, h, c = img.shape
    tops, lefts = [int((w - s) / 3 * i) for i in range(4)], [int((h - s) / 3 * j) for j in range(4)]
    masks = []
    for i in range(4):
        for j in range(4):
            r, q = jnp.arange(w), jnp.arange(h)
            hole = jnp.logical_and(jnp.logical_and(r >= tops[i], r < tops[i] + s)[:, None],
                                   jnp.logical_and(q >= lefts[j], q < lefts[j] + s)[None, :])
            masks.append(jnp.where(hole, 0., 1.))
    return jnp.stack(masks)[jax.random.randint(key, (), 0, 16)][:, :, None] * img


def blur(key, img, n):
    w, h, c = img.shape
    var = jax.random.uniform(key, minval=0.1, maxval=5.)
    z = -1 + 2 * jnp.arange(n) / (n - 1)
    g = jnp.exp(-z ** 2 / var)
    kernel = jnp.zeros((c, c, n, n)) + g[None, None, :, None] * g[None, None, None, :]
    out = jax.lax.conv_general_dilated(img.reshape(1, w, h, c), kernel, (1, 1), 'SAME',
                                       dimension_numbers=('NHWC', 'IOHW', 'NHWC'))[0]
    return rescale(out)


def rescale(img):
    lo = jnp.min(img, axis=(-2, -3), keepdims=True)
    hi = jnp.max(img, axis=(-2, -3), keepdims=True)
    return (img - lo) / (hi - lo)


def clip(img):
    return jnp.maximum(jnp.minimum(img, 1.), 0.)


def join(x, y, expand):
    if expand:
        return jnp.stack([x, y], axis=-1)
    return jnp.concatenate([x, y], axis=-1)


def split_channels(xy, c):
    return xy[..., :c], xy[..., c:]


# -- train / test splits -----------------------------------------------------------------------------------------------
def whole(key, data, H, W, C):
    """The designated array, all of it, in random order."""
    n = data.shape[0]
    return n, data[jax.random.permutation(key, n)].reshape(n, H, W, C), (H, W, C)


def held_out(key, data, test, size, H, W, C):
    """The first `size` images are the test set, all the others the training set."""
    n = size if test else data.shape[0] - size
    first = 0 if test else size
    return n, data[first + jax.random.permutation(key, n)], (H, W, C)


def disjoint(n_train, n_test, n):
    return n_train + n_test, n


# -- the crescent model ------------------------------------------------------------------------------------------------
def crescent_emission(phi, psi):
    return phi[1] / psi + (phi[0] ** 2 + psi ** 2) / 2


def crescent_sample(key, n, psi, xi):
    k1, k2 = jax.random.split(key)
    z = jax.random.normal(k1, (n, 2))
    a, b = jnp.sqrt(2.) * z[:, 0], z[:, 1]
    y = b / psi + (a ** 2 + psi ** 2) / 2 + jnp.sqrt(xi) * jax.random.normal(k2, (n,))
    return jnp.stack([a, b], axis=-1), y


def crescent_log_prior(phi):
    return -phi[0] ** 2 / 4 - phi[1] ** 2 / 2 - jnp.log(2 * jnp.pi) - jnp.log(2.) / 2


def crescent_log_lik(y, phi, psi, xi):
    e = phi[1] / psi + (phi[0] ** 2 + psi ** 2) / 2
    return -(y - e) ** 2 / (2 * xi) - jnp.log(2 * jnp.pi * xi) / 2


def crescent_score(xy, psi, xi):
    a, b, y = xy[0], xy[1], xy[2]
    r = (y - b / psi - (a ** 2 + psi ** 2) / 2) / xi
    return jnp.stack([-a / 2 + r * a, -b + r / psi, -r])


def crescent_posterior(mesh, y, psi, xi):
    p, q = mesh.shape[:2]
    w = jnp.stack([jnp.stack([jnp.exp(crescent_log_prior(mesh[i, j]) + crescent_log_lik(y, mesh[i, j], psi, xi))
                              for j in range(q)]) for i in range(p)])
    inner = jnp.sum((mesh[0, 1:, 0] - mesh[0, :-1, 0])[None, :] * (w[:, 1:] + w[:, :-1]), axis=1) / 2
    total = jnp.sum((mesh[1:, 0, 1] - mesh[:-1, 0, 1]) * (inner[1:] + inner[:-1])) / 2
    return w / total


def crescent_unpack(xy):
    return xy[..., :2], xy[..., 2]
