"""Reference laws for the resampling schemes."""
import jax
import jax.numpy as jnp


def grid(weights, us):
    """Smallest index whose cumulative weight reaches the stratum point, n strata."""
    n = weights.shape[0]
    pts = (jnp.arange(n) + us) / n
    return jnp.minimum(jnp.maximum(jnp.searchsorted(jnp.cumsum(weights), pts), 0), n - 1)


def systematic(weights, key):
    return grid(weights, jax.random.uniform(key))


def stratified(weights, key):
    return grid(weights, jax.random.uniform(key, (weights.shape[0],)))


def multinomial(weights, key):
    # normalised partial sums of n + 1 unit exponentials are the order statistics of n uniforms
    n = weights.shape[0]
    gaps = -jnp.log(jax.random.uniform(key, (n + 1,)))
    pts = jnp.cumsum(gaps)[:n] / jnp.sum(gaps)
    return jnp.minimum(jnp.maximum(jnp.searchsorted(jnp.cumsum(weights), pts), 0), n - 1)


def killing(weights, key):
    n = weights.shape[0]
    k1, k2, _ = jax.random.split(key, 3)
    survive = jax.random.uniform(k1, (n,)) * jnp.max(weights) < weights
    return jnp.where(survive, jnp.arange(n), jax.random.choice(k2, n, (n,), p=weights))


def cond_multinomial(key, weights, i, j, conditional):
    n = weights.shape[0]
    idx = jax.random.choice(key, n, (n,), p=weights)
    if not conditional:
        return idx
    return jnp.where(jnp.arange(n) == j, i, idx)


def cond_killing(key, weights, i, j, conditional):
    n = weights.shape[0]
    k1, k2, k3 = jax.random.split(key, 3)
    top = jnp.max(weights)
    survive = jax.random.uniform(k1, (n,)) * top < weights
    idx = jnp.where(survive, jnp.arange(n), jax.random.choice(k2, n, (n,), p=weights))
    if not conditional:
        return idx
    at_i = jnp.arange(n) == i
    dead = jnp.where(at_i, 0., (1 - weights / top) / n)
    p = jnp.where(at_i, jnp.maximum(1 - jnp.sum(dead), 0.), dead)
    J = jax.random.choice(k3, n, (), p=p)
    rolled = jnp.roll(idx, j - J)
    return jnp.where(jnp.arange(n) == j, i, rolled)


def cond_systematic(key, weights):
    n = weights.shape[0]
    pts = (jnp.arange(n) + jax.random.uniform(key)) / n
    return jnp.searchsorted(jnp.cumsum(weights), pts)
