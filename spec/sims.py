"""Reference laws: SDE simulators."""
import jax
import jax.numpy as jnp


def em(key, x0, ts, drift, dispersion, m, path):
    K = ts.shape[0] - 1
    keys = jax.random.split(key, K)

    def interval(x, k):
        t, dt = ts[k], ts[k + 1] - ts[k]
        h = jnp.abs(dt) / m
        z = jax.random.normal(keys[k], (m, *x0.shape))

        def sub(u, j):
            tau = t + dt * j / m
            return u + drift(u, tau) * h + dispersion(tau) * jnp.sqrt(h) * z[j], None

        y = jax.lax.scan(sub, x, jnp.arange(m))[0]
        return y, y

    last, tail = jax.lax.scan(interval, x0, jnp.arange(K))
    return jnp.concatenate([x0[None], tail]) if path else last


def reverse(key, u0, ts, score, drift, dispersion, m):
    T = ts[ts.shape[0] - 1]

    def rdrift(u, t):
        return dispersion(T - t) ** 2 * score(u, T - t) - drift(u, T - t)

    return em(key, u0, ts, rdrift, lambda t: dispersion(T - t), m, False)


def discrete(key, x0, ts, f, q):
    K = ts.shape[0] - 1
    z = jax.random.normal(key, (K, *x0.shape))
    return jax.lax.scan(lambda x, k: (f(x, ts[k + 1], ts[k]) + q(ts[k + 1], ts[k]) * z[k], None), x0, jnp.arange(K))[0]


def doob(key, sde, x0, xT, ts, m, replace):
    K = ts.shape[0] - 1
    path = em(key, x0, ts, lambda x, t: sde.bridge_drift(x, t, xT, ts[K]), sde.dispersion, m, True)
    if replace:
        return jnp.concatenate([path[:K], xT[None]])
    return path
