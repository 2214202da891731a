"""Reference laws: iterative proportional fitting losses (de Bortoli et al. 2021)."""
import jax
import jax.numpy as jnp


def disc(param, sim_param, x0s, ks, gammas, b, f, key):
    n, d = x0s.shape
    K = ks.shape[0] - 1
    z = jax.random.normal(jax.random.split(key)[1], (K, n, d))

    def nxt(x, k):
        return f(x, ks[k], sim_param) + jnp.sqrt(gammas[k]) * z[k]

    def body(x, k):
        y = nxt(x, k)
        r = b(y, ks[k + 1], param) - (y + f(x, ks[k], sim_param) - f(y, ks[k], sim_param))
        return y, jnp.mean(r ** 2)

    return jnp.sum(jax.lax.scan(body, x0s, jnp.arange(K))[1])


def cont(key, param, sim_param, x0s, ts, b, f, g):
    K = ts.shape[0] - 1
    z = jax.random.normal(jax.random.split(key)[1], (K, *x0s.shape))

    def body(x, k):
        t, dt = ts[k], jnp.abs(ts[k + 1] - ts[k])
        fx = f(x, t, sim_param)
        y = x + fx * dt + jnp.sqrt(dt) * g(t) * z[k]
        # regress the backward increment on  F_k(x_k) - F_k(x_{k+1}),  F_k(x) = x + f(x, t_k) dt
        r = b(y, ts[k + 1], param) * dt - ((x + fx * dt) - (y + f(y, t, sim_param) * dt))
        return y, jnp.mean(r ** 2)

    return jnp.mean(jax.lax.scan(body, x0s, jnp.arange(K))[1])
