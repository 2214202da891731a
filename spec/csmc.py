"""Reference laws for conditional SMC and the Gibbs sampler."""
import jax
import jax.numpy as jnp
import fbs.samplers.csmc.csmc as pub


def softmax(lw):
    return jnp.exp(lw) / jnp.sum(jnp.exp(lw))


def log_softmax(lw):
    return lw - jnp.log(jnp.sum(jnp.exp(lw)))


def forward_pass(key, us_star, bs_star, vs, ts, init_sampler, init_likelihood_logpdf, transition_sampler,
                 likelihood_logpdf, cond_resampling, nsamples, **kwargs):
    K = us_star.shape[0] - 1
    k_init, ka, kb = jax.random.split(key, 3)
    k_res, k_tr = jax.random.split(ka, K), jax.random.split(kb, K)
    us0 = init_sampler(k_init, nsamples + 1)
    us0 = us0.at[bs_star[0]].set(us_star[0])
    lw0 = log_softmax(init_likelihood_logpdf(vs[0], us0, vs[1], **kwargs))

    def step(carry, k):
        lw, us = carry
        A = cond_resampling(k_res[k], jnp.exp(lw), bs_star[k], bs_star[k + 1], True)
        anc = us[A]
        new = transition_sampler(anc, vs[k], ts[k], k_tr[k], **kwargs)
        new = new.at[bs_star[k + 1]].set(us_star[k + 1])
        nlw = log_softmax(likelihood_logpdf(vs[k + 1], anc, vs[k], ts[k], **kwargs))
        return (nlw, new), (nlw, A, new)

    _, (lws, As, uss) = jax.lax.scan(step, (lw0, us0), jnp.arange(K))
    return As, jnp.concatenate([lw0[None], lws]), jnp.concatenate([us0[None], uss])


def backward_sampling(key, transition_logpdf, vs, ts, uss, log_ws, **kwargs):
    K1 = uss.shape[0]
    K = K1 - 1
    n = uss.shape[1]
    k_last, k_steps = jax.random.split(key)
    keys = jax.random.split(k_steps, K)
    B = jax.random.choice(k_last, n, (), p=softmax(log_ws[K]))

    def step(x, j):
        k = K - 1 - j
        w = softmax(transition_logpdf(x, uss[k], vs[k], ts[k], **kwargs) + log_ws[k])
        b = jax.random.choice(keys[j], n, (), p=w)
        return uss[k, b], (uss[k, b], b)

    _, (xs, bs) = jax.lax.scan(step, uss[K, B], jnp.arange(K))
    return (jnp.concatenate([xs[::-1], uss[K, B][None]]), jnp.concatenate([bs[::-1], B[None]]))


def backward_scanning(key, As, uss, log_w_T):
    K = As.shape[0]
    n = log_w_T.shape[0]
    B = jax.random.choice(key, n, (), p=softmax(log_w_T))

    def step(b, j):
        k = K - 1 - j
        a = As[k, b]
        return a, a

    _, bs = jax.lax.scan(step, B, jnp.arange(K))
    bs = jnp.concatenate([bs[::-1], B[None]])
    return jnp.stack([uss[k, bs[k]] for k in range(K + 1)]), bs


def csmc_kernel(key, us_star, bs_star, vs, ts, init_sampler, init_likelihood_logpdf, transition_sampler,
                transition_logpdf, measurement_cond_logpdf, cond_resampling, nsamples, backward, **kwargs):
    kf, kb = jax.random.split(key)
    As, lws, uss = pub.forward_pass(kf, us_star, bs_star, vs, ts, init_sampler, init_likelihood_logpdf,
                                    transition_sampler, measurement_cond_logpdf, cond_resampling, nsamples, **kwargs)
    if backward:
        return pub.backward_sampling_pass(kb, transition_logpdf, vs, ts, uss, lws, **kwargs)
    return pub.backward_scanning_pass(kb, As, uss, lws[-1])


def force_move(key, weights, k):
    M = weights.shape[0]
    k1, k2 = jax.random.split(key)
    wk = weights[k]
    rest = jnp.where(jnp.arange(M) == k, 0., weights)
    thr = jnp.maximum(1 - jnp.exp(-M), 1 - 1e-12)
    p = jnp.where(wk < thr, rest / (1 - wk), 1. / M)
    i = jax.random.choice(k1, M, (), p=p)
    u = jax.random.uniform(k2)
    accept = u * (1 - weights[i]) < 1 - wk
    alpha = jnp.sum((1 - wk) * p / (1 - weights))
    return jnp.where(accept, i, k), jnp.clip(alpha, 0., 1.)
