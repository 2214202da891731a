"""Reference laws for the particle filters (interpreted by the analyser, never executed)."""
import jax
import jax.numpy as jnp


def bootstrap_filter(transition_sampler, measurement_cond_pdf, vs, ts, init_sampler, key, nparticles, resampling,
                     log, return_last, **kwargs):
    K = vs.shape[0] - 1
    k_init, k_prop, k_res = jax.random.split(key, 3)
    k_prop, k_res = jax.random.split(k_prop, K), jax.random.split(k_res, K)
    us0 = init_sampler(k_init, vs[0], nparticles)

    def step(carry, k):
        us, nell = carry
        lw = measurement_cond_pdf(vs[k + 1], us, vs[k], ts[k], **kwargs)
        w = jnp.exp(lw) / jnp.sum(jnp.exp(lw))
        moved = transition_sampler(us, vs[k], ts[k], k_prop[k], **kwargs)
        new = moved[resampling(w, k_res[k])]
        return (new, nell - jnp.log(jnp.mean(jnp.exp(lw)))), new

    (last, nell), path = jax.lax.scan(step, (us0, 0.), jnp.arange(K))
    if return_last:
        return last, nell
    return jnp.concatenate([us0[None], path]), nell


def backward_smoother(key, filter_us, vs, ts, transition_logpdf, **kwargs):
    K = filter_us.shape[0] - 1
    key_last, key_steps = jax.random.split(key)
    keys = jax.random.split(key_steps, K)
    uT = jax.random.choice(key_last, filter_us[K], axis=0)

    def step(u_next, j):
        k = K - 1 - j
        lw = transition_logpdf(u_next, filter_us[k], vs[k], ts[k], **kwargs)
        u = jax.random.choice(keys[j], filter_us[k], axis=0, p=jnp.exp(lw) / jnp.sum(jnp.exp(lw)))
        return u, u

    _, back = jax.lax.scan(step, uT, jnp.arange(K))
    return jnp.concatenate([back[::-1], uT[None]])


def pmcmc_filter_step(key, vs, u0s, ts, transition_sampler, likelihood_logpdf, resampling, nparticles, **kwargs):
    K = ts.shape[0] - 1
    ka, kb = jax.random.split(key)
    k_prop, k_res = jax.random.split(ka, K), jax.random.split(kb, K)

    def step(carry, k):
        us, ll = carry
        lw = likelihood_logpdf(vs[k + 1], us, vs[k], ts[k], **kwargs)
        w = jnp.exp(lw) / jnp.sum(jnp.exp(lw))
        chosen = us[resampling(w, k_res[k])]
        new = transition_sampler(chosen, vs[k], ts[k], k_prop[k], **kwargs)
        return (new, ll + jnp.log(jnp.sum(jnp.exp(lw)) / nparticles)), None

    return jax.lax.scan(step, (u0s, 0.), jnp.arange(K))[0]


def pcn_proposal(key, delta, x, mean, sampler):
    k0, k1 = jax.random.split(key)
    beta = 2 / (2 + delta)
    r0, r1 = sampler(k0), sampler(k1)
    return mean + beta * (x - mean) + beta * jnp.sqrt(delta / 2) * (r0 - mean) + jnp.sqrt(1 - beta) * (r1 - mean)


def pmcmc_kernel(key, uT, log_ell, ys, y0, ts, fwd_ys_sampler, sde, ref_sampler, transition_sampler,
                 likelihood_logpdf, resampling, nparticles, delta, which_u, **kwargs):
    k_prop, k_u0, k_filter, k_mh = jax.random.split(key, 4)
    if delta is None:
        prop = fwd_ys_sampler(k_prop, y0)
    else:
        mean = jnp.stack([sde.mean(t, ts[0], y0) for t in ts])
        prop = pcn_proposal(k_prop, delta, ys, mean, lambda k: fwd_ys_sampler(k, y0))
    vs = prop[::-1]
    u0s = ref_sampler(k_u0, vs[0], nparticles)
    us, ll = pmcmc_filter_step(k_filter, vs, u0s, ts, transition_sampler, likelihood_logpdf, resampling, nparticles,
                               **kwargs)
    lacc = jnp.minimum(0., ll - log_ell)
    acc = jnp.log(jax.random.uniform(k_mh)) < lacc
    return (jnp.where(acc, us[which_u], uT), jnp.where(acc, ll, log_ell), jnp.where(acc, prop, ys),
            (jnp.exp(lacc), acc, ll, log_ell))


def twisted_smc(key, y, ts, init_sampler, transition_logpdf, twisting_logpdf, twisting_prop_sampler,
                twisting_prop_logpdf, resampling, nparticles, **kwargs):
    K = ts.shape[0] - 1
    k_init, ka, kb = jax.random.split(key, 3)
    k_prop, k_res = jax.random.split(ka, K), jax.random.split(kb, K)
    x0 = init_sampler(k_init, nparticles)
    psi0 = twisting_logpdf(y, x0, ts[0], **kwargs)

    def step(carry, k):
        xs, psi, lw = carry
        a = resampling(jnp.exp(lw), k_res[k])
        anc, psi_anc = xs[a], psi[a]
        new = twisting_prop_sampler(k_prop[k], anc, ts[k + 1], y, **kwargs)
        psi_new = twisting_logpdf(y, new, ts[k + 1], **kwargs)
        g = (transition_logpdf(new, anc, ts[k + 1]) + psi_new
             - twisting_prop_logpdf(new, anc, ts[k + 1], y, **kwargs) - psi_anc)
        return (new, psi_new, g - jnp.log(jnp.sum(jnp.exp(g)))), None

    (xs, _, lw), _ = jax.lax.scan(step, (x0, psi0, psi0 - jnp.log(jnp.sum(jnp.exp(psi0)))), jnp.arange(K))
    return xs, lw
