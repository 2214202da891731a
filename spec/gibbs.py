"""Reference laws for the Gibbs sampler, in terms of the public building blocks (each has its own law)."""
import jax
import jax.numpy as jnp
from fbs.sdes.simulators import doob_bridge_simulator
from fbs.samplers.csmc.csmc import forward_pass, backward_scanning_pass
from fbs.samplers.csmc.resamplings import killing
from fbs.samplers.gibbs import force_move
from fbs.samplers.smc import bootstrap_filter, bootstrap_backward_smoother
from fbs.samplers.resampling import stratified


def gibbs_kernel(key, x0, y0, us_star, bs_star, ts, fwd_sampler, sde, unpack, N, trans, tlogpdf, lik,
                 marg_y, explicit_backward, explicit_final, **kw):
    k_fwd, k_csmc, k_bridge = jax.random.split(key, 3)
    path_x, path_y = unpack(fwd_sampler(k_fwd, x0, y0, **kw), **kw)
    if marg_y:
        path_y = doob_bridge_simulator(k_bridge, sde, path_y[0], path_y[-1], ts, 100, True)
    us, vs = path_x[::-1], path_y[::-1]

    def reference_init(k, n):
        return jax.random.normal(k, (n, *us.shape[1:]))

    def reference_weights(v0, u0s, v1, **kw_):
        return lik(v0, u0s, v1, ts[0], **kw_)

    def pinned_init(k, n):
        return jnp.stack([us[0] for _ in range(N)])

    def pinned_weights(v0, u0s, v1, **kw_):
        return jnp.zeros(N)

    if explicit_final:
        init, init_w = reference_init, reference_weights
    else:
        init, init_w = pinned_init, pinned_weights
    if explicit_backward:
        k_smc, k_last, k_path, k_inds = jax.random.split(k_csmc, 4)
    else:
        k_smc, k_last = jax.random.split(k_csmc)
    As, lws, uss = forward_pass(k_smc, us, bs_star, vs, ts, init, init_w, trans, lik, killing, N, **kw)
    if explicit_backward:
        idx = force_move(k_last, jnp.exp(lws[-1]), bs_star[-1])[0]
        new_us = unpack(fwd_sampler(k_path, uss[-1, idx], y0, **kw), **kw)[0][::-1]
        new_bs = jax.random.randint(k_inds, (us.shape[0],), 0, N)
    else:
        new_us, new_bs = backward_scanning_pass(k_last, As, uss, lws[-1])
    return new_us[-1], new_us, new_bs, new_bs != bs_star


def gibbs_init(key, y0, x0_shape, ts, fwd_sampler, sde, unpack, trans, tlogpdf, lik, N, method, marg_y, x0, **kw):
    k_fwd, k_bridge, k_u0, k_bf, k_fwd2, k_bwd = jax.random.split(key, 6)
    start = jnp.zeros(x0_shape) if x0 is None else x0
    path_y = unpack(fwd_sampler(k_fwd, start, y0, **kw), **kw)[1]
    if marg_y:
        path_y = doob_bridge_simulator(k_bridge, sde, path_y[0], path_y[-1], ts, 100, True)
    vs = path_y[::-1]

    def init(k, v0, n):
        return jax.random.normal(k_u0, (N, *x0_shape))

    if method == 'filter':
        last = bootstrap_filter(trans, lik, vs, ts, init, k_bf, N, stratified, True, True, **kw)[0]
        new_x0 = last[0]
        new_us = unpack(fwd_sampler(k_fwd2, new_x0, y0, **kw), **kw)[0][::-1]
    else:
        uss = bootstrap_filter(trans, lik, vs, ts, init, k_bf, N, stratified, True, False, **kw)[0]
        new_x0 = uss[-1, 0]
        new_us = bootstrap_backward_smoother(k_bwd, uss, vs, ts, tlogpdf, **kw)
    return new_x0, new_us
