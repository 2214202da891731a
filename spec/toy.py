"""Reference laws for the Gaussian experiments: exact problem, exact processes, samplers through the public entry points."""
import jax
import jax.numpy as jnp
import numpy as np
from fbs.samplers.gibbs import gibbs_kernel
from fbs.samplers.smc import bootstrap_filter, bootstrap_backward_smoother, pmcmc_kernel, twisted_smc
from fbs.samplers.resampling import stratified
from fbs.sdes.linear import make_linear_sde, make_gaussian_bw_sb, StationaryConstLinearSDE, StationaryLinLinearSDE
from fbs.sdes.simulators import euler_maruyama


class Problem:
    """GP regression at d points of [0, 5]: exponential kernel, one noisy observation per point; data seeded by the id."""

    def __init__(self, d, id, noise):
        key = jax.random.PRNGKey(id)
        key, k_f = jax.random.split(key)
        self.key, k_y = jax.random.split(key)
        z = jnp.linspace(0., 5., d)
        K = jnp.exp(-jnp.abs(z[:, None] - z[None, :]))
        self.d, self.K, self.noise = d, K, noise
        f = jnp.linalg.cholesky(K) @ jax.random.normal(k_f, (d,))
        self.y0 = f + jnp.sqrt(noise) * jax.random.normal(k_y, (d,))
        A = K + noise * jnp.eye(d)
        self.mean = K @ jnp.linalg.solve(A, self.y0)
        self.cov = K - K @ jnp.linalg.solve(A, K)
        self.joint_mean = jnp.zeros((2 * d,))
        self.joint_cov = jnp.concatenate([jnp.concatenate([K, K], axis=1), jnp.concatenate([K, A], axis=1)], axis=0)


def make_sde(name):
    if name == 'lin':
        return StationaryLinLinearSDE(beta_min=0.02, beta_max=4., t0=0., T=1.)
    return StationaryConstLinearSDE(a=-0.5, b=1.)


def gauss_logpdf(x, m, s):
    return jnp.sum(jax.scipy.stats.norm.logpdf(x, m, s))


class Reverse:
    """Euler discretisation of the reverse-time process of Gaussian marginals N(m_t, C_t)."""

    def __init__(self, d, marginal, drift, dispersion, T, nsteps):
        self.d, self.marginal, self.f, self.g, self.T = d, marginal, drift, dispersion, T
        self.nsteps = nsteps
        self.dt = T / nsteps
        self.ts = jnp.linspace(0., T, nsteps + 1)

    def drift(self, z, t):
        s = self.T - t
        m, C = self.marginal(s)
        return -self.f(z, s) - self.g(s) ** 2 * jnp.linalg.solve(C, z - m)

    def std(self, t):
        return jnp.sqrt(self.dt) * self.g(self.T - t)

    # joint (u, v) version
    def move(self, u, v, t):
        b = self.drift(jnp.concatenate([u, v]), t)
        return u + b[:self.d] * self.dt, v + b[self.d:] * self.dt

    def transition_sampler(self, us, v, t, key):
        m = jax.vmap(lambda u: self.move(u, v, t)[0])(us)
        return m + self.std(t) * jax.random.normal(key, us.shape)

    def transition_logpdf(self, u, us, v, t):
        return jax.vmap(lambda u_: gauss_logpdf(u, self.move(u_, v, t)[0], self.std(t)))(us)

    def likelihood_logpdf(self, v, us, v_, t):
        return jax.vmap(lambda u_: gauss_logpdf(v, self.move(u_, v_, t)[1], self.std(t)))(us)


def conditional_ref(d, m, C):
    """u | v under N(m, C)."""
    def sampler(key, v, n):
        A = C[d:, d:]
        mu = m[:d] + C[:d, d:] @ jnp.linalg.solve(A, v - m[d:])
        S = C[:d, :d] - C[:d, d:] @ jnp.linalg.solve(A, C[d:, :d])
        L = jnp.linalg.cholesky(S)
        z = jax.random.normal(key, (n, d))
        return mu[None, :] + jnp.einsum('ij,nj->ni', L, z)
    return sampler


def unpack(d):
    def f(z):
        return z[..., :d], z[..., d:]
    return f


class GPSetup:
    def __init__(self, args):
        d = args.d
        self.p = Problem(d, args.id, 1.)
        self.sde = make_sde(args.sde)
        disc, _, self.simulate = make_linear_sde(self.sde)
        self.disc = disc
        p = self.p

        def joint(t):
            F, Q = disc(t, 0.)
            return F * p.joint_mean, F ** 2 * p.joint_cov + Q * jnp.eye(2 * d)

        def latent(t):
            F, Q = disc(t, 0.)
            return jnp.zeros((d,)), F ** 2 * p.K + Q * jnp.eye(d)

        self.joint, self.latent = joint, latent
        self.r = Reverse(d, joint, self.sde.drift, self.sde.dispersion, 1., 200)
        self.ru = Reverse(d, latent, self.sde.drift, self.sde.dispersion, 1., 200)
        self.ref = conditional_ref(d, *joint(1.))


def chain(key, nsamples, state, step):
    """Draws one after another, each with its own key; the state of every iteration is recorded."""
    def body(carry, i):
        k, st = carry
        k, sub = jax.random.split(k)
        st = step(sub, st)
        return (k, st), st[0]
    return jax.lax.scan(body, (key, state), jnp.arange(nsamples))[1]


def independent(key, nsamples, sampler):
    def body(k, i):
        k, sub = jax.random.split(k)
        return k, sampler(sub)
    return jax.lax.scan(body, key, jnp.arange(nsamples))[1]


def flag(x, s):
    return s if x else ''


def gp_filter(args):
    g = GPSetup(args)
    p, r = g.p, g.r

    def one(key):
        k_fwd, _, k_bf = jax.random.split(key, 3)
        vs = g.simulate(k_fwd, p.y0, r.ts)[::-1]
        us, _ = bootstrap_filter(r.transition_sampler, r.likelihood_logpdf, vs, r.ts, g.ref, k_bf, args.nparticles,
                                 stratified, True, True)
        return us[0]

    return (f'toy/results/filter-{args.sde}-{args.nparticles}-{args.id}',
            dict(samples=independent(p.key, args.nsamples, one), gp_mean=p.mean, gp_cov=p.cov))


def gp_gibbs(args):
    g = GPSetup(args)
    p, r, d = g.p, g.r, args.d

    def init(key):
        k_fwd, k_bwd, k_bf = jax.random.split(key, 3)
        vs = g.simulate(k_fwd, p.y0, r.ts)[::-1]
        uss, _ = bootstrap_filter(r.transition_sampler, r.likelihood_logpdf, vs, r.ts, g.ref, k_bf, args.nparticles,
                                  stratified, True, False)
        us = bootstrap_backward_smoother(k_bwd, uss, vs, r.ts, r.transition_logpdf)
        return uss[-1, 0], us, jnp.zeros((r.nsteps + 1,), dtype=int)

    def fwd(key, x, y):
        return g.simulate(key, jnp.concatenate([x, y]), r.ts)

    def step(key, st):
        x, us, bs = st
        keys = jax.random.split(key, args.nchains)
        out = jax.vmap(lambda k, x_, us_, bs_: gibbs_kernel(
            k, x_, p.y0, us_, bs_, r.ts, fwd, g.sde, unpack(d), args.nparticles, r.transition_sampler,
            r.transition_logpdf, r.likelihood_logpdf, args.marg, args.explicit_backward, args.explicit_final))(
                keys, x, us, bs)
        return out[:3]

    key, sub = jax.random.split(p.key)
    st = jax.vmap(init)(jax.random.split(sub, args.nchains))
    xs = chain(key, args.nsamples, st, step)
    nm = 'gibbs' + flag(args.explicit_backward, '-eb') + flag(args.explicit_final, '-ef') + flag(args.marg, '-marg')
    return (f'toy/results/{nm}-{args.sde}-{args.nparticles}-{args.id}',
            dict(samples=jnp.swapaxes(xs, 0, 1), gp_mean=p.mean, gp_cov=p.cov))


def gp_pmcmc(args):
    g = GPSetup(args)
    p, r, d = g.p, g.r, args.d

    def fwd_ys(key, y):
        return g.simulate(key, y, r.ts)

    def init(key):
        k_fwd, _, k_bf, _ = jax.random.split(key, 4)
        ys = fwd_ys(k_fwd, p.y0)
        us, nell = bootstrap_filter(r.transition_sampler, r.likelihood_logpdf, ys[::-1], r.ts, g.ref, k_bf,
                                    args.nparticles, stratified, True, True)
        return us[0], -nell, ys

    def step(key, st):
        keys = jax.random.split(key, args.nchains)
        x, ll, ys = st
        out = jax.vmap(lambda k, x_, l_, ys_: pmcmc_kernel(
            k, x_, l_, ys_, p.y0, r.ts, fwd_ys, g.sde, g.ref, r.transition_sampler, r.likelihood_logpdf, stratified,
            args.nparticles, args.delta)[:3])(keys, x, ll, ys)
        return out

    key, sub = jax.random.split(p.key)
    st = jax.vmap(init)(jax.random.split(sub, args.nchains))
    xs = chain(key, args.nsamples, st, step)
    return (f'toy/results/pmcmc-{args.delta}-{args.sde}-{args.nparticles}-{args.id}',
            dict(samples=jnp.swapaxes(xs, 0, 1), gp_mean=p.mean, gp_cov=p.cov))


def gp_twisted(args):
    g = GPSetup(args)
    p, r, d = g.p, g.ru, args.d
    m_ref, C_ref = g.latent(1.)

    def init_sampler(key, n):
        return m_ref[None, :] + jnp.einsum('ij,nj->ni', jnp.linalg.cholesky(C_ref), jax.random.normal(key, (n, d)))

    def transition_logpdf(us, us_, t):
        return jax.vmap(lambda u, u_: gauss_logpdf(u, u_ + r.drift(u_, t) * r.dt, r.std(t)))(us, us_)

    def twist(y, u, t):
        return gauss_logpdf(y, u + r.drift(u, t) * r.dt, jnp.sqrt(p.noise))

    def guided(u, t, y):
        return u + (r.drift(u, t) + g.sde.dispersion(1. - t) ** 2 * jax.grad(twist, 1)(y, u, t)) * r.dt

    def prop_sampler(key, us, t, y):
        return jax.vmap(lambda u: guided(u, t, y))(us) + r.std(t) * jax.random.normal(key, (args.nparticles, d))

    def prop_logpdf(us, us_, t, y):
        return jax.vmap(lambda u, u_: gauss_logpdf(u, guided(u_, t, y), r.std(t)))(us, us_)

    def twists(y, us, t):
        return jax.vmap(lambda u: twist(y, u, t))(us)

    def one(key):
        k_smc, k_sel = jax.random.split(key)
        us, lws = twisted_smc(k_smc, p.y0, r.ts, init_sampler, transition_logpdf, twists, prop_sampler, prop_logpdf,
                              stratified, args.nparticles)
        return jax.random.choice(k_sel, us, p=jnp.exp(lws), axis=0)

    return (f'toy/results/twisted-{args.sde}-{args.nparticles}-{args.id}',
            dict(samples=independent(p.key, args.nsamples, one), gp_mean=p.mean, gp_cov=p.cov))


def gp_csgm(args):
    g = GPSetup(args)
    p, d = g.p, args.d
    ts = jnp.linspace(0., 1., 201)
    K, y0 = p.K, p.y0
    A = K + p.noise * jnp.eye(d)
    F1, Q1 = g.disc(1., 0.)
    m1 = F1 * K @ jnp.linalg.solve(A, y0)
    C1 = F1 ** 2 * K + Q1 * jnp.eye(d) - F1 * K @ jnp.linalg.solve(A, F1 * K)

    def drift(u, t):
        s = 1. - t
        F, Q = g.disc(s, 0.)
        S = F ** 2 * K + Q * jnp.eye(d)

        def logp_y(u_):
            m = F * K @ jnp.linalg.solve(S, u_)
            C = A - F * K @ jnp.linalg.solve(S, F * K)
            return jax.scipy.stats.multivariate_normal.logpdf(y0, m, C)

        return -g.sde.drift(u, s) + g.sde.dispersion(s) ** 2 * (-jnp.linalg.solve(S, u) + jax.grad(logp_y)(u))

    def dispersion(t):
        return g.sde.dispersion(1. - t)

    def one(key):
        k0, k1 = jax.random.split(key)
        u0 = m1 + jnp.linalg.cholesky(C1) @ jax.random.normal(k0, (d,))
        return euler_maruyama(k1, u0, ts, drift, dispersion, 1, False)

    return (f'toy/results/csgm-{args.sde}-{args.id}',
            dict(samples=independent(p.key, args.nsamples, one), gp_mean=p.mean, gp_cov=p.cov))


class SBSetup:
    """The bridge between the joint law of (latent, data) and a random Gaussian reference."""

    def __init__(self, args):
        d = args.d
        p = Problem(d, args.id, 0.1)
        self.p, self.d = p, d
        self.key, k_ref = jax.random.split(p.key)
        a = jax.random.normal(k_ref, (2 * d, 2 * d))
        m, C = jnp.ones((2 * d,)), a @ a.T
        mean, cov, drift = make_gaussian_bw_sb(p.joint_mean, p.joint_cov, m, C, 1.)
        self.r = Reverse(d, lambda t: (mean(t), cov(t)), drift, lambda t: 1., 1., 100)
        self.ref = conditional_ref(d, m, C)
        self.drift = drift

    def forward(self, key, x, y):
        return euler_maruyama(key, jnp.concatenate([x, y]), self.r.ts, self.drift, lambda t: 1., 10, True)

    def forward_ys(self, key, proper):
        k_x, k_em = jax.random.split(key)
        z = jax.random.normal(k_x, (self.d,))
        x = self.p.mean + jnp.linalg.cholesky(self.p.cov) @ z if proper else z
        return self.forward(k_em, x, self.p.y0)[:, self.d:]


def sb_filter(args):
    s = SBSetup(args)
    p, r = s.p, s.r

    def one(key):
        k_fwd, _, k_bf = jax.random.split(key, 3)
        vs = s.forward_ys(k_fwd, args.x0 == 'proper')[::-1]
        us, _ = bootstrap_filter(r.transition_sampler, r.likelihood_logpdf, vs, r.ts, s.ref, k_bf, args.nparticles,
                                 stratified, True, True)
        return us[0]

    return (f'sb/results/filter-{args.x0}-{args.nparticles}-{args.id}',
            dict(samples=independent(s.key, args.nsamples, one), gp_mean=p.mean, gp_cov=p.cov))


def sb_gibbs(args):
    s = SBSetup(args)
    p, r, d = s.p, s.r, args.d
    key, sub = jax.random.split(s.key)
    k_fwd, k_bwd, k_bf = jax.random.split(sub, 3)
    vs = s.forward_ys(k_fwd, False)[::-1]
    uss, _ = bootstrap_filter(r.transition_sampler, r.likelihood_logpdf, vs, r.ts, s.ref, k_bf, args.nparticles,
                              stratified, True, False)
    us = bootstrap_backward_smoother(k_bwd, uss, vs, r.ts, r.transition_logpdf)

    def step(k, st):
        x, us_, bs = st
        return gibbs_kernel(k, x, p.y0, us_, bs, r.ts, s.forward, None, unpack(d), args.nparticles,
                            r.transition_sampler, r.transition_logpdf, r.likelihood_logpdf, False,
                            args.explicit_backward, False)[:3]

    xs = chain(key, args.nsamples, (uss[-1, 0], us, jnp.zeros((r.nsteps + 1,), dtype=int)), step)
    return (f'sb/results/gibbs{flag(args.explicit_backward, "-eb")}-{args.nparticles}-{args.id}',
            dict(samples=xs, gp_mean=p.mean, gp_cov=p.cov))
