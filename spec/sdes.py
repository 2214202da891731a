"""Reference laws for the linear SDEs."""
import jax
import jax.numpy as jnp
import math
import fbs.sdes.linear as pub


# dX = a(t) X dt + b(t) dW: rate a, squared dispersion b2, integrated rate A(t, s) = int_s^t a
def const_rate(p, t):
    return p[0]


def const_disp2(p, t):
    return p[1] ** 2


def const_int(p, t, s):
    return p[0] * (t - s)


def const_stat(p):
    # stationary variance -b^2 / (2 a)
    return -p[1] ** 2 / (2 * p[0])


def lin_beta(p, t):
    lo, hi, t0, T = p
    return lo + (hi - lo) * (t - t0) / (T - t0)


def lin_rate(p, t):
    return -lin_beta(p, t) / 2


def lin_disp2(p, t):
    return lin_beta(p, t)


def lin_int(p, t, s):
    # the trapezium rule is exact for an affine rate
    return -(t - s) * (lin_beta(p, t) + lin_beta(p, s)) / 4


def lin_stat(p):
    return 1.


def exp_rate(p, t):
    a, b, c, z = p
    return a * jnp.exp(c * (t - z))


def exp_disp2(p, t):
    a, b, c, z = p
    return b ** 2 * jnp.exp(c * (t - z))


def exp_int(p, t, s):
    a, b, c, z = p
    return a / c * (jnp.exp(c * (t - z)) - jnp.exp(c * (s - z)))


def exp_stat(p):
    return -p[1] ** 2 / (2 * p[0])


def moments(kind, p, t, s):
    """Transition coefficient and variance of X(t) | X(s)."""
    A = (const_int if kind == 'const' else lin_int if kind == 'lin' else exp_int)(p, t, s)
    v = (const_stat if kind == 'const' else lin_stat if kind == 'lin' else exp_stat)(p)
    return jnp.exp(A), v * (1 - jnp.exp(2 * A))


def rate(kind, p, t):
    return (const_rate if kind == 'const' else lin_rate if kind == 'lin' else exp_rate)(p, t)


def disp2(kind, p, t):
    return (const_disp2 if kind == 'const' else lin_disp2 if kind == 'lin' else exp_disp2)(p, t)


def drift(kind, p, x, t):
    return rate(kind, p, t) * x


def dispersion_squared(kind, p, t):
    return disp2(kind, p, t)


def mean(kind, p, t, s, m0):
    return moments(kind, p, t, s)[0] * m0


def variance(kind, p, t, s):
    return moments(kind, p, t, s)[1]


# evolution equations, applied to the class under analysis
def mean_rate(sde, t, s, m0):
    return jax.grad(lambda u: sde.mean(u, s, m0))(t)


def mean_rate_law(sde, t, s, m0):
    return sde.drift(sde.mean(t, s, m0), t)


def var_rate(sde, t, s):
    return jax.grad(lambda u: sde.variance(u, s))(t)


def var_rate_law(sde, t, s):
    return 2 * sde.drift(sde.variance(t, s), t) + sde.dispersion(t) ** 2


def disc_rate(disc, t, s):
    return jax.grad(lambda u: disc(u, s)[0])(t), jax.grad(lambda u: disc(u, s)[1])(t)


def disc_rate_law(disc, sde, t, s):
    F, Q = disc(t, s)
    return sde.drift(F, t), 2 * sde.drift(Q, t) + sde.dispersion(t) ** 2


def disc_start(disc, s):
    return disc(s, s)


def start_law():
    return 1., 0.


def semigroup(disc, t, r, s):
    F1, Q1 = disc(r, s)
    F2, Q2 = disc(t, r)
    return F2 * F1, F2 ** 2 * Q1 + Q2


def disc_at(disc, t, s):
    return disc(t, s)


def cond_score(kind, p, x, t, x0, s):
    F, Q = moments(kind, p, t, s)
    return (F * x0 - x) / Q


def cond_score_grad(kind, p, x, t, x0, s):
    F, Q = moments(kind, p, t, s)
    return jax.grad(lambda z: jnp.sum(-(z - F * x0) ** 2 / (2 * Q)))(x)


def forward_path(kind, p, key, x0, ts):
    K = ts.shape[0] - 1
    z = jax.random.normal(key, (K, *x0.shape))

    def step(x, k):
        F, Q = moments(kind, p, ts[k + 1], ts[k])
        y = F * x + jnp.sqrt(Q) * z[k]
        return y, y

    return jnp.concatenate([x0[None], jax.lax.scan(step, x0, jnp.arange(K))[1]])


def forward_marginals(kind, p, key, x0, ts, t0):
    n = ts.shape[0]
    z = jax.random.normal(key, (n, *x0.shape))
    start = ts[0] if t0 is None else t0

    def at(k):
        F, Q = moments(kind, p, ts[k], start)
        return F * x0 + jnp.sqrt(Q) * z[k]

    return jnp.stack([at(k) for k in range(n)])


def forward_marginal_scalar(kind, p, key, x0, t, t0):
    F, Q = moments(kind, p, t, t0)
    return F * x0 + jnp.sqrt(Q) * jax.random.normal(key, x0.shape)


def bridge_drift(kind, p, x, t, target, T):
    F, Q = moments(kind, p, T, t)
    return rate(kind, p, t) * x + disp2(kind, p, t) * F * (target - F * x) / Q


# OU family with the start time 0
def ou_moments(a, b, t):
    return jnp.exp(a * t), -b ** 2 / (2 * a) * (1 - jnp.exp(2 * a * t))


def ou_score(a, b, x, t, x0):
    F, Q = ou_moments(a, b, t)
    return (F * x0 - x) / Q


def ou_path(a, b, key, x0, ts):
    K = ts.shape[0] - 1
    z = jax.random.normal(key, (K, x0.shape[0]))

    def step(x, k):
        F, Q = ou_moments(a, b, ts[k + 1] - ts[k])
        y = F * x + jnp.sqrt(Q) * z[k]
        return y, y

    return jnp.concatenate([x0[None], jax.lax.scan(step, x0, jnp.arange(K))[1]])


def ou_marginals(a, b, key, x0, ts):
    n = ts.shape[0]
    z = jax.random.normal(key, (n, x0.shape[0]))

    def at(k):
        F, Q = ou_moments(a, b, ts[k])
        return F * x0 + jnp.sqrt(Q) * z[k]

    return jnp.stack([at(k) for k in range(n)])


# training losses
def times(key, t0, T, nsteps, random_times, eps):
    if random_times:
        u = jnp.sort(jax.random.uniform(key, (nsteps - 1,), minval=t0 + eps, maxval=T))
        return jnp.concatenate([jnp.stack([t0]), u, jnp.stack([T])])
    return t0 + (T - t0) * jnp.arange(nsteps + 1) / nsteps


def law_loss(sde, nn, t0, T, nsteps, random_times, loss_type, param, key, x0s):
    disc, score, sim = pub.make_linear_sde(sde)
    n = x0s.shape[0]
    k_ts, k_fwd = jax.random.split(key)
    ts = times(k_ts, t0, T, nsteps, random_times, 1e-5)
    keys = jax.random.split(k_fwd, n)
    paths = jnp.stack([sim(keys[i], x0s[i], ts) for i in range(n)])

    def term(k):
        # time step k + 1 for the whole batch
        t, s = ts[k + 1], ts[k]
        x, prev = paths[:, k + 1], paths[:, k]
        out = nn(x, t, param)
        if loss_type == 'score':
            Q = disc(t, t0)[1]
            return jnp.mean(Q * (out - score(x, t, paths[:, 0], t0)) ** 2)
        if loss_type == 'ipf':
            F = disc(t, s)[0]
            return jnp.mean((out - (x + F * prev - F * x)) ** 2)
        return jnp.mean((out - score(x, t, prev, s)) ** 2)

    return jnp.mean(jnp.stack([term(k) for k in range(nsteps)]))


def law_loss_save_mem(sde, nn, t0, T, random_times, param, key, x0s):
    disc, score, sim = pub.make_linear_sde(sde)
    n = x0s.shape[0]
    k_ts, k_fwd = jax.random.split(key)
    if random_times:
        ts = jnp.concatenate([jnp.sort(jax.random.uniform(k_ts, (n - 1,), minval=t0 + 1e-5, maxval=T)),
                              jnp.stack([T])])
    else:
        ts = t0 + (T - t0) * (jnp.arange(n) + 1) / n
    keys = jax.random.split(k_fwd, n)
    xs = jnp.stack([sim(keys[i], x0s[i], ts[i], t0=t0, keep_path=False) for i in range(n)])
    out = nn(xs, ts, param)

    def term(i):
        return jnp.mean(disc(ts[i], t0)[1] * (out[i] - score(xs[i], ts[i], x0s[i], t0)) ** 2)

    return jnp.mean(jnp.stack([term(i) for i in range(n)]))


def ou_loss(a, b, nn, t0, T, nsteps, random_times, param, key, x0s):
    disc, score, sim = pub.make_ou_sde(a, b)
    n = x0s.shape[0]
    k_ts, k_fwd = jax.random.split(key)
    ts = times(k_ts, t0, T, nsteps, random_times, 0.)
    keys = jax.random.split(k_fwd, n)
    paths = jnp.stack([sim(keys[i], x0s[i], ts) for i in range(n)])

    def term(k):
        out = nn(paths[:, k + 1], ts[k + 1], param)
        return jnp.mean(disc(ts[k + 1])[1] * (out - score(paths[:, k + 1], ts[k + 1], paths[:, 0])) ** 2)

    return jnp.mean(jnp.stack([term(k) for k in range(nsteps)]))


# Gaussian Schroedinger bridge with a Brownian reference of coefficient sig on [0, 1]
def sb(mean0, cov0, mean1, cov1, sig, sqrtm):
    d = mean0.shape[0]
    I = jnp.eye(d)
    r = sqrtm(cov0)
    D = sqrtm(4 * r @ cov1 @ r + sig ** 4 * I)
    # cross-covariance of the static bridge
    C = 0.5 * (r @ D @ jnp.linalg.inv(r) - sig ** 2 * I)
    return C, I


def sb_mean(mean0, cov0, mean1, cov1, sig, sqrtm, t):
    return mean0 + t * (mean1 - mean0)


def sb_cov(mean0, cov0, mean1, cov1, sig, sqrtm, t):
    C, I = sb(mean0, cov0, mean1, cov1, sig, sqrtm)
    return (1 - t) ** 2 * cov0 + t ** 2 * cov1 + t * (1 - t) * (C + C.T + sig ** 2 * I)


def sb_drift(mean0, cov0, mean1, cov1, sig, sqrtm, x, t):
    C, I = sb(mean0, cov0, mean1, cov1, sig, sqrtm)
    S = t * cov1 + (1 - t) * C - ((1 - t) * cov0 + t * C).T - sig ** 2 * t * I
    cov = sb_cov(mean0, cov0, mean1, cov1, sig, sqrtm, t)
    return S.T @ jnp.linalg.solve(cov, x - mean0 - t * (mean1 - mean0)) + mean1 - mean0
