"""Reference laws for the image restoration experiments: the reverse process of a trained model, the samplers through the
public entry points, one test image after another."""
import jax
import jax.numpy as jnp
import numpy as np
from fbs.data import CelebAHQRestore, MNISTRestore
from fbs.samplers.gibbs import gibbs_kernel, gibbs_init
from fbs.samplers.smc import pmcmc_kernel, twisted_smc
from fbs.samplers.resampling import stratified
from fbs.sdes.linear import make_linear_sde, StationaryConstLinearSDE, StationaryLinLinearSDE
from fbs.sdes.simulators import euler_maruyama
from fbs.nn.base import make_st_nn
from fbs.nn.unet import UNet


def image_sde(name, T):
    if name == 'lin':
        return StationaryLinLinearSDE(beta_min=0.02, beta_max=5., t0=0., T=T)
    return StationaryConstLinearSDE(a=-0.5, b=1.)


def gauss_logpdf(x, m, s):
    return jnp.sum(jax.scipy.stats.norm.logpdf(x, m, s))


class Reverse:
    """Euler discretisation of the time reversal on images, seen through a mask."""

    def __init__(self, ds, drift, dispersion, T, nsteps):
        self.ds, self.drift, self.g, self.T = ds, drift, dispersion, T
        self.nsteps, self.dt = nsteps, T / nsteps
        self.ts = jnp.linspace(0., T, nsteps + 1)

    def std(self, t):
        return jnp.sqrt(self.dt) * self.g(self.T - t)

    def move(self, u, v, t, mask):
        z = self.ds.concat(u, v, mask)
        return self.ds.unpack(z + self.drift(z, t) * self.dt, mask)

    def transition_sampler(self, us, v, t, key, mask_):
        b = jax.vmap(lambda u: self.ds.unpack(self.drift(self.ds.concat(u, v, mask_), t), mask_)[0])(us)
        return us + b * self.dt + self.std(t) * jax.random.normal(key, us.shape)

    def transition_logpdf(self, u, us, v, t, mask_):
        def one(w):
            b = self.ds.unpack(self.drift(self.ds.concat(w, v, mask_), t), mask_)[0]
            return gauss_logpdf(u, w + b * self.dt, self.std(t))
        return jax.vmap(one)(us)

    def likelihood_logpdf(self, v, us, v_, t, mask_):
        def one(w):
            b = self.ds.unpack(self.drift(self.ds.concat(w, v_, mask_), t), mask_)[1]
            return gauss_logpdf(v, v_ + b * self.dt, self.std(t))
        return jax.vmap(one)(us)


class Setup:
    def __init__(self, args, task, T=2):
        self.mnist = args.dataset == 'mnist'
        self.res = 28 if self.mnist else int(args.dataset.split('-')[-1])
        self.ch = 1 if self.mnist else 3
        key = jax.random.PRNGKey(args.test_seed)
        key, self.data_key = jax.random.split(key)
        key, k_ds = jax.random.split(key)
        if self.mnist:
            self.ds = MNISTRestore(k_ds, '../datasets/mnist.npz', task=task, test=True)
        else:
            self.ds = CelebAHQRestore(k_ds, f'datasets/celeba_hq{self.res}.npy', task=task, resolution=self.res, test=True)
        self.sde = image_sde(args.sde, T)
        self.disc, _, self.simulate = make_linear_sde(self.sde)
        self.key, k_nn = jax.random.split(key)
        shape = (self.res, self.res, self.ch)
        self.net = make_st_nn(k_nn, UNet(dt=T / 200, dim=64, upsampling='pixel_shuffle'), shape, 2)[2]
        self.n_un = self.ds.unobs_shape[0]
        self.x_shape = (self.n_un, self.ch)
        self.y_shape = (self.res ** 2 - self.n_un, self.ch)
        self.T = T


def model(args, key='param'):
    return np.load(f'checkpoints/{args.dataset}_{args.sde}_{args.test_epoch}.npz')[key]


def setup(args):
    if hasattr(args, 'rate'):
        s = Setup(args, f'supr-{args.rate}')
        s.ds.sr_random = args.rnd_mask
        s.head = 'results_supr'
        s.tag = f'{args.rate}' + ('-rm' if args.rnd_mask else '')
    else:
        s = Setup(args, f'inpaint-{args.rect_size}')
        s.head = 'results_inpainting'
        s.tag = f'{args.rect_size}'
    param = model(args, 'ema_param' if args.test_ema else 'param')
    s.score = lambda z, t: s.net(z, t, param)
    s.drift = lambda z, t: -s.sde.drift(z, s.T - t) + s.sde.dispersion(s.T - t) ** 2 * s.score(z, s.T - t)
    s.r = Reverse(s.ds, s.drift, s.sde.dispersion, s.T, args.test_nsteps)
    return s


def images(args, s, run, with_n):
    """run(key, y0, mask, head) -> key, files."""
    out = []
    key, data_key = s.key, s.data_key
    for k in range(args.ny0s):
        data_key, sub = jax.random.split(data_key)
        if k < args.start_from:
            continue
        img, y0, mask = s.ds.sampler(sub)
        head = f'imgs/{s.head}/arrs/{args.dataset}-{s.tag}-{args.sde}-'
        if with_n:
            head = head + f'{args.nparticles}-'
        head = head + f'{k}'
        out.append((head + '-true', dict(test_img=img, **{f'arr_{i}': m for i, m in enumerate(mask)})))
        key, files = run(key, y0, mask, head)
        out.extend(files)
    return out


def independent(key, nsamples, sampler):
    def body(k, i):
        k, sub = jax.random.split(k)
        return k, sampler(sub)
    return jax.lax.scan(body, key, jnp.arange(nsamples))


def chain(key, nsamples, state, step, show):
    def body(carry, i):
        k, st = carry
        k, sub = jax.random.split(k)
        st = step(sub, st)
        return (k, st), show(st)
    (key, _), out = jax.lax.scan(body, (key, state), jnp.arange(nsamples))
    return key, out


def particle(args):
    s = setup(args)
    r = s.r
    m = args.method
    marg = '-marg' if args.marg else ''

    def fwd(key, x, y, mask_):
        return s.simulate(key, s.ds.concat(x, y, mask_), r.ts)

    def unpack(z, mask_):
        return s.ds.unpack(z, mask_)

    def start(key, y0, mask, method):
        return gibbs_init(key, y0, s.x_shape, r.ts, fwd, s.sde, unpack, r.transition_sampler, r.transition_logpdf,
                          r.likelihood_logpdf, args.nparticles, method, args.marg, mask_=mask)

    def by_filter(key, y0, mask, head):
        def one(sub):
            return s.ds.concat(start(sub, y0, mask, 'filter')[0], y0, mask)
        key, xs = independent(key, args.nsamples, one)
        return key, [(head + '-filter' + marg, {'': xs})]

    eb, ef = 'eb' in m, 'ef' in m

    def by_gibbs(key, y0, mask, head):
        key, sub = jax.random.split(key)
        x0, us = start(sub, y0, mask, args.init_method)
        bs = jnp.zeros((args.test_nsteps + 1,), dtype=int)

        def step(sub, st):
            x0, us, bs = st
            return gibbs_kernel(sub, x0, y0, us, bs, r.ts, fwd, s.sde, unpack, args.nparticles, r.transition_sampler,
                                r.transition_logpdf, r.likelihood_logpdf, args.marg, eb, ef, mask_=mask)[:3]
        key, xs = chain(key, args.nsamples, (x0, us, bs), step, lambda st: s.ds.concat(st[0], y0, mask))
        name = head + '-gibbs' + ('-eb' if eb else '') + ('-ef' if ef else '') + marg
        return key, [(head + '-gibbs-init', {'': s.ds.concat(x0, y0, mask)}), (name, {'': xs})]

    delta = None
    if m != 'pmcmc' and 'pmcmc' in m:
        delta = float(m.split('-')[-1])

    def ref(key, v, n):
        return jax.random.normal(key, (n, *s.x_shape))

    def ys_path(key, y0):
        return s.simulate(key, y0, r.ts)

    def by_pmcmc(key, y0, mask, head):
        key, sub = jax.random.split(key)
        ys = ys_path(sub, y0)

        def step(sub, st):
            return pmcmc_kernel(sub, st[0], st[1], st[2], y0, r.ts, ys_path, s.sde, ref, r.transition_sampler,
                                r.likelihood_logpdf, stratified, args.nparticles, delta, mask_=mask)[:3]
        key, xs = chain(key, args.nsamples, (jnp.zeros(s.x_shape), 0., ys), step, lambda st: s.ds.concat(st[0], y0, mask))
        return key, [(head + f'-pmcmc-{delta}', {'': xs})]

    return images(args, s, by_filter if m == 'filter' else by_gibbs if 'gibbs' in m else by_pmcmc, True)


def csgm(args):
    """Euler-Maruyama of the reverse process of the unobserved part; the observed part is freshly noised at every step."""
    s = setup(args)
    r = s.r

    def drift(u, t, y0, mask, key):
        F, Q = s.disc(s.T - t, 0.)
        v = F * y0 + jnp.sqrt(Q) * jax.random.normal(key, s.y_shape)
        return s.ds.unpack(s.drift(s.ds.concat(u, v, mask), t), mask)[0]

    def one(key, y0, mask):
        k_init, k_sde = jax.random.split(key)
        k_noise, k_obs = jax.random.split(k_sde)
        noise = jax.random.normal(k_noise, (r.nsteps, *s.x_shape))
        keys = jax.random.split(k_obs, r.nsteps)

        def body(u, i):
            t = r.ts[i]
            return u + drift(u, t, y0, mask, keys[i]) * r.dt + r.std(t) * noise[i], None
        return jax.lax.scan(body, jax.random.normal(k_init, s.x_shape), jnp.arange(r.nsteps))[0]

    def run(key, y0, mask, head):
        key, xs = independent(key, args.nsamples, lambda sub: s.ds.concat(one(sub, y0, mask), y0, mask))
        return key, [(head + '-csgm', {'': xs})]

    return images(args, s, run, False)


def twisted(args):
    s = setup(args)
    r = s.r
    shape = (s.res, s.res, s.ch)

    def twist(y, z, t, mask_):
        F, Q = s.disc(s.T - t, 0.)
        v = s.ds.unpack(z + s.drift(z, t) * r.dt, mask_)[1]
        return gauss_logpdf(y, v, jnp.sqrt(F ** 2 * 0.06 + Q))

    def guided(z, t, y, mask_):
        g = jax.grad(lambda w: twist(y, w, t, mask_))(z)
        return z + (s.drift(z, t) + s.sde.dispersion(s.T - t) ** 2 * g) * r.dt

    def init(key, n):
        return jax.random.normal(key, (n, *shape))

    def trans(z, z_, t):
        return jax.vmap(lambda a, b: gauss_logpdf(a, b + s.drift(b, t) * r.dt, r.std(t)))(z, z_)

    def logpdf(y, z, t, mask_):
        return jax.vmap(lambda a: twist(y, a, t, mask_))(z)

    def prop(key, z, t, y, mask_):
        return jax.vmap(lambda a: guided(a, t, y, mask_))(z) + r.std(t) * jax.random.normal(key, (args.nparticles, *shape))

    def prop_logpdf(z, z_, t, y, mask_):
        return jax.vmap(lambda a, b: gauss_logpdf(a, guided(b, t, y, mask_), r.std(t)))(z, z_)

    def one(key, y0, mask):
        k1, k2 = jax.random.split(key)
        zs, lw = twisted_smc(k1, y0, r.ts, init, trans, logpdf, prop, prop_logpdf, stratified, args.nparticles, mask_=mask)
        return jax.random.choice(k2, zs, p=jnp.exp(lw), axis=0)

    def run(key, y0, mask, head):
        key, xs = independent(key, args.nsamples, lambda sub: one(sub, y0, mask))
        return key, [(head + '-twisted', {'': xs})]

    return images(args, s, run, True)


# -- trained Schroedinger bridge -----------------------------------------------------------------------------------------
class BridgeArgs:
    def __init__(self, a):
        self.dataset, self.test_seed, self.sde = 'mnist', a.test_seed, a.sde


def bridge_supr(args):
    s = Setup(BridgeArgs(args), f'supr-{args.rate}', 0.5)
    s.ds.sr_random = False
    ck = np.load(f'checkpoints/sb_mnist_{args.sde}_{args.sb_step}.npz')
    p_fwd, p_bwd = ck['param_fwd'], ck['param_bwd']
    r = Reverse(s.ds, lambda z, t: s.net(z, s.T - t, p_bwd), s.sde.dispersion, s.T, args.test_nsteps)

    def fwd(key, x, y, mask_):
        return euler_maruyama(key, s.ds.concat(x, y, mask_), r.ts, lambda z, t: s.net(z, t, p_fwd), s.sde.dispersion, 1, True)

    def unpack(z, mask_):
        return s.ds.unpack(z, mask_)

    # the test image: the one after y0_id further splits
    data_key, sub = jax.random.split(s.data_key)
    for _ in range(args.y0_id):
        data_key, sub = jax.random.split(data_key)
    img, y0, mask = s.ds.sampler(sub)
    head = f'sb_imgs/results/mnist-{args.rate}-{args.sde}-{args.nparticles}-{args.y0_id}'
    out = [(head + '-true', dict(test_img=img, **{f'arr_{i}': m for i, m in enumerate(mask)}))]
    low = 28 // args.rate

    def interp(key):
        big = jax.image.resize(jnp.reshape(y0, (low, low, 1)), (28, 28, 1), method='linear')
        return s.ds.unpack(big, mask)[0]

    def start(key, x0, method):
        return gibbs_init(key, y0, s.x_shape, r.ts, fwd, s.sde, unpack, r.transition_sampler, r.transition_logpdf,
                          r.likelihood_logpdf, args.nparticles, method, False, x0, mask_=mask)

    key = s.key
    for name, guess in (('random', lambda k: jax.random.uniform(k, s.x_shape, minval=0., maxval=1.)),
                        ('blank', lambda k: jnp.zeros(s.x_shape)), ('interp', interp)):
        if args.method == 'filter':
            def body(k, i):
                k, sub = jax.random.split(k)
                x0 = guess(sub)
                k, sub = jax.random.split(k)
                return k, s.ds.concat(start(sub, x0, 'filter')[0], y0, mask)
            key, xs = jax.lax.scan(body, key, jnp.arange(args.nsamples))
            out.append((head + '-filter-' + name, {'': xs}))
        else:
            key, sub = jax.random.split(key)
            x0 = guess(sub)
            key, sub = jax.random.split(key)
            x0, us = start(sub, x0, 'smoother')
            bs = jnp.zeros((args.test_nsteps + 1,), dtype=int)
            out.append((head + '-gibbs-init', {'': s.ds.concat(x0, y0, mask)}))

            def step(sub, st):
                x0, us, bs = st
                return gibbs_kernel(sub, x0, y0, us, bs, r.ts, fwd, s.sde, unpack, args.nparticles, r.transition_sampler,
                                    r.transition_logpdf, r.likelihood_logpdf, False, True, True, mask_=mask)[:3]
            key, xs = chain(key, args.nsamples, (x0, us, bs), step, lambda st: s.ds.concat(st[0], y0, mask))
            out.append((head + '-gibbs-eb-ef-' + name, {'': xs}))
    return out
