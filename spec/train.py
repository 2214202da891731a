"""Reference laws for the training scripts: the loss of the noising process (or the bridge iteration) on a fresh random
enumeration of the training data per epoch, one optimiser step per batch, and the checkpoints."""
import jax
import jax.numpy as jnp
import numpy as np
import optax
from fbs.data import CelebAHQRestore, MNISTRestore
from fbs.sdes.linear import make_linear_sde_law_loss, StationaryConstLinearSDE, StationaryLinLinearSDE
from fbs.dsb.base import ipf_loss_cont, ipf_loss_cont_v
from fbs.nn.base import make_st_nn
from fbs.nn.utils import make_optax_kernel
from fbs.nn.unet import UNet


def data(args, key):
    task = 'inpaint-15'
    if args.dataset == 'mnist':
        return (28, 28, 1), MNISTRestore(key, '../datasets/mnist.npz', task=task)
    r = int(args.dataset.split('-')[-1])
    return (r, r, 3), CelebAHQRestore(key, f'datasets/celeba_hq{r}.npy', task=task, resolution=r)


def noising(name, T):
    if name == 'lin':
        return StationaryLinLinearSDE(beta_min=0.02, beta_max=5., t0=0., T=T)
    return StationaryConstLinearSDE(a=-0.5, b=1.)


def optimiser(args, per_epoch):
    if args.schedule == 'cos':
        lr = optax.cosine_decay_schedule(args.lr, int(0.95 * args.nepochs) * per_epoch, 1e-2)
    elif args.schedule == 'exp':
        lr = optax.exponential_decay(args.lr, per_epoch, 0.96)
    else:
        lr = optax.constant_schedule(args.lr)
    opt = optax.adam(lr)
    if args.grad_clip:
        opt = optax.chain(optax.clip_by_global_norm(1.), opt)
    return opt


def score(args):
    T = 2
    key = jax.random.PRNGKey(666)
    key, data_key = jax.random.split(key)
    key, k_ds = jax.random.split(key)
    shape, ds = data(args, k_ds)
    sde = noising(args.sde, T)
    key, k_nn = jax.random.split(key)
    B = args.batch_size
    param, _, net = make_st_nn(k_nn, UNet(dt=T / 200, dim=64, upsampling=args.upsampling), shape, B)
    loss = make_linear_sde_law_loss(sde, net, t0=0., T=T, nsteps=args.nsteps, random_times=True,
                                    loss_type=args.loss_type, save_mem=args.save_mem)
    per_epoch = ds.n // B
    opt = optimiser(args, per_epoch)
    step, average = make_optax_kernel(opt, loss)
    mean, state = param, opt.init(param)
    for i in range(args.nepochs):
        data_key, k = jax.random.split(data_key)
        k, k_perm = jax.random.split(k)
        perm = ds.init_enumeration(k_perm, B)
        for j in range(per_epoch):
            k, k_loss = jax.random.split(k)
            param, state, _ = step(param, state, k_loss, ds.enumerate_subset(j, perm))
            mean = average(mean, param, j, 300, 2, 0.99)
        if (i + 1) % 100 == 0:
            np.savez(f'checkpoints/{args.dataset}_{args.sde}_{i}', param=param, ema_param=mean)


def bridge(args):
    T = args.T
    key = jax.random.PRNGKey(666)
    key, key_sb = jax.random.split(key)
    key, k_ds = jax.random.split(key)
    shape, ds = data(args, k_ds)
    sde = noising(args.sde, T)
    key, k_nn = jax.random.split(key)
    B = args.batch_size
    net = UNet(dt=0.5 / 200, dim=args.nn_dim, upsampling=args.upsampling)
    fwd, _, drift = make_st_nn(k_nn, net, shape, B)
    bwd, _, _ = make_st_nn(k_nn, net, shape, B)
    per_epoch = ds.n // B
    opt = optimiser(args, per_epoch)
    ipf = ipf_loss_cont_v if args.vmap_loss else ipf_loss_cont

    def times(k):
        return jnp.concatenate([jnp.zeros((1,)), jnp.sort(jax.random.uniform(k, (args.nsteps - 1,), minval=1e-5, maxval=T)),
                                jnp.array([T])])

    def step(loss, param, state):
        g = jax.grad(loss)(param)
        upd, state = opt.update(g, state, param)
        return param + upd, state

    def learn_bwd(k, bwd, state, fwd, xs, simulator):
        k1, k2 = jax.random.split(k)
        return step(lambda p: ipf(k1, p, fwd, xs, times(k2), drift, simulator, sde.dispersion), bwd, state)

    def learn_fwd(k, fwd, state, bwd, xs):
        k1, k2 = jax.random.split(k)
        return step(lambda p: ipf(k1, p, bwd, xs, T - times(k2), drift, drift, sde.dispersion), fwd, state)

    sf, sb = opt.init(fwd), opt.init(bwd)
    for it in range(args.nsbs):
        key_sb, k_data = jax.random.split(key_sb)
        for i in range(args.nepochs):
            k_data, k = jax.random.split(k_data)
            k, k_perm = jax.random.split(k)
            perm = ds.init_enumeration(k_perm, B)
            for j in range(per_epoch):
                k, k_loss = jax.random.split(k)
                xs = ds.enumerate_subset(j, perm)
                if it == 0:
                    bwd, sb = learn_bwd(k_loss, bwd, sb, fwd, xs, lambda x, t, _: sde.drift(x, t))
                else:
                    bwd, sb = learn_bwd(k_loss, bwd, sb, fwd, xs, drift)
        for i in range(args.nepochs):
            k_data, k = jax.random.split(k_data)
            for j in range(per_epoch):
                k, k_loss, k_ref = jax.random.split(k, 3)
                fwd, sf = learn_fwd(k_loss, fwd, sf, bwd, jax.random.normal(k_ref, (B, *shape)))
        np.savez(f'checkpoints/sb_{args.dataset}_{args.sde}_{it}', param_fwd=fwd, param_bwd=bwd)
