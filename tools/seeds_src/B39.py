PROPERTY = 'E02'
NEEDS = 'the backward dispersion of the bridge experiment'
WHAT = 'the reverse drift of the bridge experiment runs the forward drift on the reverse clock'
EDITS = [('experiments/sb/filter.py', 'return -drift(uv, T - t) + dispersion(T - t) ** 2 * score(uv, T - t)', 'return -drift(uv, t) + dispersion(T - t) ** 2 * score(uv, T - t)')]
DEMO = '''
import runpy
import sys
import jax
import jax.numpy as jnp
import fbs.samplers
import fbs.samplers.smc


class Done(Exception):
    pass


got = {}


def stub(transition_sampler, likelihood, vs, ts, *a, **k):
    got.update(ts=ts, s=transition_sampler)
    raise Done


fbs.samplers.bootstrap_filter = fbs.samplers.smc.bootstrap_filter = stub
import fbs.sdes


def bridge(m0, c0, m1, c1, sig=1.):
    d = m0.shape[0]
    return lambda t: jnp.zeros(d), lambda t: jnp.eye(d), lambda x, t: t * jnp.ones(d)


fbs.sdes.make_gaussian_bw_sb = fbs.sdes.linear.make_gaussian_bw_sb = bridge
sys.argv = ['filter.py', '--d=3', '--nparticles=4', '--nsamples=1']
try:
    runpy.run_path('experiments/sb/filter.py')
except Done:
    pass
ts = got['ts']
dt, t = ts[1] - ts[0], ts[10]
normal = jax.random.normal
jax.random.normal = lambda key, shape=(), dtype=float: jnp.zeros(shape)
us = got['s'](jnp.zeros((1, 3)), jnp.zeros((3,)), t, jax.random.PRNGKey(0))
jax.random.normal = normal
assert jnp.allclose(us, -dt * (ts[-1] - t), rtol=1e-3), (us, dt, t)
'''
