PROPERTY = 'E01'
NEEDS = 'the time-varying diffusion (--sde lin)'
WHAT = 'the Gibbs GP experiment evaluates its transition density with the forward-time dispersion'
EDITS = [('experiments/toy/gp_gibbs.py', '                                               u_prev + reverse_drift_u(u_prev, v_prev, t_prev) * dt,\n                                               math.sqrt(dt) * reverse_dispersion(t_prev)))', '                                               u_prev + reverse_drift_u(u_prev, v_prev, t_prev) * dt,\n                                               math.sqrt(dt) * sde.dispersion(t_prev)))')]
DEMO = '''
import runpy
import sys
import jax
import jax.numpy as jnp
import fbs.samplers
import fbs.samplers.smc


class Done(Exception):
    pass


got = {}


def stub(transition_sampler, likelihood, vs, ts, *a, **k):
    got.update(ts=ts, s=transition_sampler)
    return jnp.zeros((ts.shape[0], 4, 3)), 0.


def stub2(key, us, vs, ts, transition_logpdf, *a, **k):
    got.update(p=transition_logpdf)
    raise Done


fbs.samplers.bootstrap_filter = fbs.samplers.smc.bootstrap_filter = stub
fbs.samplers.bootstrap_backward_smoother = fbs.samplers.smc.bootstrap_backward_smoother = stub2
sys.argv = ['gp_gibbs.py', '--d=3', '--nparticles=4', '--nsamples=1', '--nchains=2', '--sde=lin']
try:
    runpy.run_path('experiments/toy/gp_gibbs.py')
except Done:
    pass
us, v, t = jnp.zeros((1, 3)), jnp.zeros((3,)), got['ts'][20]
normal = jax.random.normal
jax.random.normal = lambda key, shape=(), dtype=float: jnp.zeros(shape)
m = got['s'](us, v, t, jax.random.PRNGKey(0))
jax.random.normal = lambda key, shape=(), dtype=float: jnp.ones(shape)
sd = (got['s'](us, v, t, jax.random.PRNGKey(0)) - m)[0, 0]
jax.random.normal = normal
h = jax.hessian(lambda x: got['p'](x, us, v, t)[0])(m[0])
assert jnp.allclose(-h[0, 0], sd ** -2, rtol=1e-2), (h[0, 0], sd)
'''
