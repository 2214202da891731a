PROPERTY = 'E01'
NEEDS = 'the proposals of the twisted filter, which differ from the unconditional ones'
WHAT = 'the twisted GP experiment weighs with the density of the unconditional transition'
EDITS = [('experiments/toy/gp_twisted.py', 'm_ = u_prev + reverse_cond_drift(u_prev, t, y) * dt', 'm_ = u_prev + reverse_drift(u_prev, t) * dt')]
DEMO = '''
import runpy
import sys
import jax
import jax.numpy as jnp
import fbs.samplers
import fbs.samplers.smc


class Done(Exception):
    pass


got = {}


def stub(key, y, ts, init_sampler, transition_logpdf, twisting_logpdf, twisting_prop_sampler, twisting_prop_logpdf, **kw):
    got.update(y=y, ts=ts, s=twisting_prop_sampler, p=twisting_prop_logpdf)
    raise Done


fbs.samplers.twisted_smc = fbs.samplers.smc.twisted_smc = stub
sys.argv = ['gp_twisted.py', '--d=3', '--nparticles=4', '--nsamples=1', '--sde=lin']
try:
    runpy.run_path('experiments/toy/gp_twisted.py')
except Done:
    pass
us = jax.random.normal(jax.random.PRNGKey(5), (4, 3))
normal = jax.random.normal
jax.random.normal = lambda key, shape=(), dtype=float: jnp.zeros(shape)
mode = got['s'](jax.random.PRNGKey(0), us, got['ts'][20], got['y'])
jax.random.normal = normal
grad = jax.grad(lambda x: jnp.sum(got['p'](x, us, got['ts'][20], got['y'])))(mode)
assert jnp.allclose(grad, 0., atol=1e-1), grad
'''
