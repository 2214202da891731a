PROPERTY = 'B01'
NEEDS = 'a dispersion that varies over time'
WHAT = 'the continuous bridge loss simulates with the dispersion of the step end'
EDITS = [('fbs/dsb/base.py', 'x_next = x + simulator_drift(x, t, simulator_param) * dt + jnp.sqrt(dt) * dispersion(t) * rnd', 'x_next = x + simulator_drift(x, t, simulator_param) * dt + jnp.sqrt(dt) * dispersion(t_next) * rnd')]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.dsb.base import ipf_loss_cont, ipf_loss_cont_v

a = (jax.random.PRNGKey(0), 2., 1., jnp.ones((4, 2)), jnp.array([0., 1., 3.]), lambda x, t, p: p * x, lambda x, t, p: -p * x,
     lambda t: t)
assert jnp.allclose(ipf_loss_cont(*a), ipf_loss_cont_v(*a), rtol=1e-4), (ipf_loss_cont(*a), ipf_loss_cont_v(*a))
'''
