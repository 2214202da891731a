PROPERTY = 'S08'
NEEDS = 'integration_nsteps above one'
WHAT = 'the reverse simulator ignores the number of integration steps'
EDITS = [('fbs/sdes/simulators.py', '        return euler_maruyama(key, u0, ts, reverse_drift, reverse_dispersion,\n                              integration_nsteps=integration_nsteps)', '        return euler_maruyama(key, u0, ts, reverse_drift, reverse_dispersion)')]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.sdes.simulators import reverse_simulator

u = reverse_simulator(jax.random.PRNGKey(0), jnp.ones((1,)), jnp.linspace(0., 1., 3), lambda x, t: 0. * x, lambda x, t: -x,
                      lambda t: 0., integration_nsteps=4)
assert jnp.allclose(u, (1 + 1 / 8) ** 8, rtol=1e-4), u
'''
