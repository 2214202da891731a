PROPERTY = 'C08'
NEEDS = 'two consecutive backward draws'
WHAT = 'the first backward draw reuses the key of the terminal draw'
EDITS = [('fbs/samplers/csmc/csmc.py', 'inps = keys[:-1], uss[-2::-1], log_ws[-2::-1], vs[-2::-1], ts[-2::-1]', 'inps = keys[:0:-1], uss[-2::-1], log_ws[-2::-1], vs[-2::-1], ts[-2::-1]')]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.samplers.csmc.csmc import backward_sampling_pass

K, n = 3, 5
same = 0
for s in range(60):
    _, bs = backward_sampling_pass(jax.random.PRNGKey(s), lambda u, us, v, t: jnp.zeros(n), jnp.zeros((K + 1, 1)), jnp.arange(K + 1.),
                                   jnp.zeros((K + 1, n, 1)), jnp.zeros((K + 1, n)))
    same += int(bs[-1] == bs[-2])
assert same < 40, same
'''
