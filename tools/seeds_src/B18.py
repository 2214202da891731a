PROPERTY = 'N07'
NEEDS = 'a start that is not a multiple of the averaging interval'
WHAT = 'the exponential moving average updates on its own clock, from count_start'
EDITS = [('fbs/nn/utils.py', 'if count % count_every == 0:', 'if (count - count_start) % count_every == 0:')]
DEMO = '''
import jax.numpy as jnp
import optax
from fbs.nn.utils import make_optax_kernel

_, ema = make_optax_kernel(optax.sgd(0.1), lambda p: jnp.sum(p))
e, p = jnp.array([0.]), jnp.array([1.])
got = [float(ema(e, p, c, 3, 2, 0.5)[0]) for c in range(8)]
assert got == [1., 1., 1., 0., 0.5, 0., 0.5, 0.], got
'''
