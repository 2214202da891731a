PROPERTY = 'S06'
NEEDS = 'the memory-saving loss'
WHAT = 'the memory-saving loss scales from the first sampled time instead of the initial time'
EDITS = [('fbs/sdes/linear.py', 'scales = score_scale(ts, t0)', 'scales = score_scale(ts, ts[0])')]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.sdes.linear import StationaryConstLinearSDE, make_linear_sde_law_loss

big, n, T = 1e4, 4, 2.
loss = make_linear_sde_law_loss(StationaryConstLinearSDE(a=-0.5, b=1.), lambda x, t, p: big * jnp.ones_like(x), t0=0., T=T,
                                random_times=False, save_mem=True)
got = loss(None, jax.random.PRNGKey(0), jnp.ones((n, 2)))
ts = jnp.linspace(T / n, T, n)
want = big ** 2 * jnp.mean(1 - jnp.exp(-ts))
assert abs(got / want - 1) < 0.02, (got, want)
'''
