PROPERTY = 'S05'
NEEDS = 'a grid on which the marginal variance is far from the step variance'
WHAT = 'the Ornstein-Uhlenbeck loss weighs each time with the variance of one step'
EDITS = [('fbs/sdes/linear.py', 'scales = score_scale(ts[1:])', 'scales = score_scale(jnp.diff(ts))')]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.sdes.linear import make_ou_score_matching_loss

a, b, n, T, big = -0.5, 1., 8, 2., 1e4
loss = make_ou_score_matching_loss(a, b, lambda x, t, p: big * jnp.ones_like(x), t0=0., T=T, nsteps=n, random_times=False)
got = loss(None, jax.random.PRNGKey(0), jnp.ones((50, 2)))
ts = jnp.linspace(0., T, n + 1)[1:]
want = big ** 2 * jnp.mean(b ** 2 / (2 * a) * (jnp.exp(2 * a * ts) - 1))
assert abs(got / want - 1) < 0.05, (got, want)
'''
