PROPERTY = 'C06'
NEEDS = 'resampling that moves particles (unequal twisting weights)'
WHAT = 'the twisting values are not resampled with their particles, so weights divide by those of other particles'
EDITS = [('fbs/samplers/smc.py', '        log_ps_prev = log_ps_prev[resampling_inds, ...]\n', '')]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.samplers import twisted_smc

n = 3
ts = jnp.array([0., 1.])
x0 = jnp.array([0., 1., 2.])
psi = lambda y, x, t: -0.5 * (y - x) ** 2
trans = lambda x, xp, t: -0.5 * (x - xp) ** 2
prop_lp = lambda x, xp, t, y: -(x - xp) ** 2
a = jnp.array([2, 2, 0])
xs, lw = twisted_smc(jax.random.PRNGKey(0), 1.5, ts, lambda k, m: x0, trans, psi,
                     lambda k, xp, t, y: xp + jnp.array([.1, .2, .3]), prop_lp, lambda w, k: a, n)
xp = x0[a]
x = xp + jnp.array([.1, .2, .3])
w = trans(x, xp, 1.) + psi(1.5, x, 1.) - prop_lp(x, xp, 1., 1.5) - psi(1.5, xp, 0.)
w = w - jax.scipy.special.logsumexp(w)
assert jnp.allclose(xs, x) and jnp.allclose(lw, w, atol=1e-5), (lw, w)
'''
