PROPERTY = 'D06'
NEEDS = 'an observation variance other than one'
WHAT = 'the crescent likelihood uses the variance as its standard deviation'
EDITS = [('fbs/data/bayesian.py', 'self.emission(phi, self.psi), math.sqrt(self.xi)))', 'self.emission(phi, self.psi), self.xi))')]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.data import Crescent

c = Crescent(xi=4.)
x, y = c.sampler(jax.random.PRNGKey(0), 20000)
r = y - jax.vmap(c.emission, in_axes=[0, None])(x, c.psi)
h = jax.grad(jax.grad(lambda z: c.log_cond_pdf_likelihood(z, x[0])))(0.)
assert abs(-1 / h - jnp.var(r)) < 0.3, (h, jnp.var(r))
'''
