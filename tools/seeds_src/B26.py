PROPERTY = 'S07'
NEEDS = 'a diffusion coefficient other than one'
WHAT = 'the Gaussian bridge drift uses sigma where sigma squared belongs'
EDITS = [('fbs/sdes/linear.py', 'return pt - qt.T - sig ** 2 * rho(t) * jnp.eye(d)', 'return pt - qt.T - sig * rho(t) * jnp.eye(d)')]
DEMO = '''
import jax
import jax.numpy as jnp
from fbs.sdes.linear import make_gaussian_bw_sb

m0, m1 = jnp.array([1., -1.]), jnp.array([0., 2.])
c0, c1, sig = jnp.array([[1., 0.3], [0.3, 1.5]]), jnp.array([[0.5, -0.2], [-0.2, 0.7]]), 0.7
mean, cov, drift = make_gaussian_bw_sb(m0, c0, m1, c1, sig=sig)
for t in (0.2, 0.6):
    A = jax.jacfwd(drift)(mean(t), t)
    rate = jax.jacfwd(cov)(t)
    assert jnp.allclose(A @ cov(t) + cov(t) @ A.T + sig ** 2 * jnp.eye(2), rate, atol=1e-3), t
'''
