"""Reference laws: Gaussian and matrix utilities."""
import jax
import jax.numpy as jnp


def lti(A, gamma, dt):
    d = A.shape[0]
    Z = jnp.zeros((d, d))
    F = jax.scipy.linalg.expm(A * dt)
    # Van Loan: expm([[A, gamma], [0, -A']] dt) = [[F, Q F^{-T}], [0, F^{-T}]]
    E = jax.scipy.linalg.expm(jnp.concatenate([jnp.concatenate([A, gamma], axis=1),
                                               jnp.concatenate([Z, -A.T], axis=1)], axis=0) * dt)
    return F, E[:d, d:] @ F.T


def sqrtm(mat):
    w, V = jnp.linalg.eigh(mat)
    return jnp.einsum('ik,k,jk->ij', V, jnp.sqrt(w), V)


def sqrtm_schur(mat):
    return jnp.real(jax.scipy.linalg.sqrtm(mat))


def bures(m0, c0, m1, c1, sqrtm):
    r = sqrtm(c0)
    d = m0 - m1
    return jnp.dot(d, d) + jnp.trace(c0) + jnp.trace(c1) - 2 * jnp.trace(sqrtm(r @ c1 @ r))


def kl(m0, c0, m1, c1):
    P = jnp.linalg.inv(c1)
    e = m1 - m0
    return (jnp.sum(jnp.diag(P @ c0)) - m0.shape[0] + e @ P @ e + logdet(c1) - logdet(c0)) / 2


def logdet(c):
    return jnp.linalg.slogdet(c)[1]
