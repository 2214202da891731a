PROPERTY = 'S04'
NEEDS = 'the bridge of the constant-coefficient SDE'
WHAT = 'the bridge drift conditions on the mean of the reversed interval'
EDITS = [('fbs/sdes/linear.py', '''        return self.b ** 2 / (2 * self.a) * (jnp.exp(2 * self.a * (t - s)) - 1)

    def bridge_drift(self, x, t, target, T):
        """The corresponding Doobs transform SDE drift.
        """

        def log_h(a, b): return jnp.sum(jax.scipy.stats.norm.logpdf(a,
                                                                    self.mean(T, t, b),''',
          '''        return self.b ** 2 / (2 * self.a) * (jnp.exp(2 * self.a * (t - s)) - 1)

    def bridge_drift(self, x, t, target, T):
        """The corresponding Doobs transform SDE drift.
        """

        def log_h(a, b): return jnp.sum(jax.scipy.stats.norm.logpdf(a,
                                                                    self.mean(t, T, b),''')]
DEMO = '''
import jax.numpy as jnp
from fbs.sdes.linear import StationaryConstLinearSDE

a, b, t, T = -0.8, 1.2, 0.3, 1.1
x, y = jnp.array([0.4, -1.]), jnp.array([1., 0.5])
got = StationaryConstLinearSDE(a, b).bridge_drift(x, t, y, T)
F = jnp.exp(a * (T - t))
Q = b ** 2 / (2 * a) * (F ** 2 - 1)
want = a * x + b ** 2 * F * (y - F * x) / Q
assert jnp.allclose(got, want, rtol=1e-4), (got, want)
'''
