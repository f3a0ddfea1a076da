"""Random smooth functions with exact derivatives and Gaussian expectations.

f(x) = const + sum_j c_j g_j(w_j . x + b_j), g_j from a small set. A function
is JSON: {'k': const, 't': [[kind, c, w, b], ...]}.
"""
import math

from hypothesis import strategies as st
import jax.numpy as jnp
import numpy as np

from vf import gens

KINDS = ['lin', 'sq', 'cube', 'sin', 'exp', 'tanh']
CLOSED = ['lin', 'sq', 'cube', 'sin', 'exp']  # closed Gaussian expectations


@st.composite
def function(draw, dim, kinds=KINDS, max_terms=4, size=1.0):
  terms = []
  for _ in range(draw(st.integers(1, max_terms))):
    w = draw(gens.values(dim, ['unit', 'sparse', 'int']))
    w = [v * 0.4 * size for v in w]
    terms.append([draw(st.sampled_from(kinds)), draw(gens.nice(-2, 2)),
                  [float('%.5g' % v) for v in w], draw(gens.nice(-1, 1))])
  return {'k': draw(gens.nice(-3, 3)), 't': terms}


def g(kind, s, xp=np):
  return {'lin': lambda: s, 'sq': lambda: s * s, 'cube': lambda: s * s * s,
          'sin': lambda: xp.sin(s), 'exp': lambda: xp.exp(s / 4),
          'tanh': lambda: xp.tanh(s)}[kind]()


def dg(kind, s):
  return {'lin': lambda: np.ones_like(s), 'sq': lambda: 2 * s,
          'cube': lambda: 3 * s ** 2, 'sin': lambda: np.cos(s),
          'exp': lambda: np.exp(s / 4) / 4,
          'tanh': lambda: 1 - np.tanh(s) ** 2}[kind]()


def ddg(kind, s):
  return {'lin': lambda: np.zeros_like(s), 'sq': lambda: 2 * np.ones_like(s),
          'cube': lambda: 6 * s, 'sin': lambda: -np.sin(s),
          'exp': lambda: np.exp(s / 4) / 16,
          'tanh': lambda: -2 * np.tanh(s) * (1 - np.tanh(s) ** 2)}[kind]()


def dddg(kind, s):
  if kind == 'tanh':
    y = np.tanh(s)
    return -2 * (1 - y ** 2) * (1 - 3 * y ** 2)
  return {'lin': lambda: np.zeros_like(s), 'sq': lambda: np.zeros_like(s),
          'cube': lambda: 6 * np.ones_like(s), 'sin': lambda: -np.cos(s),
          'exp': lambda: np.exp(s / 4) / 64}[kind]()


def make(f):
  """The function for JAX, of one vector."""
  def fn(x):
    out = f['k']
    for kind, c, w, b in f['t']:
      out = out + c * g(kind, jnp.dot(jnp.asarray(w), x) + b, jnp)
    return out
  return fn


def _s(w, b, x):
  return x @ np.asarray(w) + b


def value(f, x):
  """Values for the rows of x."""
  return f['k'] + sum(c * g(k, _s(w, b, x)) for k, c, w, b in f['t'])


def grad(f, x):
  return sum((c * dg(k, _s(w, b, x)))[..., None] * np.asarray(w)
             for k, c, w, b in f['t'])


def hess(f, x):
  return sum((c * ddg(k, _s(w, b, x)))[..., None, None] * np.outer(w, w)
             for k, c, w, b in f['t'])


def mean_grads(f, mu, log_sigma):
  """Derivatives of E f(x), x ~ N(mu, exp(log_sigma)^2), in mu, log_sigma.

  dE/dmu = E grad f; dE/dlog_sigma_i = sigma_i^2 E d2f/dx_i^2 (Stein).
  """
  var = np.exp(2 * np.asarray(log_sigma))
  gm, gs = np.zeros(len(mu)), np.zeros(len(mu))
  for k, c, w, b in f['t']:
    w = np.asarray(w)
    m, v = float(w @ mu + b), float((w ** 2 * var).sum())
    first = {'lin': lambda: 1.0, 'sq': lambda: 2 * m,
             'cube': lambda: 3 * (m * m + v),
             'sin': lambda: math.cos(m) * math.exp(-v / 2),
             'exp': lambda: math.exp(m / 4 + v / 32) / 4}[k]()
    second = {'lin': lambda: 0.0, 'sq': lambda: 2.0, 'cube': lambda: 6 * m,
              'sin': lambda: -math.sin(m) * math.exp(-v / 2),
              'exp': lambda: math.exp(m / 4 + v / 32) / 16}[k]()
    gm += c * first * w
    gs += c * second * w ** 2 * var
  return gm, gs
