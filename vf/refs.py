"""Independent float64 NumPy models of the gradient transformations.

A model is a pair (init, update) over *lists* of float64 arrays:
  init(params) -> state;  update(grads, state, params) -> (updates, state).
They are written from the published algorithms and the documentation.
"""
import math

import numpy as np


class Model:

  def __init__(self, init, update):
    self.init = init
    self.update = update


def stateless(fn):
  return Model(lambda p: None, lambda g, s, p: (fn(g, p), s))


def identity():
  return stateless(lambda g, p: [x.copy() for x in g])


def anchored(c):
  return Model(lambda p: [x.copy() for x in p], lambda g, s, p: (
      [x + c * (y - z) for x, y, z in zip(g, p, s)], s))


def toggle():
  return Model(lambda p: False, lambda g, s, p: (
      [-x if s else x.copy() for x in g], not s))


def scale(c):
  return stateless(lambda g, p: [c * x for x in g])


def chain(*models):
  def init(p):
    return [m.init(p) for m in models]

  def update(g, s, p):
    new = []
    for m, si in zip(models, s):
      g, si = m.update(g, si, p)
      new.append(si)
    return g, new
  return Model(init, update)


def scale_by_schedule(fn):
  """fn(t) is the factor of the t-th update, t = 0, 1, 2, ..."""
  def update(g, t, p):
    return [fn(t) * x for x in g], t + 1
  return Model(lambda p: 0, update)


def trace(decay, nesterov=False):
  def update(g, t, p):
    t = [x + decay * y for x, y in zip(g, t)]
    out = [x + decay * y for x, y in zip(g, t)] if nesterov else t
    return out, t
  return Model(lambda p: [np.zeros_like(x) for x in p], update)


def ema(decay, debias=True):
  """Written as the closed-form weighted sum over (recent) history."""
  def update(g, state, p):
    n, old, hist = state
    n, hist = n + 1, hist + [g]
    while len(hist) > (80 if n < 300 else 1):  # `old` is the sum of what came before `hist`.
      old = [decay * o + (1 - decay) * x for o, x in zip(old, hist[0])]
      hist = hist[1:]
    out = []
    for i in range(len(g)):
      m = sum((1 - decay) * decay ** (len(hist) - 1 - k) * hist[k][i]
              for k in range(len(hist)))
      m = m + decay ** len(hist) * old[i]
      out.append(m / (1 - decay ** n) if debias else m)
    return out, (n, old, hist)
  return Model(lambda p: (0, [np.zeros_like(x) for x in p], []), update)


def rss(initial=0.1, eps=1e-7):
  def update(g, s, p):
    s = [a + x * x for a, x in zip(s, g)]
    out = []
    for a, x in zip(s, g):
      with np.errstate(all='ignore'):
        out.append(np.where(a > 0, x / np.sqrt(a + eps), 0.0))
    return out, s
  return Model(lambda p: [np.full_like(x, initial) for x in p], update)


def rms(decay=0.9, eps=1e-8, initial_scale=0.0):
  def update(g, s, p):
    s = [decay * a + (1 - decay) * x * x for a, x in zip(s, g)]
    return [x / np.sqrt(a + eps) for a, x in zip(s, g)], s
  return Model(lambda p: [np.full_like(x, initial_scale) for x in p], update)


def stddev(decay=0.9, eps=1e-8, initial_scale=0.0):
  def update(g, s, p):
    m, n = s
    m = [decay * a + (1 - decay) * x for a, x in zip(m, g)]
    n = [decay * a + (1 - decay) * x * x for a, x in zip(n, g)]
    out = [x / np.sqrt(np.maximum(b - a * a, 0.0) + eps)
           for x, a, b in zip(g, m, n)]
    return out, (m, n)
  return Model(lambda p: ([np.zeros_like(x) for x in p],
                          [np.full_like(x, initial_scale) for x in p]), update)


def _zeros2(p):
  return (0, [np.zeros_like(x) for x in p], [np.zeros_like(x) for x in p])


def _moments(g, m, v, b1, b2):
  m = [b1 * a + (1 - b1) * x for a, x in zip(m, g)]
  v = [b2 * a + (1 - b2) * x * x for a, x in zip(v, g)]
  return m, v


def adam(b1=0.9, b2=0.999, eps=1e-8, eps_root=0.0):
  def update(g, s, p):
    t, m, v = s
    t += 1
    m, v = _moments(g, m, v, b1, b2)
    out = [(a / (1 - b1 ** t)) / (np.sqrt(b / (1 - b2 ** t) + eps_root) + eps)
           for a, b in zip(m, v)]
    return out, (t, m, v)
  return Model(_zeros2, update)


def belief(b1=0.9, b2=0.999, eps=0.0, eps_root=1e-16):
  def update(g, s, p):
    t, m, v = s
    t += 1
    # The prediction of the gradient is the average of the previous ones.
    v = [b2 * b + (1 - b2) * (x - a) ** 2 for x, a, b in zip(g, m, v)]
    m = [b1 * a + (1 - b1) * x for a, x in zip(m, g)]
    out = [(a / (1 - b1 ** t)) / (np.sqrt(b / (1 - b2 ** t) + eps_root) + eps)
           for a, b in zip(m, v)]
    return out, (t, m, v)
  return Model(_zeros2, update)


def yogi(b1=0.9, b2=0.999, eps=1e-3, eps_root=0.0, initial=1e-6,
         as_built=False):
  """`as_built`: the second moment as optax 0.0.7 computes it (a finding)."""
  def update(g, s, p):
    t, m, v = s
    t += 1
    m = [b1 * a + (1 - b1) * x for a, x in zip(m, g)]
    if as_built:
      v = [(1 - b2) * (np.sign(b - x * x) * x * x) ** 2 + b2 * b
           for b, x in zip(v, g)]
    else:
      v = [b - (1 - b2) * np.sign(b - x * x) * x * x for b, x in zip(v, g)]
    with np.errstate(all='ignore'):
      out = [(a / (1 - b1 ** t)) /
             (np.sqrt(b / (1 - b2 ** t) + eps_root) + eps)
             for a, b in zip(m, v)]
    return out, (t, m, v)
  return Model(lambda p: (0, [np.full_like(x, initial) for x in p],
                          [np.full_like(x, initial) for x in p]), update)


def radam(b1=0.9, b2=0.999, eps=1e-8, eps_root=0.0, threshold=5.0):
  rho_inf = 2.0 / (1 - b2) - 1

  def update(g, s, p):
    t, m, v = s
    t += 1
    m, v = _moments(g, m, v, b1, b2)
    rho = rho_inf - 2 * t * b2 ** t / (1 - b2 ** t)
    mhat = [a / (1 - b1 ** t) for a in m]
    if rho >= threshold:
      r = math.sqrt((rho - 4) * (rho - 2) * rho_inf /
                    ((rho_inf - 4) * (rho_inf - 2) * rho))
      out = [r * a / (np.sqrt(b / (1 - b2 ** t) + eps_root) + eps)
             for a, b in zip(mhat, v)]
    else:
      out = mhat
    return out, (t, m, v)
  return Model(_zeros2, update)


def radam_margin(b2, threshold, steps):
  """How close the rectification test comes to a tie."""
  rho_inf = 2.0 / (1 - b2) - 1
  return min(abs(rho_inf - 2 * t * b2 ** t / (1 - b2 ** t) - threshold)
             for t in range(1, steps + 1))


def add_decayed_weights(wd):
  return stateless(lambda g, p: [x + wd * y for x, y in zip(g, p)])


def trust_ratio(min_norm=0.0):
  def one(u, p):
    pn = max(float(np.sqrt(np.sum(p * p))), min_norm)
    un = max(float(np.sqrt(np.sum(u * u))), min_norm)
    return u * (1.0 if pn == 0 or un == 0 else pn / un)
  return stateless(lambda g, p: [one(x, y) for x, y in zip(g, p)])


def centralize():
  def one(x):
    if x.ndim < 2 or x.size == 0:
      return x
    mean = x.reshape(x.shape[0], -1).mean(1)
    return x - mean.reshape((-1,) + (1,) * (x.ndim - 1))
  return stateless(lambda g, p: [one(x) for x in g])


def sm3(b1=0.9, b2=1.0, eps=1e-8):
  def init(p):
    acc = [[np.zeros(s) for s in x.shape] if x.ndim > 1 else
           [np.zeros_like(x)] for x in p]
    return acc, [np.zeros_like(x) for x in p]

  def update(g, s, p):
    acc, mom = s
    new_acc, new_mom = [], []
    c = 1.0 if b2 == 1.0 else 1.0 - b2
    for x, a, m in zip(g, acc, mom):
      if x.ndim > 1:
        cover = np.empty_like(x)
        for idx in np.ndindex(*x.shape):
          cover[idx] = min(a[k][idx[k]] for k in range(x.ndim))
        nu = c * x * x + b2 * cover
        na = []
        for k in range(x.ndim):
          v = np.full(x.shape[k], -np.inf)
          for idx in np.ndindex(*x.shape):
            v[idx[k]] = max(v[idx[k]], nu[idx])
          na.append(v)
      else:
        nu = c * x * x + b2 * a[0]
        na = [nu]
      with np.errstate(all='ignore'):
        up = np.where(nu > 0, x / np.sqrt(nu + eps), 0.0)
      new_acc.append(na)
      new_mom.append(b1 * m + (1 - b1) * up)
    return new_mom, (new_acc, new_mom)
  return Model(init, update)


def clip(d):
  return stateless(lambda g, p: [np.minimum(np.maximum(x, -d), d) for x in g])


def clip_by_global_norm(c):
  def fn(g, p):
    norm = math.sqrt(sum(float(np.sum(x * x)) for x in g))
    return [x.copy() if norm < c else x * (c / norm) for x in g]
  return stateless(fn)


def agc(clipping, eps=1e-3):
  """Unit-wise: the last axis of a matrix, of a rank-3 and of a conv kernel."""
  def norms(x):
    if sum(d != 1 for d in x.shape) <= 1:
      return np.full(x.shape, math.sqrt(float(np.sum(x * x))))
    axes = (0,) if x.ndim in (2, 3) else (0, 1, 2)
    return np.broadcast_to(
        np.sqrt(np.sum(x * x, axis=axes, keepdims=True)), x.shape)

  def one(x, p):
    gn, limit = norms(x), clipping * np.maximum(norms(p), eps)
    with np.errstate(all='ignore'):
      return np.where(gn < limit, x, x * (limit / np.maximum(gn, 1e-6)))
  return stateless(lambda g, p: [one(x, y) for x, y in zip(g, p)])


def apply_every(k):
  def update(g, s, p):
    t, acc = s
    acc = [a + x for a, x in zip(acc, g)] if t % k else [x.copy() for x in g]
    emit = t % k == k - 1
    return [a if emit else np.zeros_like(a) for a in acc], (t + 1, acc)
  return Model(lambda p: (0, [np.zeros_like(x) for x in p]), update)
