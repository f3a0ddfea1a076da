"""Statistical oracles with bounds at 7 standard deviations."""
import math

import numpy as np

from vf import gens

SIGMAS = 7.0


def normal(arrays, what):
  """The pooled entries look like independent standard normals."""
  x = np.concatenate([np.ravel(a) for a in arrays])
  n = len(x)
  gens.check(np.isfinite(x).all(), f'{what} is not finite')
  mean, second = float(x.mean()), float((x ** 2).mean())
  gens.check(abs(mean) <= SIGMAS / math.sqrt(n),
             f'{what}: mean {mean:.4g} over {n} values, expected 0')
  # The square of a normal has variance 2 and a heavier tail than a normal:
  # bound from the chi-squared tail, P(S/n > 1+d) < exp(-n/2 (d - log(1+d))).
  d = second - 1
  rate = math.inf if second <= 0 else n / 2 * (d - math.log1p(d))
  gens.check(rate <= SIGMAS ** 2 / 2,
             f'{what}: variance {second:.4g} over {n} values, expected 1')
  # Distribution: Kolmogorov-Smirnov (DKW bound, 2 exp(-2 n D^2)).
  u = np.sort(x)
  cdf = np.array([0.5 * math.erfc(-v / math.sqrt(2)) for v in u])
  gap = max(np.abs(cdf - np.arange(n) / n).max(),
            np.abs(cdf - np.arange(1, n + 1) / n).max())
  gens.check(2 * n * gap ** 2 <= SIGMAS ** 2 / 2 + math.log(2),
             f'{what}: Kolmogorov distance {gap:.4g} from a normal over {n} '
             'values')
  for a in arrays:
    one(np.ravel(a), what)


def one(x, what):
  """Mean, variance and serial correlation of one array."""
  n = len(x)
  if n < 100:
    return
  gens.check(abs(x.mean()) <= SIGMAS / math.sqrt(n),
             f'{what}: mean {x.mean():.4g} of one leaf of {n} values')
  s = (x ** 2).mean()
  rate = math.inf if s <= 0 else n / 2 * (s - 1 - math.log(s))
  gens.check(rate <= SIGMAS ** 2 / 2,
             f'{what}: variance {s:.4g} of one leaf of {n} values')
  for lag in (1, 2, 20, 80):
    if lag < n // 2:
      correlation(x[:-lag], x[lag:], f'{what}: lag {lag} within a leaf')


def correlation(x, y, what):
  n = len(x)
  c = float(np.dot(x, y)) / n
  # Products of normals are sub-exponential: 9 standard deviations.
  gens.check(abs(c) <= 9.0 / math.sqrt(n),
             f'{what}: correlation {c:.4g} over {n} values, expected 0')


def fresh(arrays, what, tol):
  """No two arrays share values or are correlated."""
  flat = [np.ravel(a) for a in arrays]
  for i in range(len(flat)):
    for j in range(i):
      x, y = flat[i], flat[j]
      m = min(len(x), len(y))
      if m >= 100:
        correlation(x[:m], y[:m], f'{what}: arrays {j} and {i}')
      if m >= 2:
        for sign in (1, -1):
          same = int((np.abs(x[:m] - sign * y[:m])
                      <= tol * (1 + np.abs(x[:m]))).sum())
          gens.check(same <= max(1, m // 10) or same < m and m < 10,
                     f'{what}: {same} of {m} values are repeated in arrays '
                     f'{j} and {i}')


def stream(z, what):
  """The rows of z (steps x at least 3) are independent and never repeat."""
  steps, m = z.shape
  gens.check(np.isfinite(z).all(), f'{what} is not finite')
  # Rows that repeat in any order and with any signs.
  key = np.round(np.sort(np.abs(z), axis=1), 5)
  _, first = np.unique(key, axis=0, return_index=True)
  if len(first) < steps:
    t = next(i for i in range(steps) if i not in set(first.tolist()))
    s = next(i for i in range(t) if (key[i] == key[t]).all())
    gens.check(False, f'{what}: step {t} repeats the values of step {s}: '
               f'{z[t].tolist()}')
  flat = z.ravel()
  n = len(flat)
  for k in range(m):
    x = z[:, k]
    gens.check(abs(x.mean()) <= SIGMAS / math.sqrt(steps),
               f'{what}: mean {x.mean():.4g} of entry {k} over {steps} steps')
  s = float((flat ** 2).mean())
  rate = math.inf if s <= 0 else n / 2 * (s - 1 - math.log(s))
  gens.check(rate <= SIGMAS ** 2 / 2,
             f'{what}: variance {s:.4g} over {n} values, expected 1')
  for half in (z[:steps // 2], z[steps // 2:]):
    one(half.ravel(), what + ' (half of the steps)')
  for lag in list(range(1, 17)) + [32, 64, 100, 128, 256, 512, 1000]:
    if (steps - lag) * m >= 100 and lag < steps:
      correlation(z[:-lag].ravel(), z[lag:].ravel(),
                  f'{what}: steps that are {lag} apart')
