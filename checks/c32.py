"""C32: power_iteration and matrix_inverse_pth_root."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from vf import gens
from vf.core import Leg

ID = 'C32'
RULE = ('A case is a spectrum with a gap, a random rotation, a size 1-6, '
        'iterations, tolerance (and p, ridge). power_iteration is compared '
        'with the eigenpair and with itself one iteration earlier; the root '
        'with the one from the eigendecomposition whenever the reported error '
        'is small. Non-trivial: size > 1 and more than one distinct '
        'eigenvalue.')
ASSUMPTIONS = ['The random start is not orthogonal to the dominant '
               'eigenvector (overlap at least 5%).']


@st.composite
def matrix(draw, cond=1e3, min_gap=1.3, zero=True):
  n = draw(st.integers(1, 6))
  scale = draw(gens.logf(1e-1, 1e3))
  vals = [1.0]
  for _ in range(n - 1):
    v = draw(gens.logf(min_gap / cond, 1.0)) / min_gap
    if zero and draw(st.integers(0, 9)) == 0:
      v = 0.0
    vals.append(v)
  return {'vals': [float('%.6g' % (v * scale)) for v in vals],
          'rot': draw(st.one_of(st.just(None), st.integers(0, 10 ** 6),
                                st.sampled_from(['dct', 'pair', 'ones']))),
          'seed': draw(st.integers(0, 10 ** 6)),
          'dtype': draw(st.sampled_from(['float64', 'float32']))}


def build(m):
  """The matrix and its exact eigenvectors (columns)."""
  n = len(m['vals'])
  q = np.eye(n)
  if isinstance(m['rot'], str):
    # Dominant eigenvectors with structure: alternating, (1, -1, 0, ...), or
    # constant.
    first = {'dct': (-1.0) ** np.arange(n), 'ones': np.ones(n),
             'pair': np.eye(n)[0] - (np.eye(n)[-1] if n > 1 else 0)}[m['rot']]
    q[:, 0] = first
    q, _ = np.linalg.qr(q if n == 1 or m['rot'] != 'pair' else
                        np.column_stack([first, q[:, 1:-1],
                                         np.eye(n)[0] + np.eye(n)[-1]]))
  elif m['rot'] is not None:
    q, _ = np.linalg.qr(np.random.default_rng(m['rot']).normal(size=(n, n)))
  a = (q * np.asarray(m['vals'])) @ q.T
  return ((a + a.T) / 2).astype(m['dtype']), q


@st.composite
def power_case(draw, ctx):
  return {'m': draw(matrix()), 'iters': draw(st.integers(1, 8)),
          'tol': draw(st.sampled_from([1e-6, 1e-3, 1e-1, 1.0, 1e9, 1e-9])),
          'default': draw(st.booleans()), 'jit': draw(st.integers(0, 4)) == 0}


def run_power(case, ctx):
  m = case['m']
  a, q = build(m)
  n = len(m['vals'])
  exact = a.astype(np.float64)
  single = m['dtype'] == 'float32'
  fl = 1e-5 if single else 1e-11

  def call(**kw):
    np.random.seed(m['seed'])  # the start vector comes from np.random
    fn = lambda x: optax.power_iteration(x, **kw)
    v, s = (jax.jit(fn) if case['jit'] else fn)(jnp.asarray(a))
    gens.check(v.shape == (n,) and s.shape == () and str(v.dtype) ==
               m['dtype'] == str(s.dtype),
               f'power_iteration: {v.shape} {v.dtype}, {s.shape} {s.dtype}')
    return gens.f64(v), float(s)
  what = f'power_iteration of {a.tolist()}'
  ctx.label('size:%d' % n, m['dtype'], 'tol:%g' % case['tol'])
  ctx.nontrivial(n > 1 and len(set(m['vals'])) > 1)
  # One more iteration is one more multiplication. (What the tolerance says
  # does not matter here: it is never reached.)
  top = m['vals'][0]
  seq = [call(num_iters=k, error_tolerance=-1.0)
         for k in range(1, case['iters'] + 2)]
  for k, ((v, s), (v2, s2)) in enumerate(zip(seq, seq[1:])):
    gens.close(np.linalg.norm(v), 1, fl, 0, f'{what}: norm of the vector after '
               f'{k + 1} iterations')
    w = exact @ v
    gens.close(v2, w / np.linalg.norm(w), 10 * fl, 10 * fl,
               f'{what}: vector after {k + 2} iterations, from {v.tolist()}')
    gens.close(s2, v @ w, 0, 10 * fl * top,
               f'{what}: value after {k + 2} iterations')
  # The tolerance: stop as soon as the value moves by no more than that.
  tol, last = case['tol'], 0.0
  got = call(num_iters=case['iters'], error_tolerance=tol)
  for k in range(case['iters']):
    change = abs(seq[k][1] - last)
    last = seq[k][1]
    if abs(change - tol) < 1e-3 * tol + 10 * fl * top:
      break  # too close to tell
    if change <= tol or k == case['iters'] - 1:
      gens.close(got[0], seq[k][0], 0, 10 * fl,
                 f'{what}: vector with tolerance {tol} and {case["iters"]} '
                 f'iterations (expected to stop after {k + 1})')
      gens.close(got[1], seq[k][1], 0, 10 * fl * top, f'{what}: value')
      break
  # Convergence.
  np.random.seed(m['seed'])
  v0 = np.random.uniform(-1, 1, n)
  if abs(v0 @ q[:, 0]) < 0.05 * np.linalg.norm(v0):
    return
  ctx.label('converged')
  if case['default']:
    v, s = call()
    tol = 1e-6
  else:
    v, s = call(num_iters=200, error_tolerance=0.0)
    tol = 0.0
  ratio = 1 / 1.3
  # The value moves geometrically, by ratio^2 per iteration.
  gap = tol / (1 - ratio ** 2) + 20 * fl * top
  gens.close(s, top, 0, 3 * gap, f'{what}: eigenvalue ({m["vals"]})')
  # sin^2 of the angle is at most gap / (top - second).
  second = max(m['vals'][1:], default=0.0)
  err = np.sqrt(3 * gap / (top - second)) + 20 * fl
  dot = float(v @ q[:, 0])
  gens.check(1 - abs(dot) <= err ** 2 + 20 * fl and abs(
      np.linalg.norm(v) - 1) < 10 * fl,
             f'{what}: eigenvector {v.tolist()}, expected (up to sign) '
             f'{q[:, 0].tolist()}')


@st.composite
def root_case(draw, ctx):
  ridge = draw(st.one_of(st.none(), gens.logf(1e-6, 1e-1)))
  big = ridge is not None and ridge > 1e-3
  out = {'m': draw(matrix(cond=draw(st.sampled_from([3.0, 30.0, 300.0])),
                          zero=big)),
         'p': draw(st.one_of(st.integers(1, 16), st.integers(1, 8),
                             st.sampled_from([2, 4, 32]))),
         'ridge': ridge, 'jit': draw(st.integers(0, 5)) == 0,
         'iters': draw(st.sampled_from([None, None, None, 1, 2, 5, 10])),
         'tol': draw(st.sampled_from([None, None, None, 1e-2, 1e-4]))}
  return out


def run_root(case, ctx):
  m, p = case['m'], case['p']
  a, _ = build(m)
  n = len(m['vals'])
  kw = {k2: case[k1] for k1, k2 in (('ridge', 'ridge_epsilon'),
                                    ('iters', 'num_iters'),
                                    ('tol', 'error_tolerance'))
        if case[k1] is not None}
  np.random.seed(m['seed'])
  fn = lambda x: optax.matrix_inverse_pth_root(x, p, **kw)
  x, err = (jax.jit(fn) if case['jit'] else fn)(jnp.asarray(a))
  what = f'matrix_inverse_pth_root({a.tolist()}, {p}, {kw})'
  gens.check(x.shape == (n, n), f'{what}: shape {x.shape}')
  gens.check(str(x.dtype) == m['dtype'], f'{what}: dtype {x.dtype}')
  err = float(err)
  x = gens.f64(x)
  ridge = kw.get('ridge_epsilon', 1e-6)
  top = m['vals'][0]
  damp = ridge * top
  b = a.astype(np.float64) + damp * np.eye(n)
  w, q = np.linalg.eigh(b)
  want = (q * w ** (-1.0 / p)) @ q.T
  cond = w.max() / w.min()
  np.random.seed(m['seed'])
  v0 = np.random.uniform(-1, 1, n)
  _, vec = np.linalg.eigh(a.astype(np.float64))
  if abs(v0 @ vec[:, -1]) < 0.05 * np.linalg.norm(v0):
    return
  ctx.label('size:%d' % n, m['dtype'], 'p:%d' % p, 'small:%s' % (err < 1e-4),
            'iters:%s' % case['iters'])
  ctx.nontrivial(n > 1 and len(set(m['vals'])) > 1 and err < 0.1)
  # Float32 arithmetic inside (for float32 matrices), and the ridge relies on
  # an eigenvalue that is good to 1e-6 / 0.4.
  # In the first step an eigenvalue of M can fall to about p / 2^p, where
  # rounding against the eigenvalues of order one costs relative accuracy.
  slack = ((1e-5 + 1e-6 * p + 1e-6 * 2 ** p / p ** 2) * cond
           if m['dtype'] == 'float32' else 1e-9 * cond)
  slack += ridge * 1e-5 * (1 + 1 / top) * cond + 1e-6
  if err < 0.1:
    gens.close(x, want, 0, (2 * n * err + slack) * np.abs(want).max(),
               f'{what} with reported error {err:g}, condition {cond:.3g}')
  # The documented rule "stop when the error grows by 1.2" can stop the exact
  # iteration early for a wide spectrum (never below condition 10).
  single = m['dtype'] == 'float32'
  if case['iters'] is None and cond < 400 and not (single and p > 16) and (
      cond < 10 or growth(b, p) < 1.1):
    ctx.label('must-converge')
    limit = max(1.1 * (case['tol'] or 1e-6), 1e-4)
    gens.check(err <= limit, f'{what}: reported error {err:g}')


def growth(b, p):
  """The largest growth of the error in the exact coupled Newton iteration."""
  n, worst = len(b), 0.0
  eye = np.eye(n)
  mat = b * (1 + p) / (2 * np.linalg.norm(b))
  err = np.abs(mat - eye).max()
  for _ in range(100):
    mat = np.linalg.matrix_power((1 + 1 / p) * eye - mat / p, p) @ mat
    new = np.abs(mat - eye).max()
    worst = max(worst, new / err)
    err = new
    if err < 1e-5:
      break
  return worst


LEGS = [Leg('power', power_case, run_power, 220),
        Leg('root', root_case, run_root, 480)]
