"""C28: classification losses."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from checks import c27
from vf import gens
from vf.core import Leg

ID = 'C28'
RULE = ('A case is logits of magnitude 0 to 1e30 (1e300 in float64), hard, '
        'soft or unnormalised labels, of every batch shape; value and '
        'gradients are compared with formulas that are exact for all '
        'magnitudes. Non-trivial: some logit beyond the range of exp, or '
        'soft labels; for smooth_labels 0 < alpha.')
ASSUMPTIONS = ['Logits are finite.']
TOL = {'float64': 2e-14, 'float32': 4e-6, 'bfloat16': 3e-2, 'float16': 5e-3}


@st.composite
def logits_of(draw, n, dtype, k=None):
  """n logits (in rows of k)."""
  mode = draw(st.sampled_from(['unit', 'int', 'spread', 'huge', 'mixed',
                               'equal', 'offset']))
  x = np.array(draw(gens.values(n, ['unit', 'int', 'sparse'])))
  top = 1e300 if dtype == 'float64' else 1e30
  if dtype in ('bfloat16', 'float16'):
    top = 1e4
  if mode == 'spread':
    x = x * draw(gens.logf(1, 1e3 if dtype != 'float16' else 300))
  elif mode == 'huge':
    x = x * draw(gens.logf(1e2, top / 10))
  elif mode == 'mixed':
    scale = [draw(st.sampled_from([0.0, 1e-6, 1.0, 50.0, 800.0, top / 10]))
             for _ in range(n)]
    x = x * np.array(scale)
  elif mode == 'equal':
    x = np.full(n, x[0] if n else 0.0)
  elif mode == 'offset':
    x = x + draw(st.sampled_from([1e3, -1e3, 900.0, 90.0, -90.0]))
  return [float('%.6g' % v) for v in x]


@st.composite
def labels_of(draw, n, k):
  kind = draw(st.sampled_from(['hard', 'soft', 'onehot', 'any']))
  u = np.abs(np.array(draw(gens.values(n, ['unit', 'int', 'sparse']))))
  if kind == 'hard':
    u = (u > 1).astype(float)
  elif kind == 'soft' and n:
    u = u.reshape(-1, k) + 1e-3
    u = (u / u.sum(-1, keepdims=True)).ravel()
  elif kind == 'onehot' and n:
    u = u.reshape(-1, k)
    u = np.eye(k)[u.argmax(-1)].ravel()
  else:
    u = u / 4
  return kind, [float('%.6g' % v) for v in u]


@st.composite
def case(draw, ctx):
  k = draw(st.sampled_from([1, 2, 3, 7]))
  batch = draw(st.sampled_from([(), (1,), (3,), (2, 2), (4, 1), (0,)]))
  shape = list(batch) + [k]
  a = list(shape)
  pick = draw(st.integers(0, 5))
  if pick == 4:
    a = shape[draw(st.integers(0, len(shape) - 1)):]
  elif pick == 5:
    a = [1 if draw(st.booleans()) else s for s in batch] + [k]
  dtype = draw(st.sampled_from(['float64', 'float64', 'float32', 'float32',
                                'bfloat16', 'float16']))
  kind, y = draw(labels_of(gens.size(shape), k))
  return {'a': a, 'b': shape, 'dtype': dtype, 'kind': kind, 'y': y,
          'x': draw(logits_of(gens.size(a), dtype, k)),
          'shift': draw(st.sampled_from([0.0, 8.0, -1024.0, 2.0 ** 20])),
          'ct': draw(gens.values(gens.size(shape), ['unit', 'pos'])),
          'how': draw(st.sampled_from(c27.HOW))}


def softplus(x):
  return np.maximum(x, 0) + np.log1p(np.exp(-np.abs(x)))


def sigmoid(x):
  e = np.exp(-np.abs(x))
  return np.where(x >= 0, 1 / (1 + e), e / (1 + e))


def setup(case, ctx):
  d = case['dtype']
  x = c27.to(d, case['x'], case['a'])
  y = c27.to(d, case['y'], case['b'])
  ctx.label('dtype:' + d, 'labels:' + case['kind'], case['how'])
  ctx.nontrivial(x.size and y.size and (
      np.abs(x).max() > 100 or case['kind'] in ('soft', 'any')))
  return d, x, y


def run_sigmoid(case, ctx):
  d, x, y = setup(case, ctx)
  ct = c27.to(d, case['ct'], y.shape)
  out, grads = c27.evaluate(optax.sigmoid_binary_cross_entropy, [x, y], d, ct,
                            case['how'], 0, 3 * float((np.abs(ct) * (
                                1 + y + np.abs(x))).sum()))
  tol = TOL[d]
  what = f'sigmoid cross entropy ({d}) of {x.tolist()}, labels {y.tolist()}'
  with np.errstate(all='ignore'):
    # Losses below the range of the dtype may be flushed to zero.
    tiny = max(float(jnp.finfo(d).tiny), 1e-300)
    a, b = y * softplus(-x), (1 - y) * softplus(x)
    gens.check(np.isfinite(gens.f64(out)).all(), f'{what}: {out}')
    gens.close(out, a + b, 0, tol * (np.abs(a) + np.abs(b)) + 4 * tiny, what)
    want = ct * (sigmoid(x) - y)
    size = np.abs(ct) * (sigmoid(x) + np.abs(y) + (np.abs(1 - y)))
    gens.close(grads[0], c27.unbroadcast(want, case['a']), 0,
               2 * tol * c27.unbroadcast(size, case['a']) + 4 * tiny,
               f'gradient w.r.t. the logits of {what}')
    gens.close(grads[1], -ct * x, 0, 2 * tol * np.abs(ct) * (
        softplus(x) + softplus(-x)) + 4 * tiny,
               f'gradient w.r.t. the labels of {what}')


def run_softmax(case, ctx):
  d, x, y = setup(case, ctx)
  ct = c27.to(d, np.resize(np.asarray(case['ct'] or [1.0]), y.shape[:-1]),
              y.shape[:-1])
  out, grads = c27.evaluate(optax.softmax_cross_entropy, [x, y], d, ct,
                            case['how'], 1, 3 * float((np.abs(ct)[
                                ..., None] * (1 + y) * (1 + np.abs(
                                    x - x.max(-1, keepdims=True)))).sum()))
  tol = TOL[d] * 4
  what = f'softmax cross entropy ({d}) of {x.tolist()}, labels {y.tolist()}'
  gens.check(np.isfinite(gens.f64(out)).all(), f'{what}: {out}')
  shifted = x - x.max(-1, keepdims=True)
  e = np.exp(shifted)
  logp = shifted - np.log(e.sum(-1, keepdims=True))
  prob = e / e.sum(-1, keepdims=True)
  mag = 1 + np.abs(shifted)
  at = 1e-3 if d == 'float16' else 1e-30
  gens.close(out, -(y * logp).sum(-1), 0, tol * (y * mag).sum(-1) + at, what)
  total = y.sum(-1, keepdims=True)
  c = ct[..., None]
  gens.close(grads[0], c27.unbroadcast(c * (prob * total - y), case['a']), 0,
             2 * tol * c27.unbroadcast(np.abs(c) * (prob * total + y + 1e-3 * (
                 total + 1)), case['a']) + at,
             f'gradient w.r.t. the logits of {what}')
  gens.close(grads[1], -c * logp, 0, 2 * tol * np.abs(c) * mag + at,
             f'gradient w.r.t. the labels of {what}')
  # Shifting all the logits of one example changes nothing.
  moved = c27.to(d, x + case['shift'], x.shape)
  exact = c27.to(d, moved - case['shift'], x.shape)
  if np.array_equal(exact, x) and np.array_equal(moved, x + case['shift']):
    ctx.label('shifted')
    got = optax.softmax_cross_entropy(jnp.asarray(moved, d), jnp.asarray(y, d))
    gens.close(got, gens.f64(out), 0, 2 * tol * (y * mag).sum(-1) + at,
               f'{what} after shifting the logits by {case["shift"]}')


@st.composite
def smooth_case(draw, ctx):
  k = draw(st.sampled_from([1, 2, 3, 7, 10]))
  batch = draw(st.sampled_from([(), (1,), (3,), (2, 2), (4, 1), (2, 5, 3)]))
  n = gens.size(batch) * k
  kind, y = draw(labels_of(n, k))
  return {'shape': list(batch) + [k], 'y': y, 'kind': kind,
          'alpha': draw(st.one_of(gens.nice(0, 1), st.sampled_from(
              [0.0, 1.0, 0.1, 1, 0]))),
          'dtype': draw(st.sampled_from(['float64', 'float32', 'bfloat16'])),
          'how': draw(st.sampled_from(['eager', 'eager', 'jit', 'numpy',
                                       'grad', 'vmap'])),
          'array': draw(st.booleans())}


def run_smooth(case, ctx):
  d, alpha = case['dtype'], case['alpha']
  y = c27.to(d, case['y'], case['shape'])
  fn = lambda v: optax.smooth_labels(v, alpha)
  arr = jnp.asarray(y, d)
  got = (jax.jit(fn) if case['how'] == 'jit' else fn)(
      np.asarray(arr) if case['how'] == 'numpy' else arr)
  k = case['shape'][-1]
  ctx.label('labels:' + case['kind'], 'dtype:' + d)
  ctx.nontrivial(0 < alpha)
  what = f'smooth_labels({y.tolist()}, {alpha}) ({d})'
  gens.check(str(got.dtype) == d or case['how'] == 'numpy', f'{what}: dtype {got.dtype}')
  gens.close(got, (1 - alpha) * y + alpha / k, 2 * TOL[d], 2 * TOL[d] * (
      np.abs(y).max() + 1), what)
  if case['how'] == 'grad':
    _, vjp = jax.vjp(fn, arr)
    gens.close(vjp(jnp.ones_like(arr))[0], np.full(y.shape, 1 - alpha),
               2 * TOL[d], 2 * TOL[d], f'gradient of {what}')
  if case['how'] == 'vmap' and y.ndim > 1:
    gens.close(jax.vmap(fn)(arr), gens.f64(got), 2 * TOL[d], 2 * TOL[d], what)
  if case['kind'] in ('soft', 'onehot'):
    gens.close(gens.f64(got).sum(-1), np.ones(case['shape'][:-1]), 0,
               4 * k * max(TOL[d], 1e-5), f'sum of {what}')


@st.composite
def large_case(draw, ctx):
  shape = draw(st.sampled_from([[30], [1000], [3000], [4, 33], [2, 600],
                                [70, 2], [300, 5]]))
  loss = draw(st.sampled_from(['sigmoid', 'softmax', 'softmax', 'smooth']))
  return {'loss': loss, 'rng': draw(st.integers(0, 10 ** 6)),
          'a': draw(st.sampled_from([shape, shape, [1] * (len(shape) - 1)
                                     + shape[-1:]])), 'b': shape,
          'dtype': draw(st.sampled_from(['float64', 'float32'])),
          'kind': draw(st.sampled_from(['onehot', 'soft', 'any'])),
          'scale': draw(st.sampled_from([0.0, 1.0, 30.0, 1000.0])),
          'alpha': draw(st.sampled_from([0.0, 0.1, 0.25, 1.0])),
          'shift': draw(st.sampled_from([8.0, -1024.0])),
          'how': draw(st.sampled_from(c27.HOW))}


def run_large(case, ctx):
  rng = np.random.default_rng(case['rng'])
  k = case['b'][-1]
  y = rng.random(case['b'])
  if case['kind'] == 'soft':
    y = y / y.sum(-1, keepdims=True)
  elif case['kind'] == 'onehot':
    y = np.eye(k)[y.argmax(-1)]
  x = np.round(rng.normal(size=case['a']) * case['scale'], 3)
  full = dict(case, y=y.ravel().tolist(), x=x.ravel().tolist(),
              shape=case['b'], ct=rng.random(gens.size(case['b'])).tolist())
  {'sigmoid': run_sigmoid, 'softmax': run_softmax, 'smooth': run_smooth}[
      case['loss']](full, ctx)
  ctx.label('large:' + case['loss'])


LEGS = [Leg('sigmoid', case, run_sigmoid, 600),
        Leg('softmax', case, run_softmax, 600),
        Leg('smooth', smooth_case, run_smooth, 500),
        Leg('large', large_case, run_large, 100)]
