"""C27: regression and similarity losses."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from vf import gens
from vf.core import Leg

ID = 'C27'
RULE = ('A case is a batch shape, predictions and targets (none, broadcast, '
        'equal in places, zero vectors), delta or epsilon; values and both '
        'gradients (against random cotangents) are compared with NumPy '
        'formulas. Non-trivial: errors on both sides of delta or at it / '
        'zero or short vectors among others / a batch of more than one.')
ASSUMPTIONS = ['Squares are representable; epsilon > 0 at zero vectors.']
SHAPES = [(), (1,), (4,), (3, 2), (2, 1, 3), (0,), (1, 1), (2, 3, 2, 2)]
TOL = {'float64': 1e-12, 'float32': 3e-6, 'bfloat16': 3e-2, 'float16': 4e-3}


def bcast(draw, shape):
  """A shape that broadcasts to `shape`."""
  k = draw(st.integers(0, 5))
  if k < 3 or not shape:
    return list(shape)
  if k == 3:
    return list(shape[1:])
  if k == 4:
    return [1 if draw(st.booleans()) else s for s in shape]
  return []


def to(dtype, vals, shape):
  return np.asarray(vals, np.float64).reshape(shape).astype(
      jnp.dtype(dtype)).astype(np.float64)


HOW = ['eager', 'eager', 'eager', 'jit', 'numpy', 'vmap', 'jvp']


def evaluate(fn, args, dtype, ct, how, drop=0, bound=0.0):
  """The value of fn and the gradients of ct * fn w.r.t. all args."""
  raw = [np.asarray(a).astype(jnp.dtype(dtype)) for a in args]
  args = [jnp.asarray(a, dtype) for a in args]
  ct = jnp.asarray(ct, dtype)
  def both(*a):
    out, vjp = jax.vjp(fn, *a)
    gens.check(out.shape == ct.shape and out.dtype == ct.dtype,
               f'shape {out.shape} {out.dtype} of the loss, expected '
               f'{ct.shape} {ct.dtype}')
    return out, vjp(ct)
  if how == 'jit':
    both = jax.jit(both)
  out, grads = both(*args)
  if how != 'jit':
    gens.close(fn(*args), np.asarray(out), 1e-6, 1e-6 if dtype != 'float16'
               else 1e-3, 'value with and without differentiation')
  tol = max(TOL[dtype], 1e-6 if not jax.config.x64_enabled else 0)
  if how == 'numpy':
    got = fn(*raw)
    gens.close(got, gens.f64(out), 4 * tol, _level(out, tol),
               f'value for NumPy arrays {raw}')
  if how == 'vmap' and out.ndim and out.shape[0] and all(
      a.ndim == out.ndim + drop and a.shape[0] == out.shape[0] for a in args):
    gens.close(jax.vmap(fn)(*args), gens.f64(out), 4 * tol, _level(out, tol),
               f'value under vmap of {raw}')
  if how == 'jvp' and dtype in ('float64', 'float32') and out.size:
    rng = np.random.default_rng(5)
    tangents = [jnp.asarray(rng.normal(size=a.shape), dtype) for a in args]
    same, dot = jax.jvp(fn, tuple(args), tuple(tangents))
    gens.close(same, gens.f64(out), 4 * tol, _level(out, tol),
               f'value under jvp of {raw}')
    terms = [gens.f64(g) * gens.f64(t) for g, t in zip(grads, tangents)]
    want = sum(t.sum() for t in terms)
    size = sum(np.abs(t).sum() for t in terms)
    extra = (np.abs(gens.f64(ct)) * np.abs(gens.f64(dot))).sum()
    if np.isfinite(size + extra):
      gens.close((gens.f64(ct) * gens.f64(dot)).sum(), want, 0,
                 30 * tol * (size + extra + bound) + 1e-30,
                 f'forward and reverse derivatives at {raw}')
  return out, grads


def _level(out, tol):
  out = np.abs(gens.f64(out))
  out = out[np.isfinite(out)]
  return 4 * tol * (out.max() if out.size else 0)


def unbroadcast(x, shape):
  """Sums x over the axes along which `shape` was broadcast."""
  x = x.sum(axis=tuple(range(x.ndim - len(shape))))
  axes = tuple(i for i, s in enumerate(shape) if s == 1 and x.shape[i] != 1)
  return x.sum(axis=axes, keepdims=True).reshape(shape)


# --- l2 and huber -------------------------------------------------------------


@st.composite
def point_case(draw, ctx):
  shape = list(draw(st.sampled_from(SHAPES)))
  swap = draw(st.booleans())
  a, b = shape, bcast(draw, shape)
  if swap:
    a, b = b, a
  x64 = draw(st.integers(0, 3)) > 0
  dtype = draw(st.sampled_from((['float64', 'float64'] if x64 else [])
                               + ['float32', 'bfloat16', 'float16']))
  modes = ['unit', 'int', 'sparse', 'zero'] + (
      ['wide'] if dtype in ('float64', 'float32') else [])
  p = draw(gens.values(gens.size(a), modes))
  t = draw(gens.values(gens.size(b), modes))
  if a == b:
    t = [x if draw(st.integers(0, 5)) == 0 else y for x, y in zip(p, t)]
  return {'loss': draw(st.sampled_from(['l2', 'huber', 'huber'])),
          'a': a, 'b': b, 'p': p, 'x64': x64,
          't': t if draw(st.integers(0, 3)) else None, 'dtype': dtype,
          'delta': draw(st.one_of(st.none(), gens.nice(0.01, 4),
                                  st.sampled_from([1.0, 2.0, 0.5, 1]),
                                  gens.logf(1e-3, 1e3))),
          'ct': draw(gens.values(gens.size(shape), ['unit', 'pos'])),
          'tint': draw(st.integers(0, 5)) == 0,
          'how': draw(st.sampled_from(HOW))}


def run_point(case, ctx):
  d, huber = case['dtype'], case['loss'] == 'huber'
  p = to(d, case['p'], case['a'])
  t = None if case['t'] is None else to(d, case['t'], case['b'])
  kw = {}
  if huber and case['delta'] is not None:
    kw['delta'] = case['delta']
  delta = kw.get('delta', 1.0)
  loss = optax.huber_loss if huber else optax.l2_loss
  fn = lambda *a: loss(*a, **kw)
  how = case['how']
  args = [p] if t is None else [p, t]
  if case.get('tint') and t is not None and (
      t == np.round(t)).all() and np.abs(t).max(initial=0) < 100:
    # Integer targets are fine, too.
    ints = jnp.asarray(t, jnp.int32)
    fn = lambda v: loss(v, ints, **kw)
    args = [p]
    how = 'eager' if how == 'vmap' else how
    ctx.label('targets:int')
  # Errors are rounded to the dtype.
  err = p if t is None else p - t
  ct = np.resize(np.asarray(case['ct'] or [1.0]), err.shape)
  ct = to(d, ct, err.shape)
  out, grads = evaluate(fn, args, d, ct, how)
  mag = np.abs(err)
  if huber:
    want = np.where(mag <= delta, 0.5 * err ** 2,
                    0.5 * delta ** 2 + delta * (mag - delta))
    slope = np.clip(err, -delta, delta)
  else:
    want, slope = 0.5 * err ** 2, err
  size = np.abs(p) + (0 if t is None else np.abs(t))
  size = np.broadcast_to(size, err.shape)
  tol = TOL[d]
  what = f'{case["loss"]} (delta {delta}, {d}) of {p.tolist()}, ' + (
      'no targets' if t is None else str(t.tolist()))
  ctx.label(case['loss'], d, 'targets:%s' % (t is not None), case['how'])
  ctx.nontrivial(err.size and (err != 0).any() and (
      not huber or (mag >= delta).any()))
  # The error of the error is tol*size; that of the loss slope times that.
  at = tol * size * (np.abs(slope) + tol * size)
  at = at + tol * delta * (delta + size) * (huber) + (
      1e-4 if d == 'float16' else 0)
  gens.close(out, want, tol, at, what)
  for x, shape, sign, name in zip(grads, [case['a'], case['b']], [1, -1],
                                  ['predictions', 'targets']):
    terms = np.abs(ct) * (np.abs(slope) + size + (delta if huber else 0))
    gens.close(x, unbroadcast(sign * slope * ct, shape), tol,
               8 * tol * unbroadcast(terms, shape) + (
                   1e-3 if d == 'float16' else 0),
               f'gradient w.r.t. the {name} of {what}')


# --- cosine -------------------------------------------------------------------


@st.composite
def cosine_case(draw, ctx):
  k = draw(st.sampled_from([1, 2, 3, 5]))
  batch = draw(st.sampled_from([(), (1,), (3,), (2, 2), (4, 1)]))
  shape = list(batch) + [k]
  b = shape
  a = shape
  pick = draw(st.integers(0, 4))
  if pick == 3:
    a = shape[draw(st.integers(0, len(shape) - 1)):]
  elif pick == 4:
    a = [1 if draw(st.booleans()) else s for s in batch] + [k]
  dtype = draw(st.sampled_from(['float64', 'float64', 'float32']))
  eps = draw(st.one_of(st.none(), st.just(0.0), gens.nice(0.01, 3),
                       gens.logf(1e-8, 1e-1)))
  modes = ['unit', 'int', 'wide', 'sparse', 'away']
  out = {'a': a, 'b': b, 'p': draw(gens.values(gens.size(a), modes)),
         't': draw(gens.values(gens.size(b), modes)), 'dtype': dtype,
         'eps': eps, 'dist': draw(st.booleans()),
         'ct': draw(gens.values(gens.size(batch), ['unit', 'pos'])),
         'scale': draw(st.sampled_from([1.0, 1.0, 1e-3, 1e4]
                                       + ([1e50, 1e-50]
                                          if dtype == 'float64' else []))),
         'positional': draw(st.booleans()),
         'how': draw(st.sampled_from(HOW))}
  if draw(st.integers(0, 3)) == 0 and a == b:
    out['t'] = [x * draw(st.sampled_from([1.0, -2.0])) for x in out['p']]
  for name, n in (('p', gens.size(a) // k), ('t', gens.size(b) // k)):
    for i in range(n):  # Zero vectors.
      if draw(st.integers(0, 7)) == 0:
        out[name][i * k:(i + 1) * k] = [0.0] * k
  return out


def run_cosine(case, ctx):
  d, eps = case['dtype'], case['eps'] or 0.0
  k = case['b'][-1]
  p = to(d, np.asarray(case['p']) * case['scale'], case['a'])
  t = to(d, case['t'], case['b'])
  if eps == 0:  # Zero vectors have no direction.
    p = np.where((p == 0).all(-1, keepdims=True), 1.0, p)
    t = np.where((t == 0).all(-1, keepdims=True), 1.0, t)
  kw, pos = {}, []
  if case['eps'] is not None:
    if case['positional']:
      pos = [case['eps']]
    else:
      kw = {'epsilon': case['eps']}
  loss = optax.cosine_distance if case['dist'] else optax.cosine_similarity
  fn = lambda x, y: loss(x, y, *pos, **kw)
  norm = lambda x: np.sqrt((x ** 2).sum(-1, keepdims=True))
  np_, nt = norm(p), norm(t)
  if (np.abs(np_ - eps) < 1e-6 * eps).any() or (
      np.abs(nt - eps) < 1e-6 * eps).any():
    return
  lp, lt = np.maximum(np_, eps), np.maximum(nt, eps)
  cos = (p / lp * (t / lt)).sum(-1)
  sign = -1.0 if case['dist'] else 1.0
  ct = np.asarray(case['ct']).reshape(cos.shape)
  out, grads = evaluate(fn, [p, t], d, ct, case['how'], 1, 3 * k * sum(
      float((np.abs(ct)[..., None] / x).sum()) for x in (lp, lt)))
  tol = 10 * TOL[d]
  what = (f'cosine {"distance" if case["dist"] else "similarity"} (epsilon '
          f'{case["eps"]}, {d}) of {p.tolist()} and {t.tolist()}')
  ctx.label('dist:%s' % case['dist'], d, case['how'], 'eps:%s' % (eps > 0),
            'zero:%s' % bool((np_ == 0).any() or (nt == 0).any()),
            'short:%s' % bool((np_ < eps).any() or (nt < eps).any()))
  ctx.nontrivial(cos.size > 1 or (np_ <= eps).any() or (nt <= eps).any())
  gens.close(out, (1 - cos) if case['dist'] else cos, tol, tol, what)
  c = sign * to(d, ct, ct.shape)[..., None]
  up, ut = p / lp, t / lt
  gp = c * (ut - np.where(np_ > eps, (up * ut).sum(-1, keepdims=True) * up,
                          0)) / lp
  gt = c * (up - np.where(nt > eps, (up * ut).sum(-1, keepdims=True) * ut,
                          0)) / lt
  for x, want, shape, size, name in (
      (grads[0], gp, case['a'], np.abs(c) / lp, 'predictions'),
      (grads[1], gt, case['b'], np.abs(c) / lt, 'targets')):
    size = np.broadcast_to(size, want.shape)
    gens.close(x, unbroadcast(want, shape), tol,
               4 * tol * unbroadcast(size, shape),
               f'gradient w.r.t. the {name} of {what}')


@st.composite
def large_case(draw, ctx):
  shape = draw(st.sampled_from([[30], [150], [3000], [4, 33], [2, 600],
                                [70, 2], [600, 3]]))
  cosine = draw(st.booleans())
  other = draw(st.sampled_from([shape, shape, [1] * (len(shape) - 1)
                                + shape[-1:]]))
  return {'loss': 'cosine' if cosine else draw(st.sampled_from(
      ['l2', 'huber'])), 'a': other if cosine else shape,
          'b': shape if cosine else other,
          'dtype': draw(st.sampled_from(['float64', 'float32'])),
          'rng': draw(st.integers(0, 10 ** 6)), 'dist': draw(st.booleans()),
          'scale': draw(gens.logf(1e-2, 1e2)), 'delta': draw(gens.nice(0.1, 3)),
          'eps': draw(st.sampled_from([None, 1e-3, 1.0, 30.0])),
          'positional': draw(st.booleans()), 'how': draw(st.sampled_from(HOW))}


def run_large(case, ctx):
  rng = np.random.default_rng(case['rng'])
  some = lambda shape: np.round(rng.normal(size=gens.size(shape)), 5).tolist()
  full = dict(case, p=some(case['a']), t=some(case['b']))
  if case['loss'] == 'cosine':
    run_cosine(dict(full, ct=some(case['b'][:-1])), ctx)
  else:
    full['p'] = [v * case['scale'] for v in full['p']]
    run_point(dict(full, ct=some(case['a'])), ctx)
  ctx.label('large')


LEGS = [Leg('pointwise', point_case, run_point, 900, x64=None),
        Leg('cosine', cosine_case, run_cosine, 700),
        Leg('large', large_case, run_large, 100)]
