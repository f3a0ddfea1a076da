"""C17: adaptive gradient clipping."""
from hypothesis import strategies as st
import jax.numpy as jnp
import numpy as np
import optax

from vf import core
from vf import gens
from vf.core import Leg

ID = 'C17'
RULE = ('A case is a tree of 1-3 tensors of rank 0-4 (any axis may have '
        'length 1; higher ranks with one long axis), with the norm of every '
        'unit drawn below, near or above the limit, or zero; checked per unit. '
        'Non-trivial: a unit above and a unit below, or a tensor of rank >= 2.')
EPS = {'float64': 1e-9, 'float32': 1e-4}


@st.composite
def shape(draw):
  rank = draw(st.sampled_from([0, 1, 2, 2, 3, 3, 4, 4, 4, 5, 6]))
  s = [draw(st.sampled_from([1, 1, 2, 3])) for _ in range(rank)]
  if rank == 4 and draw(st.booleans()):
    s = draw(st.sampled_from([[1, 1, 2, 3], [2, 2, 1, 2], [1, 2, 1, 1],
                              [1, 1, 1, 3], [2, 1, 1, 2]]))
  if rank > 4:
    s = [1] * rank
    s[draw(st.integers(0, rank - 1))] = draw(st.sampled_from([1, 2, 3]))
  if rank == 1:
    s = [draw(st.integers(1, 5))]
  return s


def unit_axes(s):
  """The axes that are reduced, for tensors of shape s."""
  if sum(d != 1 for d in s) <= 1:
    return tuple(range(len(s)))
  return {2: (0,), 3: (0,), 4: (0, 1, 2)}[len(s)]


def norms(x):
  return np.sqrt(np.sum(x * x, axis=unit_axes(x.shape), keepdims=True))


@st.composite
def case(draw, ctx):
  n = draw(st.integers(1, 3))
  shapes = [draw(shape()) for _ in range(n)]
  tree = {'layout': draw(st.sampled_from(gens.LAYOUTS)), 'shapes': shapes}
  clipping = draw(st.one_of(gens.nice(0.01, 2.0), gens.logf(1e-3, 10)))
  eps = draw(st.sampled_from([1e-3, 1e-3, 1e-2, 0.5, 2.0, 1e-6, 0.0]))
  params = draw(gens.leaf_values(tree, ['unit', 'wide', 'sparse', 'zero',
                                        'pos']))
  grads = []
  for s, p in zip(shapes, params):
    g = np.reshape(draw(gens.values(gens.size(s), [
        'unit', 'int', 'sparse', 'pos'])), s)
    if draw(st.integers(0, 3)):
      # Scale every unit relative to its limit.
      limit = clipping * np.maximum(norms(np.reshape(p, s)), eps)
      f = draw(st.sampled_from([1, 1, 1, 0]))
      ratio = np.reshape([draw(st.sampled_from(
          [0.0, 0.3, 0.9, 0.999, 1.001, 1.1, 3.0, 50.0]))
                          for _ in range(limit.size)], limit.shape)
      gn = norms(g)
      g = np.where(gn > 0, g / np.where(gn > 0, gn, 1), 0) * limit * ratio
    grads.append([float('%.9g' % v) for v in np.ravel(g)])
  return {'tree': tree, 'clipping': clipping, 'eps': eps, 'params': params,
          'grads': grads, 'default_eps': draw(st.booleans()),
          'dtype': draw(st.sampled_from(['float64', 'float64', 'float32']))}


def run(case, ctx):
  tree, d = case['tree'], case['dtype']
  n = len(tree['shapes'])
  c, eps = case['clipping'], case['eps']
  if case['default_eps']:
    eps = 1e-3
    tx = optax.adaptive_grad_clip(c)
  else:
    tx = optax.adaptive_grad_clip(c, eps)
  g = gens.jax_tree(tree, case['grads'], [d] * n)
  p = gens.jax_tree(tree, case['params'], [d] * n)
  out, _ = tx.update(g, tx.init(p), p)
  tol = EPS[d]
  nontrivial = False
  for i, (x, y, q) in enumerate(zip(gens.unbuild(out, tree['layout'], n),
                                    gens.unbuild(g, tree['layout'], n),
                                    gens.unbuild(p, tree['layout'], n))):
    x, y, q = gens.f64(x), gens.f64(y), gens.f64(q)
    gn, limit = norms(y), c * np.maximum(norms(q), eps)
    ctx.label('rank:%d' % y.ndim, 'squeezed:%d' % sum(
        k != 1 for k in y.shape))
    what = (f'adaptive_grad_clip({c}, {eps}) of {y.tolist()} with parameters '
            f'{q.tolist()}: leaf {i}')
    gens.check(x.shape == y.shape, f'{what}: shape {x.shape}')
    new = norms(x)
    gens.check((new <= limit * (1 + 10 * tol) + 1e-30).all(),
               f'{what}: unit norms {new.tolist()} above the limits '
               f'{limit.tolist()}')
    full = lambda z: np.broadcast_to(z, y.shape)
    below = full(gn < limit * (1 - tol))
    gens.close(np.where(below, x, 0), np.where(below, y, 0), 0, 0,
               f'{what}: a unit below its limit changed: {x.tolist()}')
    above = full((gn > limit * (1 + tol)) & (gn > 2e-6))
    with np.errstate(all='ignore'):
      want = y * full(limit / gn)
    gens.close(np.where(above, x, 0), np.where(above, want, 0), 10 * tol,
               1e-30, f'{what}: a unit above its limit is not rescaled to it')
    # In any case a unit is only rescaled.
    with np.errstate(all='ignore'):
      scale = np.where(gn > 0, new / gn, 0)
    gens.close(x, y * full(scale), 1e-3 if d == 'float32' else 1e-7, 1e-30,
               f'{what}: the direction of a unit changed: {x.tolist()}')
    nontrivial |= y.ndim >= 2 or bool((gn > limit).any())
  ctx.nontrivial(nontrivial)


@st.composite
def reject_case(draw, ctx):
  rank = draw(st.integers(5, 7))
  s = [draw(st.sampled_from([1, 2])) for _ in range(rank)]
  a, b = draw(st.permutations(range(rank)))[:2]
  s[a] = s[b] = 2
  return {'shape': s}


def run_reject(case, ctx):
  ctx.nontrivial()
  ctx.label('rejected rank:%d' % len(case['shape']))
  x = jnp.ones(case['shape'])
  tx = optax.adaptive_grad_clip(0.1)
  try:
    tx.update(x, tx.init(x), x)
  except ValueError:
    return
  raise core.Violation(f'adaptive_grad_clip accepted shape {case["shape"]}')


LEGS = [Leg('units', case, run, 1600),
        Leg('reject', reject_case, run_reject, 80)]
