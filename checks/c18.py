"""C18: zero_nans and keep_params_nonnegative."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from vf import core
from vf import gens
from vf.core import Leg

ID = 'C18'
RULE = ('A case is a tree of 1-4 leaves and 1-5 updates with NaN and '
        'infinities anywhere (zero_nans), or parameters and updates whose sums '
        'are negative, zero or positive. Non-trivial: a NaN in some but not '
        'all leaves, or a sum that is negative.')


@st.composite
def nan_case(draw, ctx):
  tree = draw(gens.tree_spec(ctx, 4, npool=6))
  steps = draw(st.integers(1, 5))
  grads = []
  for _ in range(steps):
    grads.append([draw(gens.values(gens.size(s), None, draw(
        st.sampled_from([0, 0, 5, 60])))) for s in tree['shapes']])
  return {'tree': tree, 'grads': grads, 'x64': draw(st.booleans()),
          'dtypes': [draw(st.sampled_from(['float32', 'float32', 'float16',
                                           'bfloat16']))
                     for _ in tree['shapes']],
          'jit': draw(st.integers(0, 9)) == 0}


def run_nan(case, ctx):
  tree, dts = case['tree'], case['dtypes']
  n = len(tree['shapes'])
  tx = optax.zero_nans()
  jt = lambda v: gens.jax_tree(tree, v, dts)
  s = tx.init(jt(case['grads'][0]))
  update = jax.jit(tx.update) if case['jit'] else tx.update

  def found(s, when):
    flags = gens.unbuild(s.found_nan, tree['layout'], n, 'found_nan')
    for f in flags:
      gens.check(np.shape(f) == () and np.asarray(f).dtype == bool,
                 f'zero_nans: found_nan {f!r} {when}')
    return [bool(f) for f in flags]
  gens.check(not any(found(s, 'initially')), 'zero_nans: NaN found by init')
  for t, v in enumerate(case['grads']):
    g = jt(v)
    u, s = update(g, s)
    flags = found(s, f'after update {t}')
    ys = [gens.f64(y) for y in gens.unbuild(g, tree['layout'], n)]
    want = [bool(np.isnan(y).any()) for y in ys]
    ctx.nontrivial(any(want) and not all(want) or sum(want) and n == 1)
    ctx.label('nan leaves:%d/%d' % (sum(want), n))
    gens.check(flags == want, f'zero_nans: found_nan {flags} after update {t} '
               f'of {[y.tolist() for y in ys]}')
    for i, (x, y) in enumerate(zip(gens.unbuild(u, tree['layout'], n), ys)):
      gens.check(str(x.dtype) == dts[i], f'zero_nans: dtype {x.dtype}')
      gens.close(x, np.where(np.isnan(y), 0.0, y), 0, 0,
                 f'zero_nans: update {t} of leaf {i}')


@st.composite
def nonneg_case(draw, ctx):
  tree = draw(gens.tree_spec(ctx, 3, npool=6))
  steps = draw(st.integers(1, 4))
  params = draw(gens.leaf_values(tree, ['unit', 'pos', 'int', 'zero', 'wide']))
  if draw(st.integers(0, 3)):
    params = [[abs(v) for v in leaf] for leaf in params]
  ups = []
  for _ in range(steps):
    u = draw(gens.leaf_values(tree))
    # Some updates are exactly minus the parameter, or just beyond.
    f = draw(st.sampled_from([None, 1.0, 1.0000001, 0.9999999, 2.0]))
    if f is not None:
      u = [[-f * p if draw(st.booleans()) else x for x, p in zip(a, b)]
           for a, b in zip(u, params)]
    ups.append(u)
  return {'tree': tree, 'params': params, 'updates': ups,
          'dtype': draw(st.sampled_from(['float64', 'float32', 'bfloat16']))}


def run_nonneg(case, ctx):
  tree, d = case['tree'], case['dtype']
  n = len(tree['shapes'])
  ctx.label('dtype:' + d)
  tx = optax.keep_params_nonnegative()
  p = gens.jax_tree(tree, case['params'], [d] * n)
  s = tx.init(p)
  for t, v in enumerate(case['updates']):
    g = gens.jax_tree(tree, v, [d] * n)
    u, s = tx.update(g, s, p)
    new = optax.apply_updates(p, u)
    for i in range(n):
      q, y, x, r = (gens.unbuild(z, tree['layout'], n)[i]
                    for z in (p, g, u, new))
      total = gens.f64(q + y)  # in the arithmetic of the dtype
      q, y = gens.f64(q), gens.f64(y)
      ctx.nontrivial((total < 0).any())
      ctx.label('negative' if (total < 0).any() else 'kept')
      what = (f'keep_params_nonnegative, parameters {q.tolist()}, update '
              f'{y.tolist()} ({d})')
      gens.close(x, np.where(total < 0, -q, y), 0, 0, what)
      gens.check((gens.f64(r) >= 0).all(), f'{what}: applied parameters '
                 f'{gens.f64(r).tolist()}')
    p = new


LEGS = [Leg('zero_nans', nan_case, run_nan, 1600, x64=None),
        Leg('nonnegative', nonneg_case, run_nonneg, 1200)]
