"""C16: clip and clip_by_global_norm."""
import math

from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from vf import core
from vf import gens
from vf.core import Leg

ID = 'C16'
RULE = ('A case is a tree of 1-4 leaves and a bound that is drawn below, at '
        'or above the size of the updates; checked are the bound, the bits of '
        'what lies within, the common factor and the norm. Non-trivial: '
        'something is clipped, or exactly at the bound.')
ASSUMPTIONS = ['Gradients are finite and their squares representable (clip '
               'also takes infinities and NaN).']
DTYPES = ['float64', 'float64', 'float32', 'bfloat16', 'float16']
EPS = {'float64': 1e-12, 'float32': 1e-5, 'float16': 8e-3, 'bfloat16': 5e-2}


@st.composite
def clip_case(draw, ctx):
  tree = draw(gens.tree_spec(ctx, 4, npool=6))
  d = draw(st.one_of(gens.nice(0, 4), st.sampled_from([0.0, 1, 2, 0.5]),
                     gens.logf(1e-4, 1e3)))
  vals = draw(gens.leaf_values(tree, None, draw(st.sampled_from([0, 0, 30]))))
  # Some elements exactly at the bound.
  vals = [[math.copysign(d, v) if draw(st.integers(0, 7)) == 0 else v
           for v in leaf] for leaf in vals]
  return {'tree': tree, 'd': d, 'vals': vals,
          'dtypes': [draw(st.sampled_from(DTYPES)) for _ in vals],
          'array': draw(st.integers(0, 3)) == 0}


def run_clip(case, ctx):
  tree, d = case['tree'], case['d']
  n = len(tree['shapes'])
  tx = optax.clip(jnp.asarray(d) if case['array'] else d)
  u = gens.jax_tree(tree, case['vals'], case['dtypes'])
  s = tx.init(u)
  out, s = tx.update(u, s)
  clipped = False
  for i, (x, y) in enumerate(zip(gens.unbuild(out, tree['layout'], n),
                                 gens.unbuild(u, tree['layout'], n))):
    lim = float(gens.f64(jnp.asarray(d, y.dtype)))
    y = gens.f64(y)
    want = np.where(np.isnan(y), y, np.minimum(np.maximum(y, -lim), lim))
    clipped |= bool((np.abs(y) >= lim).any())
    ctx.label('dtype:' + case['dtypes'][i])
    gens.close(x, want, 0, 0, f'clip({d}) of {y.tolist()} '
               f'({case["dtypes"][i]})')
    gens.check(str(x.dtype) == case['dtypes'][i], f'clip: dtype {x.dtype}')
  ctx.nontrivial(clipped)


@st.composite
def norm_case(draw, ctx):
  tree = draw(gens.tree_spec(ctx, 4, npool=6))
  kind = draw(st.sampled_from(['free', 'near', 'near', 'pythagoras', 'zero']))
  n = len(tree['shapes'])
  if kind == 'pythagoras':
    tree['shapes'] = [[2], []][:max(n, 1)] if n <= 2 else [[2], [], [1]]
    k = draw(st.sampled_from([0.5, 1.0, 2.0]))
    vals = [[2 * k, -k], [2 * k], [4 * k]][:len(tree['shapes'])]
    top = math.sqrt(sum(v * v for leaf in vals for v in leaf))
    c = top * draw(st.sampled_from([1.0, 1.0, 0.5, 2.0]))
  else:
    vals = draw(gens.leaf_values(tree, 'zero' if kind == 'zero' else None))
    if draw(st.integers(0, 3)) == 0:
      f = draw(st.sampled_from([1e-6, 1e-3, 1e3, 1e6, 1e-30, 1e30]))
      vals = [[v * f for v in leaf] for leaf in vals]
    c = draw(gens.logf(1e-3, 1e3))
    top = math.sqrt(sum(v * v for leaf in vals for v in leaf))
    if kind == 'near' and top > 0:
      c = top * draw(st.sampled_from([0.1, 0.5, 0.99, 0.999999, 1.000001,
                                      1.01, 2.0, 10.0]))
  n = len(tree['shapes'])
  return {'tree': tree, 'c': c, 'vals': vals,
          'dtype': draw(st.sampled_from(['float64'] * 4 + [
              'float32', 'bfloat16', 'float16'])),
          'array': draw(st.integers(0, 3)) == 0,
          'jit': draw(st.integers(0, 9)) == 0}


def run_norm(case, ctx):
  tree, c, d = case['tree'], case['c'], case['dtype']
  n = len(tree['shapes'])
  flat = [v for leaf in case['vals'] for v in leaf]
  big = max([abs(v) for v in flat if v] or [0])
  small = min([abs(v) for v in flat if v] or [1])
  if d != 'float64' and (big > 100 or small < 1e-2 or not 1e-2 < c < 1e3):
    d = 'float64'
  ctx.label('dtype:' + d)
  u = gens.jax_tree(tree, case['vals'], [d] * n)
  ys = [gens.f64(x) for x in gens.unbuild(u, tree['layout'], n)]
  norm = math.sqrt(sum(float(np.sum(y * y)) for y in ys))
  got = float(optax.global_norm(u))
  gens.close(got, np.asarray(norm), EPS[d], 0, f'global_norm of {ys}')
  tx = optax.clip_by_global_norm(jnp.asarray(c) if case['array'] else c)
  update = jax.jit(tx.update) if case['jit'] else tx.update
  out, _ = update(u, tx.init(u))
  xs = [gens.f64(x) for x in gens.unbuild(out, tree['layout'], n)]
  eps = EPS[d]
  ctx.nontrivial(norm >= c * (1 - 1e-5) and norm > 0)
  ctx.label('norm/bound:' + ('below' if norm < c * (1 - eps) else 'above'
                             if norm > c * (1 + eps) else 'at'))
  what = f'clip_by_global_norm({c}) of {ys} ({d}, norm {norm})'
  for i, (x, y) in enumerate(zip(xs, ys)):
    if norm < c * (1 - eps):
      gens.close(x, y, 0, 0, f'{what}: leaf {i} changed')
    elif norm > c * (1 + eps):
      gens.close(x, y * (c / norm), 4 * eps, 6e-8 if d == 'float16' else 0,
                 f'{what}: leaf {i} is not rescaled by {c / norm}')
    else:
      gens.close(x, y, 4 * eps, 0, f'{what}: leaf {i} changed')
  if norm > c * (1 + eps):
    new = math.sqrt(sum(float(np.sum(x * x)) for x in xs))
    gens.check(abs(new - c) <= 4 * eps * c, f'{what}: new norm {new}')


LEGS = [Leg('clip', clip_case, run_clip, 1600),
        Leg('global norm', norm_case, run_norm, 2000)]
