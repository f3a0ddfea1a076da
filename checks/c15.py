"""C15: flatten."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from vf import core
from vf import gens
from vf import spec as specs
from vf import wrap
from vf.core import Leg

ID = 'C15'
RULE = ('A case is an inner transformation with drawn settings, a tree of 1-5 '
        'leaves of rank 0-5 and a history; flatten(inner) on the tree is '
        'compared with the inner transformation on the concatenated vector '
        'and, for elementwise and global-norm ones, with the inner '
        'transformation on the tree. Non-trivial: >= 2 leaves or rank != 1, '
        'and a non-zero gradient.')
BASE = [n for n, e in specs.ENTRIES.items() if not e.batch]
SAME = [n for n in BASE if specs.ENTRIES[n].elementwise
        and not specs.ENTRIES[n].random] + ['clip_by_global_norm']


@st.composite
def case(draw, ctx):
  tree = draw(gens.tree_spec(ctx, 5, gens.SHAPES + [(0,)] if draw(
      st.booleans()) else None, npool=5))
  if all(gens.size(s) == 0 for s in tree['shapes']):
    tree['shapes'][0] = [3]
  steps = draw(st.integers(1, 3))
  return {'tree': tree, 'w': draw(specs.any_of(BASE + SAME)),
          'pass_params': draw(st.booleans()), 'jit': draw(
              st.integers(0, 7)) == 0,
          'grads': [draw(gens.leaf_values(tree)) for _ in range(steps)],
          'params': [draw(gens.leaf_values(tree)) for _ in range(steps)]}


def ravel(tree):
  """The vector of all leaves, in tree order."""
  return jnp.asarray(np.concatenate(
      [np.ravel(np.asarray(x)) for x in jax.tree_util.tree_leaves(tree)]))


def run(case, ctx):
  tree, w = case['tree'], case['w']
  n = len(tree['shapes'])
  name = w['name']
  ctx.label('name:' + name, 'leaves:%d' % n, 'layout:' + tree['layout'])
  ctx.nontrivial((n > 1 or len(tree['shapes'][0]) != 1) and any(
      v for g in case['grads'] for leaf in g for v in leaf))
  inner = specs.make(w)
  tx = optax.flatten(specs.make(w))
  p0 = gens.jax_tree(tree, case['params'][0])
  s, f, p = tx.init(p0), inner.init(ravel(p0)), inner.init(p0)
  pass_params = case['pass_params'] or specs.needs_params(w)
  # (Fused code may round cancelling variances differently.)
  jit = case['jit'] and not wrap.ill_conditioned(w)
  update = jax.jit(tx.update) if jit else tx.update
  for t in range(len(case['grads'])):
    g = gens.jax_tree(tree, case['grads'][t])
    params = gens.jax_tree(tree, case['params'][t])
    extra = (params,) if pass_params else ()
    u, s = update(g, s, *extra)
    v, f = inner.update(ravel(g), f, *map(ravel, extra))
    gens.unbuild(u, tree['layout'], n)
    off = 0
    for i, (x, like) in enumerate(zip(jax.tree_util.tree_leaves(u),
                                      jax.tree_util.tree_leaves(g))):
      k = like.size
      y = np.asarray(v)[off:off + k].reshape(like.shape)
      off += k
      gens.check(x.dtype == like.dtype, f'flatten({w}): dtype {x.dtype}')
      compare(x, y, f'flatten({w}) on {tree}: update {t} of leaf {i} (in tree '
              'order) differs from the update of the vector', w, jit)
    for x, y in zip(jax.tree_util.tree_leaves(s),
                    jax.tree_util.tree_leaves(f)):
      compare(x, np.asarray(y), f'flatten({w}): state after update {t}', w, jit)
    if name in SAME:
      ctx.label('unwrapped')
      v, p = inner.update(g, p, *extra)
      for i, (x, y) in enumerate(zip(jax.tree_util.tree_leaves(u),
                                     jax.tree_util.tree_leaves(v))):
        compare(x, y, f'flatten({w}) on {tree}: update {t} of leaf {i} (in '
                'tree order) differs from the unwrapped one', w, jit)


def compare(x, y, what, w, jit):
  y64 = gens.f64(y)
  fin = y64[np.isfinite(y64)]
  top = float(np.abs(fin).max()) if fin.size else 0.0
  rtol = 1e-6 if jit or wrap.ill_conditioned(w) else 1e-9
  gens.close(x, y, rtol, rtol * 1e-2 * top, what)


# --- mixed dtypes ------------------------------------------------------------------


@st.composite
def mixed_case(draw, ctx):
  c = draw(case(ctx))
  c['w'] = draw(specs.any_of(['scale', 'clip', 'identity', 'trace', 'sgd',
                              'add_decayed_weights']))
  c['w']['kw'].pop('momentum', None)
  c['x64'] = draw(st.booleans())
  dts = ['float32', 'float16', 'bfloat16'] + ['float64'] * c['x64']
  c['dtypes'] = [draw(st.sampled_from(dts)) for _ in c['tree']['shapes']]
  c['grads'] = [draw(gens.leaf_values(c['tree'], ['int', 'unit']))
                for _ in c['grads']]
  c['params'] = [draw(gens.leaf_values(c['tree'], ['int']))
                 for _ in c['grads']]
  return c


def run_mixed(case, ctx):
  """Every leaf keeps its dtype; values agree to its accuracy."""
  tree, w, dts = case['tree'], case['w'], case['dtypes']
  n = len(tree['shapes'])
  ctx.label('mixed:%d' % len(set(dts)), *['dtype:' + d for d in dts])
  ctx.nontrivial(len(set(dts)) > 1)
  tx, inner = optax.flatten(specs.make(w)), specs.make(w)
  jt = lambda v: gens.jax_tree(tree, v, dts)
  s, p = tx.init(jt(case['params'][0])), inner.init(jt(case['params'][0]))
  for t in range(len(case['grads'])):
    g, params = jt(case['grads'][t]), jt(case['params'][t])
    u, s = tx.update(g, s, params)
    v, p = inner.update(g, p, params)
    for i, (x, y, d) in enumerate(zip(
        gens.unbuild(u, tree['layout'], n), gens.unbuild(v, tree['layout'], n),
        dts)):
      gens.check(str(x.dtype) == d, f'flatten({w}) with leaves of {dts}: '
                 f'update {t} of leaf {i} is {x.dtype}')
      y64 = gens.f64(y)
      top = float(np.abs(y64).max()) if y64.size else 0.0
      eps = {'float64': 1e-6, 'float32': 1e-5, 'float16': 1e-2,
             'bfloat16': 6e-2}[d]
      gens.close(x, y, eps, eps * max(top, 1.0),
                 f'flatten({w}) with leaves of {dts}: update {t} of leaf {i}')


LEGS = [Leg('vector', case, run, 900),
        Leg('mixed', mixed_case, run_mixed, 240, x64=None)]
