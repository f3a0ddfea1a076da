"""C26: apply_updates, incremental_update, periodic_update."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from vf import gens
from vf.core import Leg

ID = 'C26'
RULE = ('A case is one or two trees of 1-5 leaves with mixed dtypes, and the '
        'step size or step count and period; every leaf is compared with the '
        'sum, average or choice in float64, and its dtype with that of the '
        'parameter. Non-trivial: the trees differ and (mixed dtypes, an '
        'intermediate step size, or a step that is / is not a multiple).')
FLOATS = ['float64', 'float32', 'bfloat16', 'float16']
EPS = {'float64': 2.0 ** -52, 'float32': 2.0 ** -23, 'bfloat16': 2.0 ** -7,
       'float16': 2.0 ** -10, 'int32': 0.0, 'int64': 0.0}
MODES = ['unit', 'int', 'sparse', 'unit', 'wide', 'zero']


@st.composite
def apply_case(draw, ctx):
  tree = draw(gens.tree_spec(ctx, 5, npool=8))
  n = len(tree['shapes'])
  pd, ud = [], []
  for _ in range(n):
    k = draw(st.integers(0, 9))
    if k == 0:
      pd.append(draw(st.sampled_from(['int32', 'int64'])))
      ud.append(draw(st.sampled_from(['int32', 'int64'])))
    else:
      pd.append(draw(st.sampled_from(FLOATS)))
      ud.append(pd[-1] if k < 5 else draw(st.sampled_from(FLOATS)))
  return {'tree': tree, 'pd': pd, 'ud': ud,
          'p': draw(gens.leaf_values(tree, MODES)),
          'u': draw(gens.leaf_values(tree, MODES)),
          'np': draw(st.booleans()), 'scalars': draw(st.integers(0, 4)) == 0,
          'jit': draw(st.integers(0, 9)) == 0}


def run_apply(case, ctx):
  tree, pd, ud = case['tree'], case['pd'], case['ud']
  n = len(tree['shapes'])
  p = gens.jax_tree(tree, case['p'], pd, case['np'])
  u = gens.jax_tree(tree, case['u'], ud, case['np'])
  pl, ul = (gens.unbuild(x, tree['layout'], n) for x in (p, u))
  if case['scalars']:  # Python floats are leaves, too.
    pl = [float(x) if x.ndim == 0 and d == e == 'float64' else x
          for x, d, e in zip(pl, pd, ud)]
    p = gens.build(tree['layout'], pl)
  before = [gens.f64(x).copy() for x in pl + ul]
  got = (jax.jit(optax.apply_updates) if case['jit']
         else optax.apply_updates)(p, u)
  ctx.label('mixed:%s' % (pd != ud), *['param:' + d for d in pd])
  ctx.nontrivial(any(v for leaf in case['u'] for v in leaf)
                 and (pd != ud or n > 1))
  for i, x in enumerate(gens.unbuild(got, tree['layout'], n, 'new params')):
    what = f'{pd[i]} params + {ud[i]} updates, leaf {i}'
    gens.check(isinstance(x, jax.Array), f'{what}: {type(x)}')
    gens.check(str(x.dtype) == pd[i], f'{what}: dtype {x.dtype}')
    a, b = gens.f64(pl[i]), gens.f64(ul[i])
    mid = str(jnp.promote_types(pd[i], ud[i]))
    if max(np.abs(a + b).max(), np.abs(a).max(), np.abs(b).max(),
           0) > 6e4 and 'float16' in (pd[i], ud[i], mid):
      continue
    gens.close(x, a + b, EPS[pd[i]], EPS[mid] * np.abs(a + b) + (
        0 if mid.startswith('int') else 1e-7 if 'float16' in pd[i] else 1e-40),
               f'{what}: {a.tolist()} + {b.tolist()}')
  for x, y in zip(pl + ul, before):
    gens.check(np.array_equal(gens.f64(x), y), 'the arguments were modified')


@st.composite
def inc_case(draw, ctx):
  tree = draw(gens.tree_spec(ctx, 4, npool=8))
  return {'tree': tree,
          'dtypes': [draw(st.sampled_from(FLOATS + ['float64'] * 3))
                     for _ in tree['shapes']],
          'new': draw(gens.leaf_values(tree, ['unit', 'int', 'sparse', 'wide'])),
          'old': draw(gens.leaf_values(tree, ['unit', 'int', 'sparse', 'wide'])),
          'step': draw(st.one_of(gens.nice(0, 1), gens.nice(-1, 2),
                                 st.sampled_from([0.0, 1.0, 0.5, 1, 0]),
                                 gens.logf(1e-6, 1e-2))),
          'kind': draw(st.sampled_from(['py', 'py', 'np', 'jnp', 'jit']))}


def run_inc(case, ctx):
  tree, step = case['tree'], case['step']
  n = len(tree['shapes'])
  new = gens.jax_tree(tree, case['new'], case['dtypes'])
  old = gens.jax_tree(tree, case['old'], case['dtypes'])
  s = {'py': step, 'np': np.float32(step), 'jnp': jnp.asarray(step, jnp.float32),
       'jit': step}[case['kind']]
  fn = optax.incremental_update
  if case['kind'] == 'jit':
    fn = jax.jit(fn)
  got = fn(new, old, s)
  step = float(s)
  ctx.label('step:%s' % case['kind'])
  ctx.nontrivial(case['new'] != case['old'] and step not in (0, 1))
  a, b = (gens.unbuild(x, tree['layout'], n) for x in (new, old))
  for i, x in enumerate(gens.unbuild(got, tree['layout'], n)):
    d = case['dtypes'][i]
    y, z = gens.f64(a[i]), gens.f64(b[i])
    if np.abs(y).max() + np.abs(z).max() > 1e4 and d == 'float16':
      continue
    # 1 - step may be rounded to the dtype of the leaf (or of step).
    eps = max(EPS[d], EPS['float32'] if case['kind'] in ('np', 'jnp') else 0)
    gens.close(x, step * y + (1 - step) * z, 0,
               3 * eps * (abs(step * y) + (1 + abs(step)) * abs(z)) + (
                   1e-6 if d == 'float16' else 1e-40),
               f'incremental_update({y.tolist()}, {z.tolist()}, {step}) '
               f'({d}), leaf {i}')
    if case['kind'] == 'py':
      gens.check(str(x.dtype) == d, f'incremental_update of {d}: {x.dtype}')


@st.composite
def per_case(draw, ctx):
  tree = draw(gens.tree_spec(ctx, 4, npool=8))
  period = draw(st.one_of(st.integers(1, 6), st.integers(1, 10 ** 6)))
  step = draw(st.one_of(
      st.integers(0, 12), st.integers(0, 2 ** 31 - 1),
      st.integers(0, (2 ** 31 - 1) // period).map(lambda k: k * period)))
  return {'tree': tree, 'period': period, 'step': step,
          'dtypes': [draw(st.sampled_from(FLOATS + ['int32', 'bool']))
                     for _ in tree['shapes']],
          'new': draw(gens.leaf_values(tree, None, 9)),
          'old': draw(gens.leaf_values(tree, None, 9)),
          'kind': draw(st.sampled_from(['py', 'np', 'jnp', 'jit', 'i64']))}


def run_per(case, ctx):
  tree, step, period = case['tree'], case['step'], case['period']
  n = len(tree['shapes'])
  clean = lambda vals: [[v if np.isfinite(v) or d not in ('int32', 'bool')
                         else 0.0 for v in leaf]
                        for leaf, d in zip(vals, case['dtypes'])]
  new = gens.jax_tree(tree, clean(case['new']), case['dtypes'])
  old = gens.jax_tree(tree, clean(case['old']), case['dtypes'])
  s = {'py': lambda: step, 'np': lambda: np.int32(step),
       'jnp': lambda: jnp.asarray(step, jnp.int32), 'jit': lambda: step,
       'i64': lambda: jnp.asarray(step, jnp.int64)}[case['kind']]()
  fn = optax.periodic_update
  if case['kind'] == 'jit':
    fn = jax.jit(fn)
  got = fn(new, old, s, period)
  hit = step % period == 0
  ctx.label('multiple:%s' % hit, 'step:' + case['kind'])
  ctx.nontrivial(not gens.same_bits(new, old))
  gens.check(gens.same_bits(got, new if hit else old),
             f'periodic_update at step {step} with period {period}: got {got}, '
             f'expected the {"new" if hit else "old"} of {new}, {old}')


LEGS = [Leg('apply', apply_case, run_apply, 900),
        Leg('incremental', inc_case, run_inc, 700),
        Leg('periodic', per_case, run_per, 700)]
