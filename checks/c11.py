"""C11: structure, shapes and dtypes of updates and states."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import optax

from vf import core
from vf import gens
from vf import spec as specs
from vf import wrap
from vf.core import Leg

ID = 'C11'
RULE = ('A case is a transformation or a nest of wrappers with drawn settings '
        'and a tree of 1-4 leaves with drawn container, ranks and dtypes '
        '(float16, bfloat16, float32, float64); updates and states of three '
        'steps are compared with the gradients and the initial state. '
        'Non-trivial: some leaf is not float32 or not of rank 1, or there are '
        'several leaves.')
BASE = [n for n, e in specs.ENTRIES.items()]
SHAPES = gens.SHAPES + [(0,), (2, 0)]


@st.composite
def case(draw, ctx, wrapped):
  x64 = draw(st.booleans())
  layouts = gens.LAYOUTS
  tree = draw(gens.tree_spec(ctx, 4, npool=8, layouts=layouts))
  n = len(tree['shapes'])
  if wrapped:
    base = specs.any_of([b for b in BASE if not specs.ENTRIES[b].batch])
    w = draw(wrap.wrapped(base, n, wrap.WRAPPERS, 2))
  else:
    w = draw(specs.any_of(BASE))
  wrap.fix_rank(w, tree)
  dts = ['float32', 'float32', 'bfloat16', 'float16'] + (
      ['float64', 'float64'] if x64 else [])
  if draw(st.booleans()):
    dtypes = [draw(st.sampled_from(dts))] * n
  else:
    dtypes = [draw(st.sampled_from(dts)) for _ in range(n)]
  if 'inject' in wrap.names(w):
    dtypes = [dtypes[0]] * n  # mixed ones: see inject_case
  return {'tree': tree, 'w': w, 'dtypes': dtypes, 'x64': x64,
          'vals': draw(gens.leaf_values(tree, ['unit', 'int', 'zero'])),
          'grads': draw(gens.leaf_values(tree, ['unit', 'int', 'zero'])),
          'batch': draw(st.integers(1, 3)),
          'eager': draw(st.integers(0, 3)) > 0,
          'lookahead': [draw(st.integers(1, 3)), draw(st.booleans())]}


def spec_of(tree):
  return jax.tree_util.tree_map(lambda x: (tuple(x.shape), str(x.dtype)), tree)


def run(case, ctx):
  tree, w, dts = case['tree'], case['w'], case['dtypes']
  n = len(tree['shapes'])
  ctx.label('layout:' + tree['layout'], *['dtype:' + d for d in dts])
  ctx.label(*['name:' + x for x in wrap.names(w)])
  ctx.nontrivial(n > 1 or dts[0] != 'float32' or len(tree['shapes'][0]) != 1)
  tx = wrap.make(w, tree)
  params = gens.jax_tree(tree, case['vals'], dts)
  grads = gens.jax_tree(tree, case['grads'], dts)
  want = grads
  if wrap.any_entry(w, 'batch'):
    b = case['batch']
    grads = jax.tree_util.tree_map(
        lambda g: jnp.stack([jnp.asarray(g)] * b), grads)
  what = f'{wrap.names(w)} on {tree} with {dts} (x64 {case["x64"]})'
  state = tx.init(params)
  ref = spec_of(state)
  flat_ref, def_ref = jax.tree_util.tree_flatten(
      ref, is_leaf=lambda x: isinstance(x, tuple) and len(x) == 2
      and isinstance(x[1], str))
  update = tx.update
  if not case['eager']:
    update = lambda g, s, p: jax.eval_shape(tx.update, g, s, p)
  for t in range(3):
    u, state = update(grads, state, params)
    for i, (x, g) in enumerate(zip(gens.unbuild(u, tree['layout'], n),
                                   gens.unbuild(want, tree['layout'], n))):
      gens.check(tuple(x.shape) == tuple(g.shape) and x.dtype == g.dtype,
                 f'{what}: update {t} of leaf {i} is {x.dtype}{list(x.shape)},'
                 f' the gradient {g.dtype}{list(g.shape)}')
    gens.check(jax.tree_util.tree_structure(state)
               == jax.tree_util.tree_structure(tx.init(params))
               if t == 0 else True, f'{what}: state structure after {t}')
    got = spec_of(state)
    flat, def_got = jax.tree_util.tree_flatten(
        got, is_leaf=lambda x: isinstance(x, tuple) and len(x) == 2
        and isinstance(x[1], str))
    gens.check(def_got == def_ref, f'{what}: state structure changed at {t}')
    for a, b in zip(flat, flat_ref):
      gens.check(a == b, f'{what}: a state leaf is {a} after update {t}, '
                 f'{b} initially')


# --- lookahead (its updates are a pair) -----------------------------------------


@st.composite
def look_case(draw, ctx):
  c = draw(case(ctx, False))
  c['w'] = draw(specs.any_of([b for b in BASE if not specs.ENTRIES[b].batch]))
  wrap.fix_rank(c['w'], c['tree'])
  return c


def run_look(case, ctx):
  tree, w, dts = case['tree'], case['w'], case['dtypes']
  n = len(tree['shapes'])
  ctx.label('lookahead', *['dtype:' + d for d in dts])
  ctx.nontrivial()
  period, reset = case['lookahead']
  tx = optax.lookahead(specs.make(w), period, 0.5, reset)
  params = gens.jax_tree(tree, case['vals'], dts)
  grads = gens.jax_tree(tree, case['grads'], dts)
  pair = optax.LookaheadParams.init_synced(params)
  state = tx.init(pair)
  ref = [(x.shape, x.dtype) for x in jax.tree_util.tree_leaves(state)]
  for t in range(2):
    u, state = tx.update(grads, state, pair)
    gens.check(isinstance(u, optax.LookaheadParams), 'not LookaheadParams')
    for side in (u.fast, u.slow):
      for i, (x, g) in enumerate(zip(gens.unbuild(side, tree['layout'], n),
                                     gens.unbuild(grads, tree['layout'], n))):
        gens.check(x.shape == g.shape and x.dtype == g.dtype,
                   f'lookahead({w}): update {t} of leaf {i} is '
                   f'{x.dtype}{list(x.shape)}, the gradient {g.dtype}')
    got = [(x.shape, x.dtype) for x in jax.tree_util.tree_leaves(state)]
    gens.check(got == ref, f'lookahead({w}): state {got}, initially {ref}')


# --- inject_hyperparams with leaves of several dtypes (a listed finding) -------


@st.composite
def inject_case(draw, ctx):
  c = draw(case(ctx, False))
  c['w'] = {'w': 'inject', 'inner': draw(specs.any_of(
      wrap.INJECT, lr_kinds=['float']))}
  return c


def run_inject(case, ctx):
  tree, w, dts = case['tree'], case['w'], case['dtypes']
  n = len(tree['shapes'])
  ctx.label('inject', *['dtype:' + d for d in dts])
  ctx.nontrivial(len(set(dts)) > 1)
  tx = wrap.make(w, tree)
  params = gens.jax_tree(tree, case['vals'], dts)
  grads = gens.jax_tree(tree, case['grads'], dts)
  state = tx.init(params)
  first = jax.tree_util.tree_leaves(params)[0].dtype
  for t in range(2):
    u, state = tx.update(grads, state, params)
    for i, (x, d) in enumerate(zip(gens.unbuild(u, tree['layout'], n), dts)):
      if str(x.dtype) == d:
        continue
      known = (x.dtype == jnp.promote_types(first, jnp.dtype(d))
               and first != jnp.dtype(d))
      if known and ctx.known_finding('inject-mixed-dtypes'):
        return
      raise core.Violation(
          f'inject_hyperparams({w["inner"]["name"]}) on leaves of {dts}: '
          f'update {t} of leaf {i} is {x.dtype}')


LEGS = [
    Leg('inject', inject_case, run_inject, 120, x64=None, explicit=[{
        'tree': {'layout': 'list', 'shapes': [[2], [2]]}, 'x64': False,
        'w': {'w': 'inject', 'inner': {
            'name': 'scale', 'kw': {'step_size': 0.5}}},
        'dtypes': ['float32', 'bfloat16'], 'vals': [[1.0, 1.0], [1.0, 1.0]],
        'grads': [[1.0, 1.0], [1.0, 1.0]]}]),
    Leg('base', lambda ctx: case(ctx, False), run, 1000, x64=None),
    Leg('wrapped', lambda ctx: case(ctx, True), run, 400, x64=None),
    Leg('lookahead', look_case, run_look, 200, x64=None),
]
