"""C13: purity; runs can be interrupted, interleaved and resumed."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from checks import c09
from vf import core
from vf import gens
from vf import spec as specs
from vf import wrap
from vf.core import Leg

ID = 'C13'
RULE = ('A case is a transformation or a nest of wrappers, two histories, an '
        'interruption point and an interleaving; the first history is replayed '
        'interleaved with the second, and resumed from the saved state with a '
        'new transformation. All arguments are compared with copies made '
        'before the call. Non-trivial: a non-zero gradient and >= 2 steps.')
BASE = [n for n, e in specs.ENTRIES.items()]
SHAPES = [(), (2,), (3,), (2, 3), (2, 1, 3), (1, 2, 1, 2)]


@st.composite
def case(draw, ctx, kind):
  tree = draw(gens.tree_spec(ctx, 2, SHAPES, npool=4))
  n = len(tree['shapes'])
  if kind == 'wrapped':
    w = draw(wrap.wrapped(specs.any_of(
        [b for b in BASE if not specs.ENTRIES[b].batch]), n, depth=2))
  else:
    w = draw(specs.any_of(BASE))
  steps = draw(st.integers(1, 4 if kind != 'wrapped' else 3))
  b = draw(st.integers(1, 3)) if wrap.any_entry(w, 'batch') else 0
  gtree = tree if not b else dict(
      tree, shapes=[[b] + list(s) for s in tree['shapes']])
  # The second run may be that of another model.
  tree2 = dict(tree)
  if draw(st.booleans()):
    shapes = gens.pool(ctx, 4, SHAPES)
    tree2['shapes'] = [draw(st.sampled_from(shapes)) for _ in range(n)]
  gtree2 = tree2 if not b else dict(
      tree2, shapes=[[b] + list(s) for s in tree2['shapes']])
  mode = draw(st.sampled_from(gens.MODES))
  special = draw(st.sampled_from([0, 0, 40]))
  return {'tree': tree, 'w': w, 'gtree': gtree, 'tree2': tree2,
          'gtree2': gtree2,
          'look': draw(st.integers(1, 3)) if kind == 'lookahead' else 0,
          'reset': draw(st.booleans()),
          'cut': draw(st.integers(0, steps)),
          'store': draw(st.sampled_from(['same', 'host', 'host', 'numpy'])),
          'np': draw(st.sampled_from([0, 0, 1])),
          'order': draw(st.lists(st.integers(0, 1), min_size=steps,
                                 max_size=steps)),
          'grads': [[draw(gens.leaf_values(x, mode, special))
                     for _ in range(steps)] for x in (gtree, gtree2)],
          'params': [draw(gens.leaf_values(x, ['unit', 'pos']))
                     for x in (tree, tree2)]}


def build(case):
  tx = wrap.make(case['w'], case['tree'])
  if case['look']:
    tx = optax.lookahead(tx, case['look'], 0.5, case['reset'])
  return tx


def save(tree, how):
  """Writes a state to host memory and reads it back."""
  if how == 'same':
    return tree
  leaves, treedef = jax.tree_util.tree_flatten(tree)
  raw = [(np.asarray(x).tobytes(), np.asarray(x).dtype, np.shape(x))
         for x in leaves]
  leaves = [np.frombuffer(b, d).reshape(s).copy() for b, d, s in raw]
  if how == 'host':
    leaves = [jnp.asarray(x) for x in leaves]
  return jax.tree_util.tree_unflatten(treedef, leaves)


def copy(tree):
  return jax.tree_util.tree_map(lambda x: np.array(x, copy=True), tree)


def run(case, ctx):
  tree, w = case['tree'], case['w']
  ctx.label('store:' + case['store'], 'cut:%d' % case['cut'],
            *['name:' + x for x in wrap.names(w)])
  steps = len(case['grads'][0])
  ctx.nontrivial(steps > 1 and any(
      v for h in case['grads'] for g in h for leaf in g for v in leaf))
  as_np = bool(case['np'])
  trees = [tree, case.get('tree2', tree)]
  gtrees = [case['gtree'], case.get('gtree2', case['gtree'])]
  params = [gens.jax_tree(x, p, None, as_np) for x, p in zip(
      trees, case['params'])]
  ctx.label('other model:%s' % (trees[0] != trees[1]))
  if case['look']:
    ctx.label('lookahead')
    params = [optax.LookaheadParams.init_synced(p) for p in params]
  grads = [[gens.jax_tree(x, g, None, as_np) for g in h]
           for x, h in zip(gtrees, case['grads'])]
  what = f'{w}' + (f' in lookahead({case["look"]})' if case['look'] else '')

  def call(tx, g, s, p):
    args = (g, s, p)
    before, structure = copy(args), jax.tree_util.tree_structure(args)
    out = tx.update(g, s, p)
    gens.check(jax.tree_util.tree_structure(args) == structure
               and gens.same_bits(copy(args), before),
               f'{what}: update modified its arguments: {before} became '
               f'{args}')
    return out

  tx = build(case)
  base, states = [], []
  before = copy(params[0])
  s = tx.init(params[0])
  gens.check(gens.same_bits(copy(params[0]), before),
             f'{what}: init modified the parameters')
  states.append(s)
  for g in grads[0]:
    u, s = call(tx, g, s, params[0])
    base.append(u)
    states.append(s)
  same = lambda a, b, how, tol=1e-9: compare(a, b, f'{what}: {how}', tol)
  # The same arguments again (the states were kept): same results.
  t = case['cut'] % steps
  again, s2 = call(tx, grads[0][t], states[t], params[0])
  same(again, base[t], f'repeated update {t}')
  same(s2, states[t + 1], f'state of the repeated update {t}')
  # Interrupted after `cut` updates, with a newly built transformation.
  new = build(case)
  store = case['store']
  tol = 1e-9
  if store == 'numpy':
    # NumPy divides its integers in 64 bits (schedules), JAX in 32.
    tol = 1e-4
    store = 'host' if wrap.ill_conditioned(w) else store
  s = save(states[case['cut']], store)
  for t in range(case['cut'], steps):
    u, s = call(new, grads[0][t], s, params[0])
    same(u, base[t], f'update {t} of a run resumed after {case["cut"]}',
         tol)
  same(s, states[-1], f'final state of a run resumed after {case["cut"]}',
       tol)
  # Interleaved with another run of the same object.
  other = build(case)
  sa, sb, sc = tx.init(params[0]), tx.init(params[1]), other.init(params[1])
  pos = 0
  for t in range(steps):
    if case['order'][t]:
      v, sb = tx.update(grads[1][pos], sb, params[1])
      w, sc = other.update(grads[1][pos], sc, params[1])
      same(v, w, f'update {pos} of the other run')
      pos += 1
    u, sa = tx.update(grads[0][t], sa, params[0])
    same(u, base[t], f'update {t} of an interleaved run')
  same(sa, states[-1], 'final state of an interleaved run')
  same(sb, sc, 'final state of the other run')


def compare(a, b, what, tol=1e-9):
  fa, ta = jax.tree_util.tree_flatten(a)
  fb, tb = jax.tree_util.tree_flatten(b)
  gens.check(ta == tb, f'{what}: structure {ta}, was {tb}')
  for x, y in zip(fa, fb):
    y64 = gens.f64(y)
    fin = y64[np.isfinite(y64)]
    top = float(np.abs(fin).max()) if fin.size else 0.0
    gens.close(x, y, tol, 1e-3 * tol * top, what)


# --- inject_hyperparams with schedules and overrides -------------------------------


@st.composite
def inject_case(draw, ctx):
  c = draw(c09.case(ctx))
  c['cut'] = draw(st.integers(0, len(c['grads'])))
  c['jit'] = False
  return c


def run_inject(case, ctx):
  tree = case['tree']
  ctx.label('inject', 'overrides:%d' % len(case['overrides']))
  ctx.nontrivial(len(case['grads']) > 1)
  params = gens.jax_tree(tree, case['params'])

  def play(tx, s, start, stop):
    out = []
    for t in range(start, stop):
      for when, k, v in case['overrides']:
        if when == t and k in s.hyperparams:
          s.hyperparams[k] = jnp.asarray(v, s.hyperparams[k].dtype)
      g = gens.jax_tree(tree, case['grads'][t])
      args = (g, s, params)
      before = copy(args)
      u, new = tx.update(*args)
      gens.check(gens.same_bits(copy(args), before),
                 f'inject_hyperparams({case["name"]}): update modified its '
                 'arguments')
      out.append(u)
      s = new
    return out, s
  tx = c09.build(case)
  n = len(case['grads'])
  want, last = play(tx, tx.init(params), 0, n)
  first, s = play(tx, tx.init(params), 0, case['cut'])
  rest, s = play(c09.build(case), save(s, 'host'), case['cut'], n)
  compare(first + rest, want, f'inject_hyperparams({case["name"]}): resumed '
          f'after {case["cut"]}')
  compare(s, last, f'inject_hyperparams({case["name"]}): final state of a run '
          f'resumed after {case["cut"]}')


LEGS = [
    Leg('base', lambda ctx: case(ctx, 'base'), run, 480),
    Leg('wrapped', lambda ctx: case(ctx, 'wrapped'), run, 160),
    Leg('lookahead', lambda ctx: case(ctx, 'lookahead').filter(
        lambda c: not wrap.any_entry(c['w'], 'batch')), run, 120),
    Leg('inject', inject_case, run_inject, 240),
]
