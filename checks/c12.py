"""C12: eager, compiled, scanned and batched runs agree."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from checks import c07
from vf import core
from vf import gens
from vf import sched
from vf import spec as specs
from vf import wrap
from vf.core import Leg

ID = 'C12'
RULE = ('A case is a transformation or a nest of wrappers, a tree and two '
        'independent histories of gradients; the eager run is compared with '
        'jit (per step), lax.scan over the history and vmap over the two '
        'histories. Schedule cases compare jit and scan over the steps with '
        'the formulas. Non-trivial: a non-zero gradient and >= 2 steps, or a '
        'schedule that changes.')
BASE = [n for n, e in specs.ENTRIES.items() if not e.batch]
SHAPES = [(), (2,), (3,), (2, 3), (2, 1, 3), (1, 2, 1, 2)]


@st.composite
def case(draw, ctx, wrapped):
  tree = draw(gens.tree_spec(ctx, 2, SHAPES, npool=4))
  n = len(tree['shapes'])
  if wrapped:
    w = draw(wrap.wrapped(specs.any_of(BASE), n, depth=2))
    # With a period the counters wrap around within the history.
  else:
    w = draw(specs.any_of(BASE + ['dpsgd',
                                  'differentially_private_aggregate']))
  steps = draw(st.integers(1, 5))
  mode = draw(st.sampled_from(['unit', 'away', 'int', 'sparse']))
  if wrap.ill_conditioned(w):
    mode = 'unit'
  special = draw(st.sampled_from([0, 40])) if (
      'finite' in wrap.names(w) or 'zero_nans' in wrap.names(w)) else 0
  b = draw(st.integers(1, 3)) if wrap.any_entry(w, 'batch') else 0
  gtree = tree if not b else dict(
      tree, shapes=[[b] + list(s) for s in tree['shapes']])
  return {'tree': tree, 'w': w, 'gtree': gtree,
          'x64': draw(st.sampled_from([True, True, False])),
          'how': draw(st.lists(st.sampled_from(['jit', 'scan', 'vmap']),
                               min_size=1, max_size=3, unique=True)),
          'grads': [[draw(gens.leaf_values(gtree, mode, special))
                     for _ in range(steps)] for _ in range(2)],
          'params': [draw(gens.leaf_values(tree, ['unit', 'pos']))
                     for _ in range(2)]}



def stack(trees):
  return jax.tree_util.tree_map(lambda *x: jnp.stack(x), *trees)


def take(tree, i):
  return jax.tree_util.tree_map(lambda x: x[i], tree)


def run(case, ctx):
  tree, w = case['tree'], case['w']
  n = len(tree['shapes'])
  names = wrap.names(w)
  ctx.label(*['name:' + x for x in names])
  ctx.label(*['how:' + h for h in case['how']])
  steps = len(case['grads'][0])
  ctx.nontrivial(steps > 1 and any(
      v for h in case['grads'] for g in h for leaf in g for v in leaf))
  tx = wrap.make(w, tree)
  dts = ['float64' if case['x64'] else 'float32'] * n
  ctx.label('dtype:' + dts[0])
  params = [gens.jax_tree(tree, p, dts) for p in case['params']]
  grads = [[gens.jax_tree(case['gtree'], g, dts) for g in h]
           for h in case['grads']]

  def eager(r):
    s = tx.init(params[r])
    out = []
    for g in grads[r]:
      u, s = tx.update(g, s, params[r])
      out.append(u)
    return out, s

  rtol = 1e-4 if wrap.ill_conditioned(w) else 1e-6
  unstable = False
  if not case['x64']:
    rtol = 2e-3
    # In 32 bits these differences of averages may be rounding only.
    unstable = wrap.ill_conditioned(w) or any(
        x in ('scale_by_belief', 'adabelief') for x in names)

  def compare(got, want, how):
    fg, tg = jax.tree_util.tree_flatten(got)
    fw, tw = jax.tree_util.tree_flatten(want)
    gens.check(tg == tw, f'{w}: {how} returns {tg}, eager {tw}')
    for x, y in zip(fg, fw):
      gens.check(x.dtype == y.dtype, f'{w}: {how} returns {x.dtype}, eager '
                 f'{y.dtype}')
      y64 = gens.f64(y)
      fin = y64[np.isfinite(y64)]
      top = float(np.abs(fin).max()) if fin.size else 0.0
      if unstable:
        gens.check((np.isfinite(gens.f64(x)) == np.isfinite(y64)).all(),
                   f'{w} on {tree}: {how} returns {x}, eager {y}')
        continue
      gens.close(x, y, rtol, rtol * max(top, 1e-6),
                 f'{w} on {tree}: {how} differs from eager')

  want, last = eager(0)
  if 'jit' in case['how']:
    step = jax.jit(tx.update)
    s = jax.jit(tx.init)(params[0])
    for t, g in enumerate(grads[0]):
      u, s = step(g, s, params[0])
      compare(u, want[t], f'jit (update {t})')
    compare(s, last, 'jit (final state)')
  if 'scan' in case['how']:
    def body(s, g):
      u, s = tx.update(g, s, params[0])
      return s, u
    s, us = jax.lax.scan(body, tx.init(params[0]), stack(grads[0]))
    for t in range(steps):
      compare(take(us, t), want[t], f'scan (update {t})')
    compare(s, last, 'scan (final state)')
  if 'vmap' in case['how']:
    want2, last2 = eager(1)
    ps = stack(params)
    s = jax.vmap(tx.init)(ps)
    step = jax.vmap(tx.update)
    for t in range(steps):
      u, s = step(stack([h[t] for h in grads]), s, ps)
      compare(take(u, 0), want[t], f'vmap (update {t}, replica 0)')
      compare(take(u, 1), want2[t], f'vmap (update {t}, replica 1)')
    compare(take(s, 0), last, 'vmap (final state)')
    compare(take(s, 1), last2, 'vmap (final state, replica 1)')


# --- lookahead ------------------------------------------------------------------


@st.composite
def look_case(draw, ctx):
  c = draw(case(ctx, False).filter(
      lambda c: not wrap.any_entry(c['w'], 'batch')))
  c['look'] = [draw(st.integers(1, 3)), draw(st.sampled_from([0.5, 0.25, 1.0])),
               draw(st.booleans())]
  return c


def run_look(case, ctx):
  tree, w = case['tree'], case['w']
  tx = optax.lookahead(wrap.make(w, tree), *case['look'])
  ctx.label('lookahead')
  steps = len(case['grads'][0])
  ctx.nontrivial(steps > 1)
  pair = optax.LookaheadParams.init_synced(
      gens.jax_tree(tree, case['params'][0]))
  grads = [gens.jax_tree(tree, g) for g in case['grads'][0]]

  def step(carry, g):
    s, p = carry
    u, s = tx.update(g, s, p)
    return (s, optax.apply_updates(p, u)), u
  carry = (tx.init(pair), pair)
  want = []
  for g in grads:
    carry, u = step(carry, g)
    want.append(u)
  end, us = jax.lax.scan(step, (tx.init(pair), pair), stack(grads))
  rtol = 1e-4 if wrap.ill_conditioned(w) else 1e-6
  for a, b in ((us, stack(want)), (end, carry)):
    for x, y in zip(jax.tree_util.tree_leaves(a),
                    jax.tree_util.tree_leaves(b)):
      y64 = gens.f64(y)
      top = float(np.abs(y64).max()) if y64.size else 0.0
      gens.close(x, y, rtol, rtol * max(top, 1e-6),
                 f'lookahead({w}, {case["look"]}): scan differs from eager')


# --- schedules --------------------------------------------------------------------


@st.composite
def sched_case(draw):
  c = draw(st.one_of(sched.case(sched.elementary()),
                     sched.case(sched.composite())))
  c['as'] = draw(st.sampled_from(['jit', 'scan', 'jitvmap']))
  return c


def run_sched(case, ctx):
  spec = case['spec']
  ctx.label('kind:' + spec['k'], 'as:' + case['as'])
  fn = sched.make(spec)
  f = lambda c: jnp.asarray(fn(c))
  counts = jnp.asarray(case['counts'], jnp.int32)
  if case['as'] == 'jit':
    g = jax.jit(f)
    out = np.asarray([float(g(c)) for c in counts])
  elif case['as'] == 'scan':
    _, out = jax.lax.scan(lambda s, c: (s, f(c)), 0, counts)
  else:
    out = jax.jit(jax.vmap(f))(counts)
  seen = set()
  for c, v in zip(case['counts'], np.asarray(out)):
    lo, hi = sched.interval(spec, c)
    seen.add(round(lo, 9))
    gens.check(lo <= float(v) <= hi, f'{spec} at step {c} in {case["as"]}: '
               f'{v!r}, expected [{lo!r}, {hi!r}]')
  ctx.nontrivial(len(seen) > 1)


LEGS = [
    Leg('base', lambda ctx: case(ctx, False), run, 260, x64=None),
    Leg('wrapped', lambda ctx: case(ctx, True), run, 180, x64=None),
    Leg('lookahead', look_case, run_look, 48),
    Leg('schedules', lambda ctx: sched_case(), run_sched, 400, x64=None),
]
