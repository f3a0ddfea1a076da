"""C21: apply_every and maybe_update."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from vf import core
from vf import gens
from vf import longrun
from vf import spec as specs
from vf import steps
from vf.core import Leg

ID = 'C21'
RULE = ('A case is a period 1-6 with a history of up to 20 gradients that may '
        'hold NaN and infinities (apply_every), or an inner transformation, a '
        'predicate over steps and a history of up to 12 (maybe_update), '
        'compared step by step with a model. Non-trivial: something is emitted '
        'and something is held back.')


@st.composite
def every_case(draw, ctx):
  tree = draw(gens.tree_spec(ctx, 3, npool=5))
  n = draw(st.integers(1, 20))
  special = draw(st.sampled_from([0, 0, 20, 60]))
  return {'tree': tree, 'k': draw(st.integers(1, 6)),
          'grads': [draw(gens.leaf_values(tree, None, special))
                    for _ in range(n)],
          'dtype': draw(st.sampled_from(['float64', 'float64', 'float32'])),
          'jit': n > 4}


def run_every(case, ctx):
  tree, k, d = case['tree'], case['k'], case['dtype']
  n = len(tree['shapes'])
  ctx.label('k:%d' % k, 'dtype:' + d)
  ctx.nontrivial(1 < k <= len(case['grads']))
  tx = optax.apply_every(k) if k > 1 or len(
      case['grads']) % 2 else optax.apply_every()
  jt = lambda v: gens.jax_tree(tree, v, [d] * n)
  s = tx.init(jt(case['grads'][0]))
  update = jax.jit(tx.update) if case['jit'] else tx.update
  window = []
  rtol = 1e-9 if d == 'float64' else 1e-4
  for t, v in enumerate(case['grads']):
    g = jt(v)
    u, s = update(g, s)
    window.append([gens.f64(x) for x in gens.unbuild(g, tree['layout'], n)])
    what = f'apply_every({k}): update {t}'
    outs = gens.unbuild(u, tree['layout'], n)
    if len(window) < k:
      steps.zeros(u, what)
      continue
    for i, x in enumerate(outs):
      with np.errstate(all='ignore'):
        want = sum(x[i] for x in window)
        mag = sum(np.abs(x[i]) for x in window)
        mag = np.where(np.isfinite(mag), mag, 0.0)
      gens.close(x, want, rtol, rtol * mag, f'{what} of leaf {i}')
    window = []


@st.composite
def maybe_case(draw, ctx):
  tree = draw(gens.tree_spec(ctx, 2, steps.SHAPES, npool=3))
  n = draw(st.integers(1, 12))
  return {'tree': tree, 'w': draw(specs.any_of(steps.INNER)),
          'when': draw(st.lists(st.integers(0, 1), min_size=1, max_size=12)),
          'kind': draw(st.sampled_from(['table', 'mod', 'before', 'after'])),
          'k': draw(st.integers(1, 5)),
          'grads': [draw(steps.grads_strategy(tree)) for _ in range(n)],
          'params': [draw(gens.leaf_values(tree, ['unit', 'pos']))
                     for _ in range(n)],
          'eager': n <= 3 and draw(st.booleans())}


def run_maybe(case, ctx):
  tree, w, k = case['tree'], case['w'], case['k']
  n = len(tree['shapes'])
  when = case['when']
  ctx.label('kind:' + case['kind'], 'name:' + w['name'])
  pred = {'table': lambda s: jnp.asarray(when)[s % len(when)] > 0,
          'mod': lambda s: s % k == 0, 'before': lambda s: s < k,
          'after': lambda s: s >= k}[case['kind']]
  want_pred = {'table': lambda s: when[s % len(when)] > 0,
               'mod': lambda s: s % k == 0, 'before': lambda s: s < k,
               'after': lambda s: s >= k}[case['kind']]
  tx, inner = optax.maybe_update(specs.make(w), pred), specs.make(w)
  jt = lambda v: gens.jax_tree(tree, v)
  p0 = jt(case['params'][0])
  s, ref = tx.init(p0), inner.init(p0)
  update, step = tx.update, inner.update
  if not case['eager']:
    update, step = jax.jit(update), jax.jit(step)
  rtol = steps.rtol(w)
  chosen = 0
  for t, v in enumerate(case['grads']):
    g, p = jt(v), jt(case['params'][t])
    what = f'maybe_update({w}, {case["kind"]} {k} {when}): update {t}'
    gens.check(int(s.step) == t, f'{what}: step {s.step}')
    old = s
    u, s = update(g, s, p)
    gens.unbuild(u, tree['layout'], n)
    if want_pred(t):
      chosen += 1
      want, ref = step(g, ref, p)
      steps.same(u, want, what, rtol)
    else:
      gens.check(gens.same_bits(u, g), f'{what}: not passed through')
      gens.check(gens.same_bits(s.inner_state, old.inner_state),
                 f'{what}: the inner state changed')
    steps.same(s.inner_state, ref, f'{what}: inner state', rtol)
  ctx.nontrivial(0 < chosen < len(case['grads']))


LEGS = [Leg('apply_every', every_case, run_every, 640),
        Leg('maybe_update', maybe_case, run_maybe, 400),
        longrun.leg(['apply_every', 'maybe_update'])]
