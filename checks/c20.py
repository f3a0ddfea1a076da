"""C20: MultiSteps."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from vf import core
from vf import gens
from vf import longrun
from vf import spec as specs
from vf import steps
from vf.core import Leg

ID = 'C20'
RULE = ('A case is an inner transformation, an accumulation length (constant '
        'or a table over gradient steps), mean or sum, and a history of up to '
        '14 gradients with changing parameters; updates, counters and inner '
        'state are compared with a model that runs the inner transformation '
        'on the aggregated gradients. Non-trivial: at least one emission and '
        'one accumulation step.')


@st.composite
def case(draw, ctx):
  tree = draw(gens.tree_spec(ctx, 2, steps.SHAPES, npool=3))
  n = draw(st.integers(1, 14))
  kind = draw(st.sampled_from(['int', 'int', 'table', 'table', 'grow',
                               'pyint']))
  ks = draw(st.lists(st.integers(1, 4), min_size=1, max_size=5))
  grads = [draw(steps.grads_strategy(tree)) for _ in range(n)]
  w = draw(specs.any_of(steps.INNER))
  if draw(st.integers(0, 5)) == 0:
    # A NaN belongs to its window: the next one starts afresh.
    w = draw(specs.any_of(['identity', 'scale', 'zero_nans', 'toggle',
                           'scale_by_schedule', 'anchored', 'sgd', 'clip']))
    t = draw(st.integers(0, n - 1))
    grads[t] = steps.poison(grads[t], draw(st.integers(0, 20)), 'nan')
  return {'tree': tree, 'kind': kind, 'ks': ks,
          'mean': draw(st.sampled_from([True, False, None])),
          'w': w, 'object': draw(st.booleans()), 'eager': n <= 3 and draw(
              st.booleans()),
          'pass_params': draw(st.booleans()),
          'grads': grads,
          'params': [draw(gens.leaf_values(tree, ['unit', 'pos']))
                     for _ in range(n)]}


def length(case, step):
  ks = case['ks']
  if case['kind'] in ('int', 'pyint'):
    return ks[0]
  if case['kind'] == 'table':
    return ks[min(step, len(ks) - 1)]
  return ks[0] + step  # grow


def run(case, ctx):
  tree, w = case['tree'], case['w']
  n = len(tree['shapes'])
  ctx.label('kind:' + case['kind'], 'name:' + w['name'],
            'mean:%s' % case['mean'], 'nan:%s' % any(
                np.isnan(v) for g in case['grads'] for leaf in g for v in leaf))
  ks = case['ks']
  every = {'int': ks[0], 'pyint': lambda step: ks[0],
           'table': lambda step: jnp.asarray(ks)[jnp.minimum(
               step, len(ks) - 1)],
           'grow': lambda step: step + ks[0]}[case['kind']]
  mean = case['mean'] is not False
  ms = (optax.MultiSteps(specs.make(w), every) if case['mean'] is None
        else optax.MultiSteps(specs.make(w), every, use_grad_mean=mean))
  tx = ms if case['object'] else ms.gradient_transformation()
  inner = specs.make(w)
  jt = lambda v: gens.jax_tree(tree, v)
  p0 = jt(case['params'][0])
  s, ref = tx.init(p0), inner.init(p0)
  gens.check(not bool(ms.has_updated(s)), 'has_updated initially')
  update, step = tx.update, inner.update
  if not case['eager']:
    update, step = jax.jit(update), jax.jit(step)
  what = f'MultiSteps({w}, {case["kind"]} {ks}, mean={mean})'
  rtol = steps.rtol(w)
  window, done, emitted = [], 0, 0
  for t, v in enumerate(case['grads']):
    g, p = jt(v), jt(case['params'][t])
    args = (p,) if (case['pass_params'] or specs.needs_params(w)) else ()
    u, s = update(g, s, *args)
    gens.unbuild(u, tree['layout'], n)
    window.append(gens.np_leaves(tree, v))
    k = length(case, done)
    if len(window) < k:
      steps.zeros(u, f'{what}: update {t} ({len(window)} of {k})')
    else:
      total = [sum(x[i] for x in window) for i in range(n)]
      if mean:
        total = [x / k for x in total]
      agg = gens.build(tree['layout'], [jnp.asarray(x) for x in total])
      want, ref = step(agg, ref, *args)
      steps.same(u, want, f'{what}: update {t}, gradient step {done}', rtol)
      done, window, emitted = done + 1, [], emitted + 1
    steps.same(s.inner_opt_state, ref, f'{what}: inner state after {t}',
               rtol)
    gens.check(int(s.mini_step) == len(window)
               and int(s.gradient_step) == done,
               f'{what}: mini_step {s.mini_step}, gradient_step '
               f'{s.gradient_step} after {t}, expected {len(window)}, {done}')
    gens.check(bool(ms.has_updated(s)) == (not window),
               f'{what}: has_updated is {ms.has_updated(s)} after update {t}')
  ctx.nontrivial(emitted and emitted < len(case['grads']))
  ctx.label('emitted:%d' % min(emitted, 6))


LEGS = [Leg('machine', case, run, 640),
        longrun.leg(['multi_steps'])]
