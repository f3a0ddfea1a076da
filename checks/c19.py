"""C19: apply_if_finite."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from vf import core
from vf import gens
from vf import longrun
from vf import spec as specs
from vf import steps
from vf.core import Leg

ID = 'C19'
RULE = ('A case is an inner transformation, a limit from 0 to 4 and a history '
        'of up to 14 gradients of which any may hold one NaN or infinity at '
        'any position (with runs below, at and above the limit); state and '
        'updates are compared with a model that runs the inner transformation '
        'on the accepted gradients only. Non-trivial: a bad gradient and a '
        'finite one.')


@st.composite
def case(draw, ctx):
  tree = draw(gens.tree_spec(ctx, 3, steps.SHAPES, npool=3))
  n = draw(st.integers(1, 14))
  limit = draw(st.integers(0, 4))
  # Runs of good and bad gradients.
  bad = []
  while len(bad) < n:
    bad += [0] * draw(st.integers(0, 3))
    bad += [1] * draw(st.sampled_from([1, 1, limit, limit + 1, limit + 2]))
  bad = bad[:n]
  grads = []
  for b in bad:
    g = draw(steps.grads_strategy(tree))
    if b:
      g = steps.poison(g, draw(st.integers(0, 30)),
                       draw(st.sampled_from(['nan', 'inf', '-inf'])))
    grads.append(g)
  return {'tree': tree, 'limit': limit, 'grads': grads, 'bad': bad,
          'w': draw(specs.any_of(steps.INNER)),
          'dtype': draw(st.sampled_from(['float64', 'float64', 'float32',
                                         'bfloat16'])),
          'params': draw(gens.leaf_values(tree, ['unit', 'pos'])),
          'eager': n <= 3 and draw(st.booleans())}


def run(case, ctx):
  tree, w, limit, d = case['tree'], case['w'], case['limit'], case['dtype']
  n = len(tree['shapes'])
  ctx.label('limit:%d' % limit, 'name:' + w['name'], 'dtype:' + d)
  ctx.nontrivial(0 < sum(case['bad']) < len(case['bad']))
  inner = specs.make(w)
  tx = optax.apply_if_finite(specs.make(w), limit)
  jt = lambda v: gens.jax_tree(tree, v, [d] * n)
  p = jt(case['params'])
  s = tx.init(p)
  ref = inner.init(p)
  run_bad = total = 0
  update, step = tx.update, inner.update
  if not case['eager']:
    update, step = jax.jit(update), jax.jit(step)
  rtol = {'float64': steps.rtol(w), 'float32': 1e-4,
          'bfloat16': 5e-2}[d]
  what = f'apply_if_finite({w}, {limit}), gradients bad at {case["bad"]}'
  same = lambda a, b, m: steps.same(a, b, f'{what}: {m}', rtol)
  gens.check(int(s.notfinite_count) == 0 and int(s.total_notfinite) == 0
             and bool(s.last_finite), f'{what}: initial counters')
  for t, v in enumerate(case['grads']):
    g = jt(v)
    old = s
    u, s = update(g, s, p)
    gens.unbuild(u, tree['layout'], n)
    if case['bad'][t]:
      run_bad, total = run_bad + 1, total + 1
    else:
      run_bad = 0
    if case['bad'][t] and run_bad <= limit:
      ctx.label('rejected')
      steps.zeros(u, f'{what}: update {t}')
      same(s.inner_state, old.inner_state, f'inner state after {t} (rejected)')
    else:
      ctx.label('gave up' if case['bad'][t] else 'accepted')
      want, ref = step(g, ref, p)
      same(u, want, f'update {t}')
    same(s.inner_state, ref, f'inner state after {t}')
    got = (int(s.notfinite_count), int(s.total_notfinite),
           bool(s.last_finite))
    gens.check(got == (run_bad, total, not case['bad'][t]),
               f'{what}: counters {got} after {t}, expected '
               f'{(run_bad, total, not case["bad"][t])}')


@st.composite
def edge_case(draw, ctx):
  """Finite gradients at the limits of their type, and bad ones among them."""
  d = draw(st.sampled_from(['float64', 'float32', 'bfloat16', 'float16']))
  shapes = draw(st.lists(st.sampled_from([[], [1], [2], [7], [2, 3], [40]]),
                         min_size=1, max_size=4))
  n = sum(gens.size(x) for x in shapes)
  return {'d': d, 'shapes': shapes,
          'layout': draw(st.sampled_from(gens.LAYOUTS)),
          'limit': draw(st.integers(1, 3)),
          'steps': [[draw(st.sampled_from(['max', '-max', 'both', 'tiny',
                                           'zero', 'half', 'mixed'])),
                     draw(st.sampled_from(['', '', '', 'nan', 'inf', '-inf'])),
                     draw(st.integers(0, n - 1))]
                    for _ in range(draw(st.integers(1, 5)))],
          'rng': draw(st.integers(0, 99)), 'jit': draw(st.booleans())}


def run_edge(case, ctx):
  d, shapes = jnp.dtype(case['d']), case['shapes']
  info = jnp.finfo(d)
  rng = np.random.default_rng(case['rng'])
  tx = optax.apply_if_finite(optax.scale(-0.5), case['limit'])
  update = jax.jit(tx.update) if case['jit'] else tx.update
  top, small = float(info.max), float(info.tiny)
  state, bad = None, 0
  for kind, poison, at in case['steps']:
    n = sum(gens.size(x) for x in shapes)
    pick = lambda *v: rng.choice(np.asarray(v), size=n)
    flat = {'max': lambda: pick(top), '-max': lambda: pick(-top),
            'both': lambda: pick(top, -top), 'tiny': lambda: pick(
                small, -small), 'zero': lambda: pick(0.0, -0.0),
            'half': lambda: pick(top / 2, -top / 4),
            'mixed': lambda: pick(top, -top, small, 0.0, 1.0)}[kind]()
    if poison:
      flat[at] = float(poison)
    leaves, i = [], 0
    for x in shapes:
      leaves.append(jnp.asarray(flat[i:i + gens.size(x)].reshape(x), d))
      i += gens.size(x)
    g = gens.build(case['layout'], leaves)
    state = tx.init(g) if state is None else state
    u, state = update(g, state)
    bad = bad + 1 if poison else 0
    what = (f'apply_if_finite(scale(-0.5), {case["limit"]}) of {case["d"]} '
            f'gradients {flat.tolist()}')
    gens.check(bool(state.last_finite) == (not poison)
               and int(state.notfinite_count) == bad, f'{what}: last_finite '
               f'{state.last_finite}, count {state.notfinite_count}')
    keep = not poison or bad > case['limit']
    for x, y in zip(leaves, gens.unbuild(u, case['layout'], len(shapes))):
      gens.close(y, gens.f64(x) * -0.5 if keep else np.zeros(x.shape), 0,
                 2 * small, what)
    ctx.label('kind:' + kind)
  ctx.nontrivial(any(k not in ('zero',) for k, _, _ in case['steps']))


LEGS = [Leg('edge', edge_case, run_edge, 240),
        Leg('machine', case, run, 560),
        longrun.leg(['apply_if_finite'])]
