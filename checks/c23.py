"""C23: lookahead."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from vf import core
from vf import gens
from vf import longrun
from vf import spec as specs
from vf import steps
from vf.core import Leg

ID = 'C23'
RULE = ('A case is a fast optimiser, a period 1-5, a slow step size, reset or '
        'not, and a history of up to 14 gradients (sometimes with a non-finite '
        'one); the pair of parameters is compared at every step with two '
        'nested loops around the fast optimiser; or a pair of '
        'different types. Non-trivial: a '
        'synchronisation and a step without one, and a non-zero gradient.')
FAST = ['trace', 'adam', 'adamw', 'sgd', 'sgd', 'add_decayed_weights',
        'scale_by_schedule', 'apply_every', 'scale', 'add_noise', 'adagrad',
        'lamb', 'rmsprop', 'scale_by_trust_ratio', 'fromage', 'radam', 'sm3',
        'anchored', 'anchored', 'toggle']


@st.composite
def case(draw, ctx):
  tree = draw(gens.tree_spec(ctx, 2, steps.SHAPES, npool=3))
  n = draw(st.integers(1, 14))
  grads = [draw(steps.grads_strategy(tree)) for _ in range(n)]
  if draw(st.integers(0, 4)) == 0:
    t = draw(st.integers(0, n - 1))
    grads[t] = steps.poison(grads[t], draw(st.integers(0, 20)),
                            draw(st.sampled_from(['nan', 'inf'])))
  w = draw(specs.any_of(FAST))
  # It is not said which parameters a reset hands to init: no anchor then.
  resets = [None, False] if w['name'] == 'anchored' else [
      None, False, True, True]
  return {'tree': tree, 'w': w,
          'period': draw(st.integers(1, 5)),
          'alpha': draw(st.one_of(gens.nice(0, 1), st.sampled_from(
              [0.5, 1.0, 0.0]))),
          'reset': draw(st.sampled_from(resets)),
          'init': draw(st.sampled_from(['pair', 'pair', 'plain'])),
          'slow': draw(st.sampled_from(['synced', 'apart'])),
          'eager': n <= 4 and draw(st.booleans()), 'grads': grads,
          'params': draw(gens.leaf_values(tree, ['unit', 'pos'])),
          'other': draw(gens.leaf_values(tree, ['unit', 'pos']))}


def run(case, ctx):
  tree, w = case['tree'], case['w']
  n = len(tree['shapes'])
  period, alpha, reset = case['period'], case['alpha'], bool(case['reset'])
  finite = all(np.isfinite(v) for g in case['grads'] for leaf in g
               for v in leaf)
  ctx.label('period:%d' % period, 'reset:%s' % reset, 'name:' + w['name'],
            'finite:%s' % finite)
  ctx.nontrivial(period > 1 and len(case['grads']) >= period and any(
      v for g in case['grads'] for leaf in g for v in leaf))
  fast_opt = specs.make(w)
  tx = optax.lookahead(
      specs.make(w), period, alpha,
      **({} if case['reset'] is None else {'reset_state': reset}))
  jt = lambda v: gens.jax_tree(tree, v)
  p = jt(case['params'])
  pair = optax.LookaheadParams.init_synced(p)
  if case['slow'] == 'apart':
    pair = optax.LookaheadParams(fast=p, slow=jt(case['other']))
  s = tx.init(pair if case['init'] == 'pair' else p)
  update, step = tx.update, fast_opt.update
  if not case['eager']:
    update, step = jax.jit(update), jax.jit(step)
  ref = fast_opt.init(pair.fast)
  steps.same(s.fast_state, ref, f'lookahead({w}): initial fast state')
  fast = [gens.f64(x) for x in gens.unbuild(pair.fast, tree['layout'], n)]
  slow = [gens.f64(x) for x in gens.unbuild(pair.slow, tree['layout'], n)]
  what = f'lookahead({w}, {period}, {alpha}, {case["reset"]})'
  rtol = steps.rtol(w)
  for t, v in enumerate(case['grads']):
    g = jt(v)
    u, s = update(g, s, pair)
    gens.check(isinstance(u, optax.LookaheadParams), f'{what}: {type(u)}')
    # The model: two nested loops.
    fp = gens.build(tree['layout'], [jnp.asarray(x) for x in fast])
    fu, ref = step(g, ref, fp)
    with np.errstate(all='ignore'):
      fast = [x + gens.f64(y) for x, y in zip(
          fast, gens.unbuild(fu, tree['layout'], n))]
      sync = (t + 1) % period == 0
      if sync:
        slow = [a + alpha * (b - a) for a, b in zip(slow, fast)]
        fast = [x.copy() for x in slow]
        if reset:
          ref = fast_opt.init(fp)
    ctx.label('sync' if sync else 'between')
    if not sync:
      steps.zeros(u.slow, f'{what}: slow update {t}')
    pair = optax.apply_updates(pair, u)
    for i in range(n):
      a = gens.f64(gens.unbuild(pair.slow, tree['layout'], n)[i])
      b = gens.f64(gens.unbuild(pair.fast, tree['layout'], n)[i])
      if not finite and sync:
        # inf - inf in the merged update: both are non-finite, that is all; the
        # model goes on from the kind of non-finite value it is.
        bad = ~np.isfinite(slow[i])
        gens.check((~np.isfinite(a[bad])).all() and
                   (~np.isfinite(b[bad])).all(),
                   f'{what}: slow {a} fast {b} after {t}')
        slow[i], fast[i] = np.where(bad, a, slow[i]), np.where(bad, b, fast[i])
      mag = 1e-2 * rtol * (1 + steps.top(slow[i]) + steps.top(fast[i]))
      gens.close(a, slow[i], rtol, mag, f'{what}: slow leaf {i} after {t}')
      gens.close(b, fast[i], rtol, mag, f'{what}: fast leaf {i} after {t}')
      # Go on from the checked values: no drift through discontinuities.
      slow[i], fast[i] = a, b
    if finite:
      steps.same(s.fast_state, ref, f'{what}: fast state after {t}',
                 max(rtol, 1e-6))
    else:
      steps_nonfinite(s.fast_state, ref, what)
    gens.check(int(s.steps_since_sync) == (t + 1) % period,
               f'{what}: steps_since_sync {s.steps_since_sync} after {t}')


def steps_nonfinite(a, b, what):
  for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)):
    ok = np.isfinite(gens.f64(y))
    gens.check(np.isfinite(gens.f64(x))[ok].all(), f'{what}: fast state {x}, '
               f'expected {y}')


# --- pairs of different types ------------------------------------------------

EPS = {'float16': 2e-3, 'bfloat16': 1.6e-2, 'float32': 3e-6}


@st.composite
def mixed_case(draw, ctx):
  tree = draw(gens.tree_spec(ctx, 2, steps.SHAPES, npool=3))
  types = [draw(st.sampled_from([
      ('bfloat16', 'float32'), ('float16', 'float32'), ('float32', 'bfloat16'),
      ('float32', 'float32'), ('bfloat16', 'bfloat16')]))
           for _ in tree['shapes']]
  grid = lambda top: [[draw(st.integers(-top, top)) / 8
                       for _ in range(gens.size(s))] for s in tree['shapes']]
  period = draw(st.integers(1, 4))
  return {'tree': tree, 'fast': [a for a, _ in types],
          'slow': [b for _, b in types], 'period': period,
          'alpha': draw(st.one_of(gens.nice(0, 1), st.sampled_from([0.5, 1.0]))),
          'p': grid(32), 'q': draw(gens.leaf_values(tree, ['unit', 'wide'])),
          'grads': [grid(8) for _ in range(period)],
          'lr': draw(st.sampled_from([1.0, -1.0])),
          'reset': draw(st.booleans()), 'jit': draw(st.booleans())}


def run_mixed(case, ctx):
  """A fast copy in low precision (where the sums here are exact) and a slow
  one in float32: each is as accurate as its own type allows."""
  tree, n = case['tree'], len(case['fast'])
  period, alpha = case['period'], case['alpha']
  jt = lambda v, d: gens.jax_tree(tree, v, d)
  out = lambda x: gens.unbuild(x, tree['layout'], n)
  pair = optax.LookaheadParams(fast=jt(case['p'], case['fast']),
                               slow=jt(case['q'], case['slow']))
  tx = optax.lookahead(optax.sgd(case['lr']), period, alpha, case['reset'])
  update = jax.jit(tx.update) if case['jit'] else tx.update
  s = tx.init(pair)
  f = [gens.f64(x) for x in out(pair.fast)]
  q = [gens.f64(x) for x in out(pair.slow)]
  ctx.label('types:%s/%s' % (case['fast'][0], case['slow'][0]))
  ctx.nontrivial(any(a != b for a, b in zip(case['fast'], case['slow'])))
  for t, v in enumerate(case['grads']):
    u, s = update(jt(v, case['fast']), s, pair)
    last = f
    f = [x - case['lr'] * gens.f64(g) for x, g in zip(
        f, out(jt(v, case['fast'])))]
    pair = optax.apply_updates(pair, u)
    want_f, want_q = f, q
    if t == period - 1:
      want_f = want_q = [a + alpha * (b - a) for a, b in zip(q, f)]
    for kind, got, want, types in (('fast', pair.fast, want_f, case['fast']),
                                   ('slow', pair.slow, want_q, case['slow'])):
      for i, x in enumerate(out(got)):
        gens.check(str(x.dtype) == types[i],
                   f'{kind} leaf {i} of {types} became {x.dtype}')
        size = np.abs(q[i]) + np.abs(f[i]) + np.abs(last[i])
        bad = ~(np.abs(gens.f64(x) - want[i]) <= EPS[types[i]] * size + (
            1e-7 if types[i] == 'float16' else 1e-30))
        gens.check(not bad.any(), f'{kind} leaf {i} ({types[i]}, fast '
                   f'{case["fast"]}, slow {case["slow"]}) after step {t} of '
                   f'{period}: {gens.f64(x).tolist()}, expected '
                   f'{want[i].tolist()}')


LEGS = [Leg('loops', case, run, 560),
        Leg('mixed', mixed_case, run_mixed, 240, x64=False),
        longrun.leg(['lookahead'])]
