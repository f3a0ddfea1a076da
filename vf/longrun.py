"""Runs of up to 70000 steps through wrappers that count, against loops.

What a wrapper counts (steps, bad gradients, windows) must survive any
representation: the runs are longer than any 8- or 16-bit counter.
"""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from vf import gens
from vf.core import Leg

LENGTHS = st.one_of(st.integers(100, 700), st.integers(300, 3000),
                    st.integers(66000, 70000))


@st.composite
def case_of(draw, kinds):
  kind = draw(st.sampled_from(kinds))
  steps = draw(LENGTHS)
  at = st.one_of(st.integers(1, steps), st.integers(1, 6),
                 st.sampled_from([127, 128, 255, 256, 257, 32768, 65536]))
  c = {'kind': kind, 'steps': steps,
       'grads': draw(st.lists(st.integers(-3, 5), min_size=1, max_size=5)),
       'k': draw(at), 'a': draw(at), 'b': draw(at)}
  if kind == 'apply_if_finite':
    c['a'] = draw(st.integers(0, 7))
    c['k'] = draw(st.one_of(st.integers(0, 5), at))
  return c


def _k(c, i):
  """The length of window i of a MultiSteps run."""
  return c['k'] if i < c['a'] else 1 + c['b'] % 5


def optax_run(c):
  """The updates (and what the state says) of every step."""
  n, kind = c['steps'], c['kind']
  p = jnp.asarray(0.0)
  if kind == 'maybe_update':
    tx = optax.maybe_update(
        optax.scale(-2.0), lambda s: jnp.logical_or(
            s == c['k'], jnp.logical_and(s >= c['a'], s < c['b'])))
    extra = lambda s, s0: s.step
  elif kind == 'apply_every':
    tx, extra = optax.apply_every(c['k']), lambda s, s0: 0
  elif kind == 'lookahead':
    tx = optax.lookahead(optax.scale(-1.0), c['k'], 0.5)
    p = optax.LookaheadParams.init_synced(p)
    extra = lambda s, s0: s.steps_since_sync
  elif kind == 'apply_if_finite':
    tx = optax.apply_if_finite(optax.scale(-1.0), c['k'])
    extra = lambda s, s0: (s.total_notfinite, s.notfinite_count)
  else:
    ms = optax.MultiSteps(optax.scale(-1.0), lambda i: jnp.where(
        i < c['a'], c['k'], 1 + c['b'] % 5), use_grad_mean=False)
    tx = ms.gradient_transformation()
    extra = lambda s, s0: (s.gradient_step, s.mini_step, ms.has_updated(s))
  g = jnp.asarray(c['grads'], jnp.float64)
  bad = c['a'] if kind == 'apply_if_finite' else 0

  def body(carry, t):
    s, p = carry
    x = g[t % len(c['grads'])]
    if bad:  # all but each bad-th gradient are not finite
      x = jnp.where(t % bad == 0, x, jnp.nan)
    u, s1 = tx.update(x, s, p)
    q = optax.apply_updates(p, u) if kind == 'lookahead' else p
    return (s1, q), (u, extra(s1, s))
  _, out = jax.jit(lambda s: jax.lax.scan(body, (s, p), jnp.arange(n)))(
      tx.init(p))
  return [np.asarray(x, np.float64) for x in jax.tree_util.tree_leaves(out)]


def model_run(c):
  n, kind = c['steps'], c['kind']
  gs = [float(c['grads'][t % len(c['grads'])]) for t in range(n)]
  rows = []
  if kind == 'maybe_update':
    for t, g in enumerate(gs):
      on = t == c['k'] or c['a'] <= t < c['b']
      rows.append((-2 * g if on else g, t + 1))
  elif kind == 'apply_every':
    acc = 0.0
    for t, g in enumerate(gs):
      acc = (0.0 if t % c['k'] == 0 else acc) + g
      rows.append((acc if t % c['k'] == c['k'] - 1 else 0.0, 0))
  elif kind == 'lookahead':
    fast = slow = 0.0
    for t, g in enumerate(gs):
      if t % c['k'] == c['k'] - 1:
        new = slow + 0.5 * (fast - g - slow)
        rows.append((new - fast, new - slow, (t + 1) % c['k']))
        fast = slow = new
      else:
        rows.append((-g, 0.0, (t + 1) % c['k']))
        fast -= g
  elif kind == 'apply_if_finite':
    total = now = 0
    for t, g in enumerate(gs):
      if c['a'] and t % c['a']:
        g, total, now = np.nan, total + 1, now + 1
        rows.append((g if now > c['k'] else 0.0, total, now))
      else:
        now = 0
        rows.append((-g, total, now))
  else:
    acc, i, mini = 0.0, 0, 0
    for g in gs:
      acc, mini = acc + g, mini + 1
      if mini >= _k(c, i):
        rows.append((-acc, i + 1, 0, 1))
        acc, i, mini = 0.0, i + 1, 0
      else:
        # has_updated also tells of the initial state.
        rows.append((0.0, i, mini, 0))
  return np.asarray(rows, np.float64).T


def run(case, ctx):
  got, want = optax_run(case), model_run(case)
  ctx.label('long:' + case['kind'],
            'long:16 bits' if case['steps'] > 65536 else 'long:8 bits')
  ctx.nontrivial(case['steps'] > 256 and any(case['grads']))
  gens.check(len(got) == len(want), f'{case}: {len(got)} outputs')
  for j, (a, b) in enumerate(zip(got, want)):
    scale = max(1.0, np.abs(b[np.isfinite(b)]).max()) if len(b) else 1.0
    bad = ~((np.abs(a - b) <= 1e-9 * scale) | (np.isnan(a) & np.isnan(b)))
    if bad.any():
      t = int(np.argmax(bad))
      gens.check(False, f'{case}: step {t} of {case["steps"]}: output {j} is '
                 f'{a[t]}, expected {b[t]}')


def leg(kinds, quick=48):
  return Leg('counts', lambda ctx: case_of(kinds), run, quick, quick * 10)


@st.composite
def cycle_case(draw):
  return {'kind': draw(st.sampled_from(['apply_every', 'lookahead'])),
          'k': draw(st.integers(2, 9)), 'phase': draw(st.integers(0, 8)),
          'below': draw(st.integers(0, 20)),
          'grads': draw(st.lists(st.integers(-3, 5), min_size=1, max_size=5))}


def run_cycle(case, ctx):
  """A counter that is seen to count all steps is taken to the largest int.

  After n steps a periodic transformation may hold the phase only, or the
  number of steps; in the latter case it must go on working at that limit.
  """
  top, k = 2 ** 31 - 1, case['k']
  n = 2 * k + case['phase']
  c = dict(case, steps=n + 3 * k + 25)
  p = jnp.asarray(0.0)
  if case['kind'] == 'apply_every':
    tx = optax.apply_every(k)
  else:
    tx = optax.lookahead(optax.scale(-1.0), k, 0.5)
    p = optax.LookaheadParams.init_synced(p)
  want = model_run(c)
  s = tx.init(p)
  seen = []
  for t in range(c['steps']):
    if t == n:
      flat, treedef = jax.tree_util.tree_flatten(s)
      for i, x in enumerate(flat):
        if (jnp.issubdtype(x.dtype, jnp.integer) and x.ndim == 0 and
            int(x) == n and seen and [r[i] for r in seen[-3:]] == [
                n - 3, n - 2, n - 1]):
          v = top - case['below']
          flat[i] = jnp.asarray(v - (v - n) % k, x.dtype)
          ctx.label('cycle:counts all steps')
      s = jax.tree_util.tree_unflatten(treedef, flat)
    seen.append([float(x) for x in jax.tree_util.tree_leaves(s)])
    u, s = tx.update(jnp.asarray(float(c['grads'][t % len(c['grads'])])), s, p)
    if case['kind'] == 'lookahead':
      p = optax.apply_updates(p, u)
      a, b = [float(u.fast), float(u.slow)], want[:2, t]
    else:
      a, b = [float(u)], want[:1, t]
    gens.close(a, b, 1e-9, 1e-9, f'{case}: update {t}')
  ctx.label('cycle:' + case['kind'])
  ctx.nontrivial(any(case['grads']))


CYCLE = Leg('cycle', lambda ctx: cycle_case(), run_cycle, 96)
