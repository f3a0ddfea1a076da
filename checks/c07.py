"""C07: elementary schedules."""
import math

import jax
import jax.numpy as jnp
import numpy as np

from vf import core
from vf import gens
from vf import sched
from vf.core import Leg

ID = 'C07'
RULE = ('A case is a schedule with drawn parameters and 4-12 step counts, '
        'drawn around the points where the schedule changes, small, or '
        'anywhere up to 2^31-1, passed as Python, NumPy or JAX integers, '
        'eagerly or batched; "dense" cases take all the steps of a window. '
        'Non-trivial: the schedule is not constant on the drawn steps.')


def evaluate(case, fn):
  """[(count, value)] for all counts of the case."""
  counts = case['counts']
  mode = case['as']
  if mode == 'dense':
    start = min(counts)
    counts = [c for c in range(start, start + 40) if c <= sched.MAX]
  if mode in ('vmap', 'dense'):
    out = jax.vmap(lambda c: jnp.asarray(fn(c)))(jnp.asarray(counts,
                                                             jnp.int32))
    gens.check(out.shape == (len(counts),), f'shape {out.shape}')
    return list(zip(counts, np.asarray(out)))
  conv = {'int': int, 'np': np.int32,
          'jnp': lambda c: jnp.asarray(c, jnp.int32)}[mode]
  return [(c, fn(conv(c))) for c in counts]


def run(case, ctx):
  spec = case['spec']
  ctx.label('kind:' + spec['k'], 'as:' + case['as'],
            'x64:%s' % case['x64'])
  fn = sched.make(spec)
  seen = set()
  for c, v in evaluate(case, fn):
    gens.check(np.shape(v) == (), f'{spec} at {c}: shape {np.shape(v)}')
    v = float(v)
    lo, hi = sched.interval(spec, c)
    seen.add(round(lo, 9))
    ctx.label('count:' + ('<100' if c < 100 else '<1e6' if c < 1e6
                          else 'large'))
    if not lo <= v <= hi:
      raise core.Violation(
          f'{spec} at step {c} (as {case["as"]}): {v!r}, expected '
          f'[{lo!r}, {hi!r}]')
    if math.isfinite(lo) and math.isfinite(hi):
      gens.check(math.isfinite(v), f'{spec} at {c} is {v}')
  ctx.nontrivial(len(seen) > 1)


LEGS = [Leg('values', lambda ctx: sched.case(sched.elementary()), run, 6000,
            x64=None)]
