"""C05: LAMB, Fromage, trust ratio."""
from hypothesis import strategies as st
import numpy as np
import optax

from vf import gens
from vf import hist
from vf import optcheck
from vf import spec as specs
from vf.core import Leg

ID = 'C05'
RULE = optcheck.RULE + (
    ' Parameters and gradients are all-zero in some layers, and norms are '
    'drawn on both sides of min_norm.')
NAMES = ['scale_by_trust_ratio', 'scale_by_trust_ratio', 'lamb', 'lamb',
         'fromage', 'fromage']


@st.composite
def low(draw):
  s = draw(specs.any_of(NAMES))
  k = s['kw']
  if s['name'] == 'lamb':
    k.update(b1=draw(st.sampled_from([0.0, 0.5, 0.9])),
             b2=draw(st.sampled_from([0.5, 0.9, 0.99, 0.999])),
             eps=draw(st.sampled_from([1e-3, 1e-2, 1e-6])))
    k.pop('eps_root', None)
  return s


@st.composite
def norm_case(draw, ctx):
  """Layers with norms exactly at, below or above min_norm, or zero."""
  tree = draw(gens.tree_spec(ctx, 3, npool=6))
  min_norm = draw(st.sampled_from([0.0, 0.0, 1.0, 0.5, 1e-6]))

  def layer(shape):
    v = draw(gens.values(gens.size(shape), ['unit', 'sparse', 'zero', 'wide']))
    kind = draw(st.sampled_from(['as is', 'as is', 'at', 'small', 'zero']))
    norm = float(np.sqrt(np.sum(np.square(v))))
    if kind == 'zero' or norm == 0:
      return [0.0] * len(v)
    if kind == 'at' and min_norm:
      return [min_norm if i == 0 else 0.0 for i in range(len(v))]
    if kind == 'small':
      return [1e-7 * x for x in v]
    return v
  name = draw(st.sampled_from(['scale_by_trust_ratio', 'fromage', 'lamb']))
  spec = draw(specs.strategy(name))
  if name == 'lamb':
    # Without eps_root, eps and gradients of 1e-7 the direction is stable.
    spec['kw'] = {'weight_decay': draw(st.sampled_from([0.0, 0.5]))}
  else:
    spec['kw'] = {'min_norm': min_norm}
  steps = draw(st.integers(1, 3))
  return {'tree': tree, 'spec': spec, 'run': 'eager',
          'grads': [[layer(s) for s in tree['shapes']]
                    for _ in range(steps)],
          'params': [[layer(s) for s in tree['shapes']]
                     for _ in range(steps)]}


def run_norms(case, ctx):
  zero = lambda v: not any(v)
  for g, p in zip(case['grads'], case['params']):
    for a, b in zip(g, p):
      ctx.label('zero:%s/%s' % ('g' if zero(a) else '-',
                                'p' if zero(b) else '-'))
  optcheck.run_history(case, ctx)


LEGS = optcheck.legs(NAMES, 1400, low_specs=low()) + [
    Leg('norms', norm_case, run_norms, 800)]
