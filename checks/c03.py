"""C03: AdaBelief, Yogi, RAdam."""
from hypothesis import strategies as st
import numpy as np

from vf import core
from vf import gens
from vf import hist
from vf import optcheck
from vf import refs
from vf import spec as specs
from vf.core import Leg

ID = 'C03'
RULE = optcheck.RULE
NAMES = ['scale_by_belief', 'adabelief', 'scale_by_yogi', 'yogi',
         'scale_by_radam', 'radam', 'radam']


def known(case, ctx, got, dts=None):
  """The listed defect of Yogi: its second moment, exactly as built."""
  if case['spec']['name'] not in ('scale_by_yogi', 'yogi'):
    return False
  want = hist.run_model(case, specs.model(case['spec'], as_built=True))
  try:
    if dts is None:
      hist.compare(case, got, want)
    else:
      for a, b in zip(got, want):
        for x, y, d in zip(a, b, dts):
          rtol, atol = optcheck.LOW[d]
          gens.close(x, y, 2 * rtol, 2 * atol * max(
              [1e-3] + [abs(v) for v in y.ravel()]), 'as built')
  except core.Violation:
    return False
  return ctx.known_finding('yogi-second-moment')


@st.composite
def low(draw):
  s = draw(specs.any_of(NAMES))
  s['kw'].update(b1=draw(st.sampled_from([0.0, 0.5, 0.9])),
                 b2=draw(st.sampled_from([0.75, 0.9])),
                 eps=draw(st.sampled_from([1e-3, 1e-2])))
  s['kw'].pop('eps_root', None)
  if 'threshold' in s['kw']:
    s['kw']['threshold'] = 4.5
  return s


def steps_of(case):
  return case['steps'] if 'steps' in case else len(case['grads'])


def no_tie(case):
  s = case['spec']
  if 'radam' not in s['name']:
    return True
  return refs.radam_margin(s['kw'].get('b2', 0.999),
                           s['kw'].get('threshold', 5.0),
                           steps_of(case)) > 1e-7


def guarded(run):
  def inner(case, ctx, **k):
    if not no_tie(case):
      ctx.label('tie')
      return
    s = case['spec']
    if 'radam' in s['name']:
      b2, thr = s['kw'].get('b2', 0.999), s['kw'].get('threshold', 5.0)
      inf = 2 / (1 - b2) - 1
      rect = [inf - 2 * t * b2 ** t / (1 - b2 ** t) >= thr
              for t in range(1, steps_of(case) + 1)]
      ctx.label('radam:' + ('switches' if len(set(rect)) > 1 else
                            'rectified' if rect[0] else 'plain'))
    run(case, ctx, **k)
  return inner


LEGS = optcheck.legs(NAMES, 1600, known=known, low_specs=low(), max_steps=9)




@st.composite
def low_case(draw, ctx):
  c = draw(optcheck.low_case(ctx, low()))
  if 'yogi' in c['spec']['name']:
    # The sign of v - g^2 is not a continuous function.
    c['dtypes'] = ['float32'] * len(c['dtypes'])
  return c


LEGS[-1] = Leg('low', low_case, LEGS[-1].run, 240, x64=False)
for _leg in LEGS:
  _leg.run = guarded(_leg.run)
YOGI = {
    'tree': {'layout': 'list', 'shapes': [[2]]},
    'spec': {'name': 'scale_by_yogi', 'kw': {}},
    'grads': [[[2.0, 0.5]], [[1.0, -0.25]], [[0.5, 3.0]]],
    'params': [[0.0, 0.0]], 'pass_params': 0, 'run': 'eager', 'np': 0}
LEGS[0].explicit = [YOGI]
