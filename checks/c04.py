"""C04: RMSProp, Adagrad, SM3."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from vf import gens
from vf import hist
from vf import optcheck
from vf import spec as specs
from vf.core import Leg

ID = 'C04'
RULE = optcheck.RULE
NAMES = ['scale_by_rms', 'scale_by_stddev', 'scale_by_rss', 'scale_by_sm3',
         'scale_by_sm3', 'rmsprop', 'rmsprop', 'adagrad', 'sm3']


@st.composite
def low(draw):
  s = draw(specs.any_of([n for n in NAMES if n != 'scale_by_stddev']))
  k = s['kw']
  k.pop('centered', None)
  if 'eps' in k or s['name'] not in ('sm3',):
    k['eps'] = draw(st.sampled_from([1e-3, 1e-2]))
  for d in ('decay', 'b1', 'b2'):
    if d in k and k[d] != 1.0:
      k[d] = draw(st.sampled_from([0.5, 0.75]))
  if s['name'].endswith('sm3'):
    k.pop('b2', None)
  return s


@st.composite
def finite_case(draw, ctx):
  """Nearly constant gradients of any magnitude, in 32 bits."""
  name = draw(st.sampled_from(['scale_by_stddev', 'rmsprop', 'scale_by_rms',
                               'scale_by_rss', 'scale_by_sm3']))
  s = {'name': name, 'kw': {}}
  if name == 'rmsprop':
    s['kw'] = {'centered': True}
    s['lr'] = {'k': 'float', 'v': 0.1}
  if name in ('rmsprop', 'scale_by_stddev', 'scale_by_rms'):
    s['kw']['decay'] = draw(specs.DECAY)
  base = draw(gens.values(12, ['unit', 'wide', 'int']))
  kind = draw(st.sampled_from(['constant', 'wobble', 'two']))
  steps = draw(st.integers(2, 60))
  return {'spec': s, 'base': base, 'kind': kind, 'steps': steps,
          'factor': draw(st.sampled_from([1.0, 1e3, 1e-3]))}


_STEP = {}


def run_finite(case, ctx):
  tx = specs.make(case['spec'])
  key = str(case['spec'])
  if key not in _STEP:
    if len(_STEP) > 64:
      _STEP.clear()
    _STEP[key] = jax.jit(tx.update)
  g0 = np.asarray(case['base'], np.float32) * np.float32(case['factor'])
  state = tx.init(jnp.asarray(g0))
  ctx.label('finite:' + case['kind'])
  ctx.nontrivial(np.any(g0 != 0))
  for t in range(case['steps']):
    g = g0
    if case['kind'] == 'wobble':
      g = g0 * np.float32(1 + 1e-6 * (t % 3))
    elif case['kind'] == 'two' and t % 2:
      g = -g0
    u, state = _STEP[key](jnp.asarray(g), state)
    gens.check(np.isfinite(np.asarray(u)).all(),
               f'{case["spec"]}: update {t} is {np.asarray(u).tolist()} for '
               f'the finite gradients {g.tolist()}')


LEGS = optcheck.legs(NAMES, 1800, low_specs=low()) + [
    Leg('finite', finite_case, run_finite, 320, x64=False)]
