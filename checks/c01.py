"""C01: momentum, EMA and SGD follow their recursions."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import optax

from vf import gens
from vf import hist
from vf import optcheck
from vf import spec as specs
from vf.core import Leg

ID = 'C01'
RULE = optcheck.RULE
NAMES = ['trace', 'trace', 'ema', 'ema', 'sgd', 'sgd', 'sgd']

TOL = {'float32': (1e-5, 1e-6), 'bfloat16': (0.05, 0.03)}


@st.composite
def acc_case(draw, ctx):
  c = draw(hist.case(ctx, specs.any_of(['trace', 'ema']), 6, npool=4,
                     grad_modes=['away', 'pos', 'unit']))
  c['x64'] = draw(st.booleans())
  c['acc'] = draw(st.sampled_from(['float32', 'bfloat16']))
  c['np'] = 0
  c['dtype'] = draw(st.sampled_from(
      ['float64', 'float32'] if c['x64'] else ['float32']))
  if c['acc'] == 'bfloat16':
    c['dtype'] = draw(st.sampled_from([c['dtype'], 'bfloat16']))
  return c


def run_acc(case, ctx):
  """With an accumulator dtype: the state is kept in it, the values agree."""
  hist.classify(case, ctx)
  ctx.label('acc:' + case['acc'])
  tree = case['tree']
  n = len(tree['shapes'])
  acc = jnp.dtype(case['acc'])
  tx = specs.make(case['spec'], accumulator_dtype=acc)
  dts = [case['dtype']] * n
  jt = lambda v: gens.jax_tree(tree, v, dts)
  state = tx.init(jt(case['params']))
  want = hist.run_model(case)
  rtol, atol = TOL[case['acc']]
  scale = 0.0

  def check_state(when):
    for x in jax.tree_util.tree_leaves(state):
      if jnp.issubdtype(x.dtype, jnp.floating):
        gens.check(x.dtype == acc, f'{case["spec"]}: accumulator has dtype '
                   f'{x.dtype} {when}, not {acc}')
  check_state('after init')
  for t, g in enumerate(case['grads']):
    u, state = tx.update(jt(g), state)
    check_state(f'after update {t}')
    for i, (x, y) in enumerate(zip(
        gens.unbuild(u, tree['layout'], n), want[t])):
      scale = max([scale] + [abs(v) for v in y.ravel()])
      gens.close(x, y, rtol, 2 * atol * scale,
                 f'{case["spec"]} accumulating {case["dtype"]} in {acc}: '
                 f'update {t} of leaf {i}')
      if not t:
        # The accumulator holds zeros: its precision does not matter yet.
        fine = TOL[case['dtype'] if case['dtype'] in TOL else 'float32']
        gens.close(x, y, fine[0], 2 * fine[1] * scale,
                   f'{case["spec"]} accumulating {case["dtype"]} in {acc}: '
                   f'first update of leaf {i}')


LEGS = optcheck.legs(NAMES, 1800, low_specs=specs.any_of(NAMES)) + [
    Leg('accumulator', acc_case, run_acc, 240, x64=None)]
