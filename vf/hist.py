"""History checks: optax against a NumPy model, step by step."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from vf import gens
from vf import spec as specs


@st.composite
def case(draw, ctx, spec_strategy, max_steps=6, modes=None, max_leaves=3,
         shapes=None, grad_modes=None, param_modes=None, npool=6,
         layouts=gens.LAYOUTS, run=('eager',), as_numpy=True, min_steps=1):
  """One tree, one spec, one history of gradients and parameters."""
  tree = draw(gens.tree_spec(ctx, max_leaves, shapes, npool=npool,
                             layouts=layouts))
  steps = draw(st.integers(min_steps, max_steps))
  spec = draw(spec_strategy)
  mode = draw(st.sampled_from(grad_modes or gens.MODES))
  # Mixed modes: a history may be zero for a while, or constant.
  pattern = draw(st.sampled_from(['free', 'free', 'free', 'repeat', 'mixed',
                                  'gap']))
  grads = []
  for t in range(steps):
    if pattern == 'repeat' and t > 0:
      grads.append(grads[0])
    elif pattern == 'gap' and draw(st.booleans()):
      grads.append([[0.0] * gens.size(s) for s in tree['shapes']])
    else:
      grads.append(draw(gens.leaf_values(
          tree, (grad_modes or gens.MODES) if pattern == 'mixed' else mode)))
  out = {'tree': tree, 'spec': spec, 'grads': grads}
  if specs.needs_params(spec):
    out['params'] = [draw(gens.leaf_values(tree, param_modes))
                     for _ in range(steps)]
  else:
    out['params'] = draw(gens.leaf_values(tree, param_modes))
    out['pass_params'] = draw(st.sampled_from([0, 0, 1]))
  out['run'] = draw(st.sampled_from(run))
  if as_numpy:
    out['np'] = draw(st.sampled_from([0, 0, 0, 1]))
  return out


def param_seq(case_):
  """Parameters per step, as lists of flat leaves."""
  n = len(case_['grads'])
  p = case_['params']
  if specs.needs_params(case_['spec']):
    return p
  return [p] * n


def run_optax(case_, tx=None, dtypes=None):
  """The updates of every step: list over steps of lists of leaves."""
  tree = case_['tree']
  n = len(tree['shapes'])
  tx = tx or specs.make(case_['spec'])
  as_np = bool(case_.get('np'))
  jt = lambda v: gens.jax_tree(tree, v, dtypes, as_np)
  ps = param_seq(case_)
  state = tx.init(jt(ps[0]))
  update = tx.update
  if case_.get('run') == 'jit':
    update = jax.jit(tx.update)
  pass_params = specs.needs_params(case_['spec']) or case_.get('pass_params')
  outs = []
  for g, p in zip(case_['grads'], ps):
    if pass_params:
      u, state = update(jt(g), state, jt(p))
    else:
      u, state = update(jt(g), state)
    outs.append(gens.unbuild(u, tree['layout'], n))
  return outs


def run_model(case_, model=None):
  tree = case_['tree']
  model = model or specs.model(case_['spec'])
  ps = [gens.np_leaves(tree, p) for p in param_seq(case_)]
  state = model.init(ps[0])
  outs = []
  for g, p in zip(case_['grads'], ps):
    u, state = model.update(gens.np_leaves(tree, g), state, p)
    outs.append(u)
  return outs


def compare(case_, got, want, rtol=1e-8, atol=1e-11, what=''):
  """Elementwise agreement; atol is relative to the largest entry so far."""
  scale = 0.0
  if case_['spec'].get('lr', {}).get('k') == 'poly':
    # Built-in schedules compute with the float type of int32 / int32.
    rtol = max(rtol, 1e-5)
    atol = np.maximum(atol, 1e-6) if np.isscalar(atol) else [
        [a + 1e-6 for a in row] for row in atol]
  for t, (a, b) in enumerate(zip(got, want)):
    for i, (x, y) in enumerate(zip(a, b)):
      with np.errstate(all='ignore'):
        top = np.abs(y[np.isfinite(y)]).max() if y.size and np.isfinite(
            y).any() else 0.0
      scale = max(scale, float(top))
      at = atol * max(scale, 1e-3) if np.isscalar(atol) else atol[t][i]
      gens.close(x, y, rtol, at,
                 f'{what}{case_["spec"]}: update {t} of leaf {i} '
                 f'(shape {list(y.shape)})')


def interesting(case_):
  """Non-trivial: more than one step or leaf and some non-zero gradient."""
  nonzero = any(any(v != 0 for v in leaf) for g in case_['grads']
                for leaf in g)
  return nonzero and (len(case_['grads']) > 1
                      or len(case_['tree']['shapes']) > 1)


def classify(case_, ctx):
  ctx.label('name:' + case_['spec']['name'],
            'layout:' + case_['tree']['layout'],
            'steps:%d' % min(len(case_['grads']), 9),
            'leaves:%d' % len(case_['tree']['shapes']))
  for s in case_['tree']['shapes']:
    ctx.label('rank:%d' % len(s))
  lr = case_['spec'].get('lr')
  if lr:
    ctx.label('lr:' + lr['k'])
  ctx.nontrivial(interesting(case_))
