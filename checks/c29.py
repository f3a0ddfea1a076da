"""C29: hvp, hessian_diag, fisher_diag."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from vf import gens
from vf import ridge
from vf.core import Leg

ID = 'C29'
RULE = ('A case is a loss (sums of lin, square, cube, sin, exp and tanh ridge '
        'terms in parameters and inputs, weighted by the targets; or a '
        'two-layer network), a tree of parameters, a vector, inputs and '
        'targets; results are compared with the dense derivatives known in '
        'closed form (for networks: jax.hessian of the flat loss). '
        'Non-trivial: two parameters or more and a Hessian that is not '
        'diagonal.')
SHAPES = [(), (1,), (3,), (2, 2), (1, 2), (0,)]


@st.composite
def case(draw, ctx):
  tree = draw(gens.tree_spec(ctx, 3, SHAPES, npool=6))
  if all(gens.size(s) == 0 for s in tree['shapes']):
    tree['shapes'][0] = [2]
  n = sum(gens.size(s) for s in tree['shapes'])
  dim, batch = draw(st.integers(1, 2)), draw(st.integers(1, 3))
  kind = draw(st.sampled_from(['ridge', 'ridge', 'ridge', 'net']))
  out = {'tree': tree, 'kind': kind,
         'params': draw(gens.leaf_values(tree, ['unit', 'int', 'sparse'])),
         'v': draw(gens.values(n, ['unit', 'int', 'sparse', 'away'])),
         'x': draw(gens.values(batch * dim, ['unit', 'int', 'away'])),
         't': draw(gens.values(batch, ['unit', 'int', 'away'])),
         'shape': [batch, dim],
         'jit': draw(st.integers(0, 5)) == 0,
         'dtypes': [draw(st.sampled_from(['float64', 'float64', 'float32']))
                    for _ in tree['shapes']]}
  if kind == 'ridge':
    out['f'] = draw(ridge.function(n + dim, max_terms=3))
    out['d'] = draw(gens.values(len(out['f']['t']), ['unit']))
  else:
    h = 3
    out['w1'] = draw(gens.values(h * (n + dim), ['unit']))
    out['w2'] = draw(gens.values(h, ['unit']))
  return out


def flat_of(tree, leaves):
  """The raveled order: leaves in tree order."""
  order = gens.order(tree['layout'], len(tree['shapes']))
  return [leaves[i] for i in order]


def run(case, ctx):
  tree = case['tree']
  n = len(tree['shapes'])
  size = sum(gens.size(s) for s in tree['shapes'])
  batch, dim = case['shape']
  params = gens.jax_tree(tree, case['params'], case['dtypes'])
  single = 'float32' in case['dtypes']
  x = np.asarray(case['x']).reshape(batch, dim)
  t = np.asarray(case['t'])
  theta = np.concatenate([np.ravel(gens.f64(a)) for a in flat_of(
      tree, gens.unbuild(params, tree['layout'], n))])
  f = case.get('f')

  def flat_loss(vec, inputs, targets):
    """The loss of the raveled parameters."""
    out = 0.0
    for b in range(batch):
      z = jnp.concatenate([vec, inputs[b]])
      if f is None:
        hidden = jnp.tanh(jnp.asarray(case['w1']).reshape(3, -1) @ z * 0.5)
        out += (jnp.dot(jnp.asarray(case['w2']), hidden) - targets[b]) ** 2
        continue
      for (kind, c, w, bias), d in zip(f['t'], case['d']):
        out += c * (1 + d * targets[b]) * ridge.g(
            kind, jnp.dot(jnp.asarray(w), z) + bias, jnp)
    return out

  def loss(p, inputs, targets):
    leaves = flat_of(tree, gens.unbuild(p, tree['layout'], n))
    return flat_loss(jnp.concatenate(
        [jnp.ravel(a).astype(jnp.float64) for a in leaves]), inputs, targets)

  if f is None:
    grad = np.asarray(jax.grad(flat_loss)(jnp.asarray(theta), x, t))
    hess = np.asarray(jax.hessian(flat_loss)(jnp.asarray(theta), x, t))
  else:
    grad, hess = np.zeros(size), np.zeros((size, size))
    for b in range(batch):
      z = np.concatenate([theta, x[b]])
      for (kind, c, w, bias), d in zip(f['t'], case['d']):
        g = {'k': 0, 't': [[kind, c * (1 + d * t[b]), w, bias]]}
        grad += ridge.grad(g, z)[:size]
        hess += ridge.hess(g, z)[:size, :size]
  ctx.label('kind:' + case['kind'], 'size:%d' % size, 'float32:%s' % single,
            'layout:' + tree['layout'])
  ctx.nontrivial(size > 1 and (hess - np.diag(np.diag(hess))).any())
  wrap = jax.jit if case['jit'] else lambda fn: fn
  v = np.asarray(case['v'])
  both = str(jnp.result_type(*case['dtypes']))
  rtol = 2e-5 if single else 1e-9
  top = lambda a: rtol * (np.abs(a).max() if a.size else 0) + 1e-12
  what = f'{case["kind"]} loss, {case["tree"]}: '
  got = wrap(lambda p, vec, i, o: optax.hvp(loss, vec, p, i, o))(
      params, jnp.asarray(v, both), jnp.asarray(x), jnp.asarray(t))
  got = np.concatenate([np.ravel(gens.f64(a)) for a in
                        jax.tree_util.tree_leaves(got)])
  gens.close(got, hess @ v, rtol, (np.abs(hess) @ np.abs(v)) * rtol + 1e-12,
             what + 'hvp')
  args = (params, jnp.asarray(x), jnp.asarray(t))
  got = wrap(lambda p, i, o: optax.hessian_diag(loss, p, i, o))(*args)
  gens.close(got, np.diag(hess), rtol, top(hess), what + 'hessian_diag')
  got = wrap(lambda p, i, o: optax.fisher_diag(loss, p, i, o))(*args)
  gens.close(got, grad ** 2, rtol, top(grad ** 2), what + 'fisher_diag')


LEGS = [Leg('dense', case, run, 300)]
