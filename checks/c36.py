"""C36: differentiating through optimisation steps."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax
from optax._src import numerics

from vf import gens
from vf import spec as specs
from vf import wrap
from vf.core import Leg

ID = 'C36'
RULE = ('A case is a transformation (or nest of wrappers), a tree, a short '
        'history whose gradients depend on the parameters, and a direction in '
        'the space of initial parameters, gradients and float '
        'hyperparameters. The forward- and reverse-mode derivatives of a '
        'random functional of the updates and final parameters are compared '
        'with central differences (points where the one-sided differences '
        'disagree are skipped). Non-trivial: a derivative that is not zero, '
        'at a smooth point.')
SHAPES = [(), (2,), (3,), (2, 3)]
NAMES = [x for x in specs.DETERMINISTIC if not specs.ENTRIES[x].batch]
# Floats that are compared in Python, or that switch a formula.
STATIC = {('scale_by_sm3', 'b2'), ('scale_by_radam', 'threshold'),
          ('radam', 'threshold')}
LIMITS = {'b1': (0.05, 0.97), 'b2': (0.05, 0.995), 'decay': (0.05, 0.97),
          'momentum': (0.05, 0.97), 'eps': (1e-6, 1.0),
          'eps_root': (1e-6, 1.0), 'initial_accumulator_value': (0.05, 2.0)}


def tame(spec):
  """Keeps the hyperparameters away from the ends of their ranges."""
  for k, v in list(spec['kw'].items()):
    if k in LIMITS and isinstance(v, (int, float)) and not isinstance(v, bool):
      lo, hi = LIMITS[k]
      if k == 'eps_root' and v == 0:
        continue
      spec['kw'][k] = min(max(v, lo), hi)
  if spec['name'] in ('scale_by_rss', 'adagrad'):
    spec['kw']['initial_accumulator_value'] = max(
        spec['kw'].get('initial_accumulator_value', 0.1), 0.05)
  return spec


@st.composite
def fd_case(draw, ctx, wrapped=False):
  tree = draw(gens.tree_spec(ctx, 2, SHAPES, npool=4))
  n = len(tree['shapes'])
  if wrapped:
    # (In a chain one member may hand zeros to the next.)
    w = draw(wrap.wrapped(specs.any_of(NAMES), n, depth=2, kinds=[
        k for k in wrap.WRAPPERS if k != 'chain']))
    base = w
    while 'w' in base:
      base = base['inner']
    tame(base)
    wrap.fix_rank(w, tree)
  else:
    w = tame(draw(specs.any_of(NAMES)))
  steps = draw(st.integers(1, 3))
  unit = lambda: draw(gens.leaf_values(tree, ['unit']))
  out = {'tree': tree, 'w': w, 'mix': draw(st.sampled_from([0.0, 0.25, -0.5])),
         'params': draw(gens.leaf_values(tree, ['away', 'pos'])),
         'grads': [draw(gens.leaf_values(tree, ['away']))
                   for _ in range(steps)],
         'dparams': unit(), 'dgrads': [unit() for _ in range(steps)],
         'weights': [unit() for _ in range(steps + 1)]}
  if not wrapped:
    floats = sorted(k for k, v in w['kw'].items()
                    if isinstance(v, float) and (w['name'], k) not in STATIC)
    if w.get('lr', {}).get('k') in ('float', 'neg', 'array'):
      floats.append('lr')
    out['dhyper'] = {k: draw(st.sampled_from([0.0, 1.0, -0.5, 0.3]))
                     for k in floats}
    # Which of them move.
    which = draw(st.sampled_from(['all', 'hyper', 'params', 'grads', 'all']))
    if which == 'hyper' and any(out['dhyper'].values()):
      out['dparams'] = [[0.0] * len(v) for v in out['dparams']]
      out['dgrads'] = [[[0.0] * len(v) for v in g] for g in out['dgrads']]
    elif which == 'params':
      out['dgrads'] = [[[0.0] * len(v) for v in g] for g in out['dgrads']]
      out['dhyper'] = {}
    elif which == 'grads':
      out['dparams'] = [[0.0] * len(v) for v in out['dparams']]
      out['dhyper'] = {}
  else:
    out['dhyper'] = {}
  return out


def functional(case):
  """phi(s): a functional of the history in the direction of the case."""
  tree, w = case['tree'], case['w']
  jt = lambda v: gens.jax_tree(tree, v)
  p0, dp = jt(case['params']), jt(case['dparams'])
  gs = [(jt(a), jt(b)) for a, b in zip(case['grads'], case['dgrads'])]
  ws = [jt(x) for x in case['weights']]
  add = lambda a, b, s: jax.tree_util.tree_map(lambda x, y: x + s * y, a, b)
  dot = lambda a, b: sum([jnp.vdot(x, y) for x, y in zip(
      jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b))])

  def phi(s):
    if 'w' in w:
      tx = wrap.make(w, tree)
    else:
      move = lambda k, v: v * (1 + s * 0.1 * case['dhyper'][k])
      kw = {k: move(k, v) if case['dhyper'].get(k) else v
            for k, v in w['kw'].items()}
      if 'lr' in w:
        lr = specs.lr_make(w['lr'])
        if case['dhyper'].get('lr'):
          lr = move('lr', w['lr']['v'])
        fn = getattr(optax, w['name'])
        tx = fn(lr, **kw)
      else:
        tx = specs.make(dict(w, kw=kw))
    params = add(p0, dp, s)
    state = tx.init(params)
    total = 0.0
    for (g, dg), wt in zip(gs, ws):
      grads = jax.tree_util.tree_map(
          lambda a, b, p: a + s * b + case['mix'] * p, g, dg, params)
      u, state = tx.update(grads, state, params)
      total = total + dot(wt, u)
      params = optax.apply_updates(params, u)
    return total + dot(ws[-1], params)
  return phi


def derivative(phi, h, what, ctx):
  """Compares the derivatives of phi at 0; False if phi is not smooth."""
  zero = jnp.zeros(())
  value, forward = jax.jvp(phi, (zero,), (jnp.ones(()),))
  reverse = jax.grad(phi)(zero)
  value, forward, reverse = float(value), float(forward), float(reverse)
  f = [float(phi(jnp.asarray(k * h))) for k in (-2, -1, 1, 2)]
  size = max(map(abs, f + [value]))
  noise = 1e-13 * size / h
  c1, c2 = (f[2] - f[1]) / (2 * h), (f[3] - f[0]) / (4 * h)
  ctx.label('zero' if forward == 0 else 'moves')
  gens.check(np.isfinite([forward, reverse]).all(),
             f'{what}: derivatives {forward} and {reverse}')
  scale = max(abs(forward), abs(c1), 1e-3)
  gens.check(abs(forward - reverse) <= 1e-7 * scale + noise,
             f'{what}: forward {forward}, reverse {reverse}')
  right, left = (f[2] - value) / h, (value - f[1]) / h
  error = abs(c1 - c2)
  if not np.isfinite(f).all() or abs(right - left) > 1e-2 * scale + noise or (
      error > 1e-3 * scale + noise):
    ctx.label('not smooth')
    return False
  gens.check(abs(forward - c1) <= 1e-4 * scale + 4 * error + 4 * noise,
             f'{what}: derivative {forward}, by differences {c1} '
             f'(and {c2} with twice the step)')
  return forward != 0


def run_fd(case, ctx):
  w = case['w']
  names = wrap.names(w)
  ctx.label(*['name:' + x for x in names])
  ctx.label(*['d:' + k for k, v in case['dhyper'].items() if v])
  if case['grads'] and not np.isfinite(1.0):
    return
  what = f'{w} in the direction of {case["dhyper"]} and others'
  ctx.nontrivial(derivative(functional(case), 2e-6, what, ctx))


ROOTED = ['adam', 'adamw', 'radam', 'scale_by_adam', 'scale_by_radam',
          'scale_by_belief', 'scale_by_yogi']


@st.composite
def zero_case(draw, ctx):
  case = draw(fd_case(ctx))
  name = draw(st.sampled_from(ROOTED))
  tree = case['tree']
  spec = draw(specs.strategy(name, lr_kinds=['float']))
  tame(spec)
  if name in ('radam', 'scale_by_radam') and (
      spec['kw'].get('b2', 0.999) > 0.99):
    spec['kw']['b2'] = 0.9
  spec['kw']['eps_root'] = draw(gens.logf(1e-8, 1e-2))
  if draw(st.booleans()):
    spec['kw']['eps'] = 0.0  # eps_root alone must be enough
  case['w'] = spec
  case['dhyper'] = {k: 1.0 for k in draw(st.lists(st.sampled_from(
      ['eps_root'] + (['lr'] if 'lr' in spec else [])), unique=True,
                                                 max_size=2))}
  steps = len(case['grads'])
  z = lambda: [[0.0] * gens.size(s) for s in tree['shapes']]
  which = draw(st.integers(0, 2))
  case['mix'] = 0.0
  if which == 0:
    case['grads'] = [z() for _ in range(steps)]
  elif which == 1:
    case['grads'][0] = z()
  else:
    case['grads'] = [[[0.0] * len(v) if i == 0 else v
                      for i, v in enumerate(g)] for g in case['grads']]
  case['x64'] = draw(st.sampled_from([True, True, False]))
  return case


def run_zero(case, ctx):
  w = case['w']
  ctx.label('name:' + w['name'], 'x64:%s' % case['x64'])
  root = w['kw']['eps_root']
  what = f'{w} at zero gradients'
  if case['x64']:
    if w['name'] == 'scale_by_yogi':
      # sign(v - g^2) g^2 has no kink that matters here: v > 0 = g^2.
      pass
    ctx.nontrivial(derivative(functional(case), 1e-4 * root ** 0.5, what, ctx))
    return
  case = dict(case)
  tree = case['tree']
  phi = functional_32(case)
  forward = float(jax.jvp(phi, (jnp.zeros(()),), (jnp.ones(()),))[1])
  reverse = float(jax.grad(phi)(jnp.zeros(())))
  gens.check(np.isfinite([forward, reverse]).all(),
             f'{what} (float32): derivatives {forward} and {reverse}')
  ctx.nontrivial(forward != 0)


def functional_32(case):
  # Without 64-bit types everything is float32.
  return functional(case)


@st.composite
def norm_case(draw, ctx):
  shape = draw(st.sampled_from([[], [1], [3], [7], [2, 3], [3, 1], [0]]))
  x = draw(gens.values(gens.size(shape), ['unit', 'zero', 'sparse', 'wide']))
  norm = float(np.linalg.norm(x))
  return {'shape': shape, 'x': x, 'min': draw(st.one_of(
      st.just(0.0), st.just(0.0), gens.logf(1e-6, 10), st.sampled_from(
          [norm * 0.5, norm * 2, 1e-12]))),
          'dtype': draw(st.sampled_from(['float64', 'float64', 'float32'])),
          'jit': draw(st.integers(0, 3)) == 0}


def run_norm(case, ctx):
  """safe_norm: its value and its gradient."""
  x = np.asarray(case['x'], np.float64).reshape(case['shape'])
  norm, low = float(np.sqrt((x * x).sum())), case['min']
  if len(case['shape']) == 2:
    norm = float(np.linalg.norm(x))
  single = case['dtype'] == 'float32'
  fn = jax.value_and_grad(lambda y: numerics.safe_norm(y, low))
  fn = jax.jit(fn) if case['jit'] else fn
  v, g = fn(jnp.asarray(x, case['dtype']))
  rt = 1e-5 if single else 1e-10
  what = f'safe_norm({x.tolist()}, {low})'
  gens.close(v, max(norm, low), rt, 0, what)
  if abs(norm - low) < 1e-5 * norm:
    return
  want = x / norm if norm > low else np.zeros_like(x)
  ctx.nontrivial(x.size and (norm <= low or norm > 0))
  ctx.label('below' if norm <= low else 'above')
  gens.close(g, want, rt, rt, f'{what}: gradient')


@st.composite
def trust_case(draw, ctx):
  shape = draw(st.sampled_from([[2], [3], [], [2, 2]]))
  n = gens.size(shape)
  val = lambda: draw(gens.values(n, ['unit', 'zero', 'zero', 'away']))
  return {'shape': shape, 'u': val(), 'p': val(), 'w': draw(gens.values(
      n, 'unit')), 'min': draw(gens.logf(1e-4, 2.0)),
          'who': draw(st.sampled_from(['trust', 'fromage']))}


def run_trust(case, ctx):
  """Trust ratios with a minimum norm, at and away from zero norms."""
  u, p, w = [np.asarray(case[k]).reshape(case['shape']) for k in 'upw']
  low = case['min']
  un, pn = [float(np.sqrt((x * x).sum())) for x in (u, p)]
  if min(abs(un - low), abs(pn - low)) < 1e-6:
    return
  mult = 1.0 if case['who'] == 'trust' else -0.5 / np.sqrt(1.25)
  decay = 0.0 if case['who'] == 'trust' else 1 / np.sqrt(1.25) - 1
  tx = (optax.scale_by_trust_ratio(low) if case['who'] == 'trust'
        else optax.fromage(0.5, low))

  def loss(u, p):
    out, _ = tx.update(u, tx.init(p), p)
    return jnp.vdot(jnp.asarray(w), out)
  gu, gp = jax.grad(loss, (0, 1))(jnp.asarray(u), jnp.asarray(p))
  ratio = max(pn, low) / max(un, low)
  dot = float((w * u).sum())
  want_u = mult * w * ratio
  if un > low:
    want_u = want_u - mult * dot * ratio * u / un ** 2
  want_p = decay * w
  if pn > low:
    want_p = want_p + mult * dot / max(un, low) * p / pn
  ctx.nontrivial(un == 0 or pn == 0)
  ctx.label('un:%s' % (un > low), 'pn:%s' % (pn > low))
  what = f'{case["who"]} at u = {u.tolist()}, p = {p.tolist()}, min {low}'
  scale = 1 + abs(ratio) + abs(dot)
  gens.close(gu, want_u, 1e-8, 1e-9 * scale, f'{what}: d/du')
  gens.close(gp, want_p, 1e-8, 1e-9 * scale / low, f'{what}: d/dp')


LEGS = [Leg('steps', fd_case, run_fd, 300),
        Leg('wrapped', lambda ctx: fd_case(ctx, True), run_fd, 100),
        Leg('zero', zero_case, run_zero, 120, x64=None),
        Leg('safe_norm', norm_case, run_norm, 300),
        Leg('trust', trust_case, run_trust, 100)]
