"""C25: annealed gradient noise."""
import math

from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from vf import gens
from vf import spec as specs
from vf import stats
from vf.core import Leg

ID = 'C25'
RULE = ('A case is eta, gamma, a seed, 1-4 leaves (one with hundreds of '
        'elements), and up to 6 steps (or a late one); the noise is the '
        'difference between updates and gradients, normalised with the '
        'documented standard deviation. Non-trivial: more than one leaf or '
        'step, eta and gamma not 0.')
ASSUMPTIONS = ['Statistical bounds are at 7 standard deviations.']
SEEDS = gens.SEEDS


@st.composite
def case(draw, ctx):
  big = st.sampled_from([[400], [20, 20], [5, 80], [400], [399]])
  small = st.sampled_from([[], [2], [7]])
  shapes = draw(st.lists(st.one_of(big, big, small), min_size=1, max_size=4))
  if not any(gens.size(s) > 300 for s in shapes):
    shapes.append([400])
  noisy, seed = draw(st.booleans()), draw(SEEDS)
  out = {
      'tree': {'layout': draw(st.sampled_from(gens.LAYOUTS)),
               'shapes': shapes},
      'steps': draw(st.integers(1, 6)), 'noisy': noisy,
      'eta': draw(st.one_of(gens.logf(1e-4, 1e3), st.sampled_from(
          [0.01, 1.0, 0.0]))),
      'gamma': draw(st.one_of(gens.nice(0, 2), st.integers(0, 3), st.sampled_from(
          [0.55, 0.0, 1.0]))),
      'seed': seed, 'other': draw(gens.other_seed(seed)),
      'start': draw(st.sampled_from([0, 0, 0, 0, 1, 10, 999])),
      'size': draw(gens.logf(1e-2, 10)),
      'positional': draw(st.booleans()),
      'dtype': draw(st.sampled_from(['float64', 'float64', 'float32'])),
      'jit': draw(st.booleans())}
  if noisy:
    out['lr'] = draw(specs.lr_strategy(6, kinds=['float', 'neg', 'table',
                                                 'array', 'int']))
    if draw(st.integers(0, 4)) == 0:
      out['default'] = draw(st.sampled_from(['eta', 'gamma', 'seed']))
      out[out['default']] = {'eta': 0.01, 'gamma': 0.55, 'seed': 0}[
          out['default']]
  return out


def noise_of(case_, seed, salt):
  """The normalised noise of every step and leaf, and the tolerance."""
  tree, eta, gamma = case_['tree'], case_['eta'], case_['gamma']
  n = len(tree['shapes'])
  rng = np.random.default_rng(salt)
  args = {'eta': eta, 'gamma': gamma, 'seed': seed}
  if seed == case_['seed']:
    args.pop(case_.get('default'), None)
  pos = list(args.values()) if len(args) == 3 and case_['positional'] else []
  args = {} if pos else args
  if case_['noisy']:
    tx = optax.noisy_sgd(specs.lr_make(case_['lr']), *pos, **args)
  else:
    tx = optax.add_noise(*pos, **args)
  update = jax.jit(tx.update) if case_['jit'] else tx.update
  s, out, tol = None, [], 0.0
  start = case_['start']
  for t in range(start, start + case_['steps']):
    g = gens.jax_tree(tree, [rng.normal(size=sh) * case_['size']
                             for sh in tree['shapes']], [case_['dtype']] * n)
    if s is None:
      s = tx.init(g)
      s = jax.tree_util.tree_map(
          lambda x: x + start if x.ndim == 0 and x.dtype == jnp.int32 else x,
          s)
    u, s = update(g, s)
    got = [gens.f64(x) for x in gens.unbuild(u, tree['layout'], n)]
    want = [gens.f64(x) for x in gens.unbuild(g, tree['layout'], n)]
    for x, w in zip(got, want):
      gens.check(np.shape(x) == w.shape, f'shape {np.shape(x)} of the result, '
                 f'expected {w.shape}')
    lr = -specs.lr_at(case_['lr'], t) if case_['noisy'] else 1.0
    if case_['noisy'] and lr == 0:
      gens.check(all((x == 0).all() for x in got), 'noise at rate 0')
      continue
    std = math.sqrt(eta / (t + 1.0) ** gamma)
    if std == 0:
      for x, w in zip(got, want):
        gens.close(x, lr * w, 1e-9 if case_['dtype'] == 'float64' else 1e-5,
                   0, 'updates for eta = 0')
      continue
    tol = max(tol, 8 * case_['size'] / std)
    out.append([(x / lr - w) / std for x, w in zip(got, want)])
  # float32 schedules and steps give factors good to 1e-6.
  return out, (1e-11 if case_['dtype'] == 'float64' else 3e-6) * (
      10 + tol) + 1e-5


def run(case_, ctx):
  z, tol = noise_of(case_, case_['seed'], 1)
  ctx.label('noisy:%s' % case_['noisy'], 'steps:%d' % case_['steps'],
            'start:%d' % case_['start'], 'dtype:' + case_['dtype'])
  if not z or tol > 1e-3:
    return
  what = str({k: v for k, v in case_.items() if k not in ('tree', 'other')})
  what += f' shapes {case_["tree"]["shapes"]}: noise'
  ctx.nontrivial((len(z) > 1 or len(z[0]) > 1) and case_['gamma'] > 0)
  flat = [x for leaves in z for x in leaves]
  stats.normal(flat, what)
  stats.fresh(flat, what, tol)
  again, _ = noise_of(case_, case_['seed'], 2)
  for t, (a, b) in enumerate(zip(z, again)):
    for i, (x, y) in enumerate(zip(a, b)):
      gens.close(x, y, tol, tol, what + f' of step {t}, leaf {i} with the '
                 'same seed and other gradients')
  if case_['other'] != case_['seed']:
    other, _ = noise_of(case_, case_['other'], 1)
    stats.fresh(flat + [x for leaves in other for x in leaves],
                what + f' together with that of seed {case_["other"]}', tol)


# --- annealing, exactly ---------------------------------------------------------


@st.composite
def ratio_case(draw, ctx):
  gamma = st.one_of(gens.nice(0, 3), st.integers(0, 3))
  return {'eta': draw(gens.logf(1e-4, 1e3)), 'gamma': draw(gamma),
          'eta2': draw(gens.logf(1e-4, 1e3)), 'gamma2': draw(gamma),
          'seed': draw(SEEDS), 'shape': draw(st.sampled_from(
              [[3], [2, 2], [1]])),
          'start': draw(st.one_of(st.integers(0, 40), st.integers(0, 10 ** 7))),
          'steps': draw(st.integers(1, 3)),
          'jit': draw(st.integers(0, 4)) == 0}


def run_ratio(case_, ctx):
  """The noise of two settings differs by the ratio of the deviations."""
  def noise(eta, gamma):
    tx = optax.add_noise(eta, gamma, case_['seed'])
    update = jax.jit(tx.update) if case_['jit'] else tx.update
    g = jnp.zeros(case_['shape'])
    s = tx.init(g)
    s = s._replace(count=jnp.asarray(case_['start'], s.count.dtype))
    out = []
    for _ in range(case_['steps']):
      u, s = update(g, s)
      out.append(gens.f64(u))
    return out
  a = noise(case_['eta'], case_['gamma'])
  b = noise(case_['eta2'], case_['gamma2'])
  ctx.nontrivial(case_['eta'] != case_['eta2'])
  for k, (x, y) in enumerate(zip(a, b)):
    t = case_['start'] + k + 1.0
    sx = math.sqrt(case_['eta'] / t ** case_['gamma'])
    sy = math.sqrt(case_['eta2'] / t ** case_['gamma2'])
    gens.close(x / sx, y / sy, 2e-4, 0, f'noise of step {k} of {case_} over '
               'its documented deviation, for the two settings')


# --- long runs ------------------------------------------------------------------


@st.composite
def stream_case(draw, ctx):
  return {'eta': draw(gens.logf(1e-3, 1e2)),
          'gamma': draw(st.sampled_from([0.0, 0.55, 1.0, 1, 0.3])),
          'seed': draw(SEEDS), 'noisy': draw(st.booleans()),
          'shapes': draw(st.sampled_from([[[4]], [[2], [2, 2]], [[], [3]],
                                          [[1, 3]], [[], [], [], []]])),
          'dtype': draw(st.sampled_from(['float64', 'float32'])),
          'steps': draw(st.one_of(st.integers(60, 600),
                                  st.integers(600, 5000)))}


def run_stream(case_, ctx):
  tx = (optax.noisy_sgd(-1.0, case_['eta'], case_['gamma'], case_['seed'])
        if case_['noisy'] else
        optax.add_noise(case_['eta'], case_['gamma'], case_['seed']))
  g = [jnp.zeros(s, case_['dtype']) for s in case_['shapes']]

  def body(s, _):
    u, s = tx.update(g, s)
    return s, jnp.concatenate([jnp.ravel(x).astype(float) for x in u])
  _, u = jax.jit(lambda s: jax.lax.scan(body, s, None, case_['steps']))(
      tx.init(g))
  t = np.arange(1, case_['steps'] + 1)
  z = gens.f64(u) / np.sqrt(case_['eta'] / t ** float(case_['gamma']))[:, None]
  ctx.nontrivial(True)
  ctx.label('stream:%d' % (case_['steps'] // 1000))
  stats.stream(z, f'noise of {case_}')


LEGS = [Leg('stream', stream_case, run_stream, 64),
        Leg('noise', case, run, 160),
        Leg('annealing', ratio_case, run_ratio, 400)]
