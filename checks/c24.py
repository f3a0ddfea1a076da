"""C24: differentially private aggregation."""
import math

from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from vf import gens
from vf import refs
from vf import spec as specs
from vf import stats
from vf import steps
from vf.core import Leg

ID = 'C24'
RULE = ('A case is a batch of per-example gradients over 1-4 leaves, a clip '
        'norm, a noise multiplier, a seed and a number of steps. The clipped '
        'mean is compared with a NumPy model without noise; the noise itself '
        '(result minus clipped mean) with its calibration, for independence '
        'and for freshness. Non-trivial: an example is clipped and another '
        'is not (clip), more than one leaf or step (noise), or any rejection.')
ASSUMPTIONS = ['Statistical bounds are at 7 standard deviations.']
SHAPES = [(), (1,), (3,), (2, 2), (2, 1, 3)]
SEEDS = gens.SEEDS


def batched(tree, b):
  return dict(tree, shapes=[[b] + list(s) for s in tree['shapes']])


def aggregate(leaves, clip):
  """Mean over the batch of the examples, each clipped as a whole."""
  b = leaves[0].shape[0]
  norms = np.array([math.sqrt(math.fsum(
      float(v) ** 2 for x in leaves for v in np.ravel(x[i])))
                    for i in range(b)])
  factor = np.array([1.0 if n <= clip else clip / n for n in norms])
  return [np.tensordot(factor, x, (0, 0)) / b for x in leaves], norms


@st.composite
def clip_case(draw, ctx):
  b = draw(st.integers(1, 5))
  tree = batched(draw(gens.tree_spec(ctx, 4, SHAPES, npool=3)), b)
  n = draw(st.integers(1, 2))
  grads = []
  for _ in range(n):
    vals = draw(gens.leaf_values(tree, ['unit', 'int', 'sparse', 'wide',
                                        'zero']))
    # Examples of very different sizes.
    scale = [draw(st.sampled_from([1.0, 1.0, 0.01, 100.0, 0.0, 0.3]))
             for _ in range(b)]
    vals = [[v * scale[i * b // len(leaf)] for i, v in enumerate(leaf)]
            for leaf in vals]
    grads.append(vals)
  return {'tree': tree, 'b': b, 'grads': grads,
          'clip': draw(st.one_of(gens.nice(0.1, 8), gens.logf(1e-2, 1e3))),
          'seed': draw(SEEDS), 'jit': draw(st.integers(0, 5)) == 0,
          'array': draw(st.booleans())}


def run_clip(case, ctx):
  tree, c = case['tree'], case['clip']
  n = len(tree['shapes'])
  tx = optax.differentially_private_aggregate(
      jnp.asarray(c) if case['array'] else c, 0.0, case['seed'])
  s = tx.init(gens.jax_tree(tree, case['grads'][0]))
  update = jax.jit(tx.update) if case['jit'] else tx.update
  for t, v in enumerate(case['grads']):
    u, s = update(gens.jax_tree(tree, v), s)
    want, norms = aggregate(gens.np_leaves(tree, v), c)
    ctx.nontrivial((norms > c).any() and (norms <= c).any())
    ctx.label('batch:%d' % case['b'], 'leaves:%d' % n)
    for i, x in enumerate(gens.unbuild(u, tree['layout'], n)):
      gens.close(x, want[i], 1e-9, 1e-12 * c,
                 f'clip {c}, examples of norm {norms.tolist()}: step {t}, '
                 f'leaf {i}')


# --- mixed precision ---------------------------------------------------------

EPS = {'float16': 2e-3, 'bfloat16': 1.6e-2, 'float32': 2.4e-7}


@st.composite
def low_case(draw, ctx):
  c = draw(clip_case(ctx))
  c['dtypes'] = [draw(st.sampled_from(['float32', 'float32', 'float16',
                                       'bfloat16']))
                 for _ in c['tree']['shapes']]
  top = {'float16': 50.0, 'bfloat16': 1e6, 'float32': 1e6}
  c['grads'] = [[
      [float(np.clip(v * k, -top[d], top[d])) for v in leaf]
      for leaf, d, k in zip(
          vals, c['dtypes'],
          [draw(st.sampled_from([1.0, 1.0, 1e-2, 1e3, 1e5]))
           for _ in c['dtypes']])] for vals in c['grads']]
  c['clip'] = draw(gens.logf(1e-2, 1e4))
  return c


def run_low(case, ctx):
  """Every leaf is as accurate as its own type, and the types of the others
  in proportion to their share of the norm, allow."""
  tree, c, dtypes, b = (case[k] for k in ('tree', 'clip', 'dtypes', 'b'))
  n = len(dtypes)
  tx = optax.differentially_private_aggregate(c, 0.0, case['seed'])
  jt = lambda v: gens.jax_tree(tree, v, dtypes)
  s = tx.init(jt(case['grads'][0]))
  update = jax.jit(tx.update) if case['jit'] else tx.update
  for t, v in enumerate(case['grads']):
    g = jt(v)
    leaves = [gens.f64(x) for x in gens.unbuild(g, tree['layout'], n)]
    u, s = update(g, s)
    want, norms = aggregate(leaves, c)
    err = np.zeros(b)
    for x, d in zip(leaves, dtypes):
      sq = (x.reshape(b, -1) ** 2).sum(1)
      err += sq * EPS[d] * (4 + x[0].size) + (1e-7 * x[0].size
                                              if d == 'float16' else 0)
    rel = 1e-6 + err / np.maximum(norms, 1e-30) ** 2
    rel = np.where(norms * (1 + rel) < c, 1e-6, rel)
    ctx.nontrivial(len(set(dtypes)) > 1 and (norms > c).any())
    ctx.label('mixed:%d' % len(set(dtypes)))
    for i, x in enumerate(gens.unbuild(u, tree['layout'], n)):
      gens.check(str(x.dtype) == dtypes[i], f'leaf {i} of {dtypes}: result of '
                 f'type {x.dtype}')
      part = np.abs(leaves[i]) * np.minimum(
          1, c / np.maximum(norms, 1e-30)).reshape(
              (b,) + (1,) * (leaves[i].ndim - 1))
      tol = np.tensordot(rel + 6 * EPS[dtypes[i]], part, (0, 0)) / b
      bad = ~(np.abs(gens.f64(x) - want[i])
              <= tol + (3e-7 if dtypes[i] == 'float16' else 1e-36))
      gens.check(not bad.any(), f'clip {c}, examples of norm '
                 f'{norms.tolist()}, types {dtypes}: step {t}, leaf {i} is '
                 f'{gens.f64(x).tolist()}, expected {want[i].tolist()}')


# --- noise --------------------------------------------------------------------


@st.composite
def noise_case(draw, ctx):
  b = draw(st.integers(1, 6))
  big = st.sampled_from([[400], [20, 20], [5, 80], [400], [399]])
  small = st.sampled_from([[], [2], [7]])
  shapes = draw(st.lists(st.one_of(big, big, small), min_size=1, max_size=4))
  if not any(gens.size(s) > 300 for s in shapes):
    shapes.append([400])
  dtype = draw(st.sampled_from(['float64', 'float64', 'float32']))
  seed = draw(SEEDS)
  return {'tree': {'layout': draw(st.sampled_from(gens.LAYOUTS)),
                   'shapes': [[b] + s for s in shapes]},
          'b': b, 'steps': draw(st.integers(1, 5)),
          'clip': draw(gens.logf(1e-2, 1e2)),
          'mult': draw(gens.logf(1e-2 if dtype == 'float64' else 0.1, 1e2)),
          'seed': seed, 'other': draw(gens.other_seed(seed)),
          'size': draw(gens.logf(1e-2, 1e2)), 'dtype': dtype,
          'jit': draw(st.booleans())}


def noise_of(case, seed, salt):
  """The normalised noise of every step and leaf."""
  tree, c, m, b = case['tree'], case['clip'], case['mult'], case['b']
  n = len(tree['shapes'])
  rng = np.random.default_rng(salt)
  tx = optax.differentially_private_aggregate(c, m, seed)
  update = jax.jit(tx.update) if case['jit'] else tx.update
  out, keys = [], []
  s = None
  for _ in range(case['steps']):
    vals = [rng.normal(size=sh) * case['size'] for sh in tree['shapes']]
    g = gens.jax_tree(tree, vals, [case['dtype']] * n)
    if s is None:
      s = tx.init(g)
      keys.append(np.asarray(s.rng_key).tolist())
    u, s = update(g, s)
    keys.append(np.asarray(s.rng_key).tolist())
    want, _ = aggregate([gens.f64(x) for x in gens.unbuild(
        g, tree['layout'], n)], c)
    got = gens.unbuild(u, tree['layout'], n)
    for x, w in zip(got, want):
      gens.check(np.shape(x) == w.shape, f'shape {np.shape(x)} of the result, '
                 f'expected {w.shape}')
    out.append([(gens.f64(x) - w) * b / (c * m) for x, w in zip(got, want)])
  return out, keys


def run_noise(case, ctx):
  z, keys = noise_of(case, case['seed'], 1)
  what = (f"clip {case['clip']}, multiplier {case['mult']}, batch {case['b']}, "
          f"seed {case['seed']}, shapes {case['tree']['shapes']}: ")
  # Rounding of the sum of at most 6 examples, in units of the noise.
  tol = (1e-11 if case['dtype'] == 'float64' else 1e-5) * (
      10 + 1 / case['mult'])
  ctx.nontrivial(len(z) > 1 or len(z[0]) > 1)
  ctx.label('steps:%d' % len(z), 'leaves:%d' % len(z[0]),
            'dtype:' + case['dtype'])
  stats.normal([x for leaves in z for x in leaves], what + 'noise')
  stats.fresh([x for leaves in z for x in leaves], what + 'noise', tol)
  for t in range(1, len(keys)):
    gens.check(keys[t] not in keys[:t], what + f'the key after step {t} '
               'was used before')
  # The seed determines the noise, whatever the gradients are; another seed
  # gives other noise.
  again, _ = noise_of(case, case['seed'], 2)
  for t, (a, b) in enumerate(zip(z, again)):
    for i, (x, y) in enumerate(zip(a, b)):
      gens.close(x, y, tol, tol, what + f'noise of step {t}, leaf {i} with '
                 'the same seed and other gradients')
  if case['other'] != case['seed']:
    other, _ = noise_of(case, case['other'], 1)
    stats.fresh([x for leaves in z + other for x in leaves],
                what + f'noise together with that of seed {case["other"]}',
                tol)


# --- rejection ----------------------------------------------------------------


@st.composite
def reject_case(draw, ctx):
  tree = draw(gens.tree_spec(ctx, 4, SHAPES, npool=3))
  b = draw(st.integers(1, 4))
  batches = [b] * len(tree['shapes'])
  bad = draw(st.sampled_from(['size', 'scalar', 'none']))
  if len(batches) == 1 and bad == 'size':
    bad = 'scalar'
  i = draw(st.integers(0, len(batches) - 1))
  if bad == 'size':
    batches[i] = draw(st.sampled_from([k for k in range(1, 6) if k != b]))
  shapes = [[k] + list(s) for k, s in zip(batches, tree['shapes'])]
  if bad == 'scalar':
    shapes[i] = []
  return {'tree': dict(tree, shapes=shapes), 'bad': bad,
          'alias': draw(st.booleans()), 'jit': draw(st.integers(0, 3)) == 0}


def run_reject(case, ctx):
  tree = case['tree']
  if case['alias']:
    tx = optax.dpsgd(0.1, 1.0, 0.5, 3)
  else:
    tx = optax.differentially_private_aggregate(1.0, 0.5, 3)
  g = gens.jax_tree(tree, [[1.0] * gens.size(s) for s in tree['shapes']])
  s = tx.init(g)
  raised = None
  try:
    (jax.jit(tx.update) if case['jit'] else tx.update)(g, s)
  except ValueError as e:
    raised = e
  ctx.label('bad:' + case['bad'])
  ctx.nontrivial(case['bad'] != 'none')
  gens.check((raised is not None) == (case['bad'] != 'none'),
             f'shapes {tree["shapes"]}: ' + (
                 f'raised {raised!r}' if raised is not None
                 else 'no ValueError'))
  if raised is not None:
    gens.check('batch dimension' in str(raised), f'the error for '
               f'{tree["shapes"]} is {raised!r}')


# --- dpsgd --------------------------------------------------------------------


@st.composite
def dpsgd_case(draw, ctx):
  b = draw(st.integers(1, 4))
  tree = batched(draw(gens.tree_spec(ctx, 3, SHAPES, npool=3)), b)
  n = draw(st.integers(1, 4))
  return {'tree': tree, 'w': draw(specs.strategy('dpsgd', n)), 'b': b,
          'positional': draw(st.booleans()),
          'grads': [draw(gens.leaf_values(tree, ['unit', 'int', 'sparse']))
                    for _ in range(n)]}


def run_dpsgd(case, ctx):
  tree, w = case['tree'], case['w']
  n = len(tree['shapes'])
  kws = dict(w['kw'])
  dp = [kws.pop(k) for k in ('l2_norm_clip', 'noise_multiplier', 'seed')]
  if case['positional']:
    tx = optax.dpsgd(specs.lr_make(w['lr']), *dp, **kws)
  else:
    tx = specs.make(w)
  momentum = kws.get('momentum')
  model = refs.chain(
      refs.identity() if momentum is None
      else refs.trace(momentum, kws.get('nesterov', False)),
      specs.lr_model(w['lr']))
  agg = optax.differentially_private_aggregate(*dp)
  p = gens.build(tree['layout'], [jnp.zeros(s[1:]) for s in tree['shapes']])
  s, sa = tx.init(p), agg.init(p)
  sm = model.init([np.zeros(s[1:]) for s in tree['shapes']])
  ctx.nontrivial(len(case['grads']) > 1)
  ctx.label('lr:' + w['lr']['k'], 'momentum:%s' % (
      momentum if momentum in (None, 0.0) else 'some'))
  rtol = 1e-5 if w['lr']['k'] == 'poly' else 1e-8
  for t, v in enumerate(case['grads']):
    g = gens.jax_tree(tree, v)
    u, s = tx.update(g, s)
    a, sa = agg.update(g, sa)
    want, sm = model.update([gens.f64(x) for x in gens.unbuild(
        a, tree['layout'], n)], sm, None)
    for i, x in enumerate(gens.unbuild(u, tree['layout'], n)):
      gens.close(x, want[i], rtol, rtol * 1e-2 * steps.top(want[i]) + 1e-12,
                 f'{w}: update {t} of leaf {i}')


# --- long runs ----------------------------------------------------------------


@st.composite
def stream_case(draw, ctx):
  return {'mult': draw(gens.logf(1e-2, 1e2)), 'clip': draw(gens.logf(
      1e-2, 1e2)), 'seed': draw(SEEDS), 'b': draw(st.integers(1, 3)),
          'dpsgd': draw(st.booleans()),
          'shapes': draw(st.sampled_from([[[4]], [[2], [2, 2]], [[], [3]],
                                          [[1, 3]], [[], [], [], []]])),
          'dtype': draw(st.sampled_from(['float64', 'float32'])),
          'steps': draw(st.one_of(st.integers(60, 600),
                                  st.integers(600, 5000)))}


def run_stream(case, ctx):
  tx = (optax.dpsgd(-1.0, case['clip'], case['mult'], case['seed'])
        if case['dpsgd'] else optax.differentially_private_aggregate(
            case['clip'], case['mult'], case['seed']))
  g = [jnp.zeros([case['b']] + s, case['dtype']) for s in case['shapes']]

  def body(s, _):
    u, s = tx.update(g, s)
    return s, jnp.concatenate([jnp.ravel(x).astype(float) for x in u])
  _, u = jax.jit(lambda s: jax.lax.scan(body, s, None, case['steps']))(
      tx.init([x[0] for x in g]))
  ctx.nontrivial(True)
  ctx.label('stream:%d' % (case['steps'] // 1000))
  stats.stream(gens.f64(u) * case['b'] / (case['clip'] * case['mult']),
               f'noise of {case}')


LEGS = [Leg('low', low_case, run_low, 320, x64=False),
        Leg('stream', stream_case, run_stream, 64),
        Leg('clip', clip_case, run_clip, 700),
        Leg('noise', noise_case, run_noise, 180),
        Leg('reject', reject_case, run_reject, 250),
        Leg('dpsgd', dpsgd_case, run_dpsgd, 300)]
