"""The legs shared by the checks of update formulas (C01 to C06, C35)."""
import functools

from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from vf import gens
from vf import hist
from vf import spec as specs
from vf.core import Leg


def tolerance(case_, want):
  """Adaptive absolute tolerance for ill-conditioned formulas, or None.

  The centered variance n - m^2 loses up to |n|*2^-50 to rounding; where that
  is not small compared to the variance plus eps, any implementation is off.
  """
  spec = case_['spec']
  centered = spec['name'] == 'scale_by_stddev' or (
      spec['name'] == 'rmsprop' and spec['kw'].get('centered'))
  if not centered:
    return None
  k = spec['kw']
  decay, eps = k.get('decay', 0.9), k.get('eps', 1e-8)
  init = k.get('initial_scale', 0.0)
  nshapes = len(case_['tree']['shapes'])
  out = []
  rel = [0.0] * nshapes
  worst = [0.0] * nshapes
  m = n = None
  for t, g in enumerate(case_['grads']):
    g = gens.np_leaves(case_['tree'], g)
    if m is None:
      m = [np.zeros_like(x) for x in g]
      n = [np.full_like(x, init) for x in g]
    m = [decay * a + (1 - decay) * x for a, x in zip(m, g)]
    n = [decay * a + (1 - decay) * x * x for a, x in zip(n, g)]
    row = []
    for i in range(nshapes):
      noise = 1e-13 * (n[i] + m[i] ** 2)
      var = np.maximum(n[i] - m[i] ** 2, 0) + eps
      rel[i] = np.maximum(rel[i], np.minimum(noise / var, 1e9))
      # With momentum the error of earlier updates stays in the sum, and the
      # erroneous update may be as large as the gradient over sqrt(eps).
      worst[i] = np.maximum(worst[i], np.abs(g[i]) / np.sqrt(eps))
      lr = abs(specs.lr_at(spec['lr'], 0)) if 'lr' in spec else 1.0
      if 'lr' in spec:
        lr = max(abs(specs.lr_at(spec['lr'], s)) for s in range(t + 1))
      mult = 1.0 if spec['name'] != 'rmsprop' else lr * 60
      row.append(1e-11 + mult * worst[i] * np.where(
          rel[i] > 1e-3, 2.0, 2 * rel[i]))
    out.append(row)
  return out


def run_history(case_, ctx, known=None):
  hist.classify(case_, ctx)
  got = hist.run_optax(case_)
  want = hist.run_model(case_)
  atol = tolerance(case_, want)
  try:
    hist.compare(case_, got, want, atol=1e-11 if atol is None else atol)
  except Exception:
    if known is not None and known(case_, ctx, got):
      return
    raise


LOW = {'float32': (2e-3, 3e-4), 'bfloat16': (0.12, 0.06),
       'float16': (3e-2, 2e-2)}


def run_low(case_, ctx, known=None):
  """Same formulas for 32- and 16-bit leaves, with their accuracy."""
  hist.classify(case_, ctx)
  dts = case_['dtypes']
  ctx.label(*['dtype:' + d for d in dts])
  got = hist.run_optax(case_, dtypes=dts)
  # The model starts from the rounded values.
  tree = case_['tree']
  rnd = lambda v: [
      np.asarray(jnp.asarray(x, d)).astype(np.float64).tolist()
      for x, d in zip(v, dts)]
  c2 = dict(case_)
  c2['grads'] = [rnd(g) for g in case_['grads']]
  if specs.needs_params(case_['spec']):
    c2['params'] = [rnd(p) for p in case_['params']]
  else:
    c2['params'] = rnd(case_['params'])
  want = hist.run_model(c2)
  scale = [0.0] * len(dts)
  for t, (a, b) in enumerate(zip(got, want)):
    for i, (x, y) in enumerate(zip(a, b)):
      if str(x.dtype) != dts[i]:
        gens.check(False, f'{case_["spec"]}: update {t} of leaf {i} has dtype '
                   f'{x.dtype}, the gradient {dts[i]}')
      rtol, atol = LOW[dts[i]]
      scale[i] = max(scale[i], float(np.abs(y).max()) if y.size else 0.0)
      if case_['spec']['name'] == 'centralize' and y.size:
        # A difference of values of the size of the gradient.
        scale[i] = max(scale[i], 0.2 * max(map(abs, c2['grads'][t][i])))
      elif case_['spec']['name'] == 'fromage' and y.size:
        # 1 / sqrt(1 + lr^2) - 1 of the parameters.
        scale[i] = max(scale[i], 1e-3 * max(map(abs, c2['params'][t][i])))
      try:
        gens.close(x, y, rtol, atol * max(scale[i], 1e-6) + (
            1e-6 if dts[i] == 'float16' else 0.0),
                   f'{case_["spec"]}: {dts[i]} update {t} of leaf {i} '
                   f'(shape {list(y.shape)})')
      except Exception:
        if known is not None and known(c2, ctx, got, dts):
          return
        raise


@st.composite
def low_case(draw, ctx, spec_strategy,
             dtypes=('float32', 'bfloat16', 'float16'), max_steps=5):
  c = draw(hist.case(ctx, spec_strategy, max_steps, npool=4,
                     grad_modes=['away', 'pos'], param_modes=['away', 'pos']))
  name, kw = c['spec']['name'], c['spec']['kw']
  small = 1e-8 if 'adam' in name or 'lamb' in name else 1.0
  if name == 'fromage' or kw.get('eps', small) < 1e-4:  # Zero in float16.
    dtypes = [d for d in dtypes if d != 'float16']
  c['dtypes'] = [draw(st.sampled_from(dtypes)) for _ in c['tree']['shapes']]
  c['np'] = 0
  return c


BIG = [(0,), (2, 0), (0, 3), (130,), (300,), (1030,), (3, 40), (33, 32),
       (40, 3), (2, 3, 20), (3, 3, 2, 8), (257,)]


@st.composite
def large_case(draw, ctx, spec_strategy):
  """Trees of many leaves, and large or empty leaves."""
  if draw(st.booleans()):
    shapes = [list(draw(st.sampled_from([(), (2,), (1,), (1, 2)])))
              for _ in range(draw(st.integers(6, 14)))]
  else:
    shapes = [list(draw(st.sampled_from(gens.pool(ctx, 5, BIG))))
              for _ in range(draw(st.integers(1, 2)))]
  return {'tree': {'layout': draw(st.sampled_from(gens.LAYOUTS)),
                   'shapes': shapes},
          'spec': draw(spec_strategy), 'steps': draw(st.integers(1, 3)),
          'rng': draw(st.integers(0, 10 ** 6)),
          'zeros': draw(st.sampled_from([0.0, 0.0, 0.3])),
          'run': draw(st.sampled_from(['eager', 'eager', 'jit']))}


def run_large(case_, ctx, known=None):
  rng = np.random.default_rng(case_['rng'])

  def leaves(sparse):
    return [np.round(rng.normal(size=gens.size(s)) * 2
                     * (rng.random(gens.size(s)) >= sparse), 5).tolist()
            for s in case_['tree']['shapes']]
  params = [leaves(0.0) for _ in range(case_['steps'])]
  full = dict(case_, grads=[leaves(case_['zeros'])
                            for _ in range(case_['steps'])],
              params=params if specs.needs_params(case_['spec']) else params[0])
  run_history(full, ctx, known)
  ctx.label('large:%s' % ('many' if len(params[0]) > 2 else 'big'))


LENGTHS = st.one_of(st.integers(100, 700), st.integers(300, 3000),
                    st.integers(66000, 67000))


@st.composite
def deep_case(draw, spec_strategy):
  """Runs that outlast any 8- or 16-bit counter, and any warm-up."""
  return {'spec': draw(spec_strategy), 'steps': draw(LENGTHS),
          'rng': draw(st.integers(0, 10 ** 6)),
          'zeros': draw(st.sampled_from([0.0, 0.0, 0.5]))}


def run_deep(case_, ctx, known=None):
  n, spec = case_['steps'], case_['spec']
  rng = np.random.default_rng(case_['rng'])
  grads = rng.normal(size=(n, 2)) * (rng.random((n, 2)) >= case_['zeros'])
  p0 = rng.normal(size=2)
  ctx.label('deep:' + spec['name'],
            'deep:16 bits' if n > 65536 else 'deep:8 bits')
  ctx.nontrivial(n > 256)
  tx = specs.make(spec)

  def body(s, g):
    u, s = tx.update(g, s, jnp.asarray(p0))
    return s, u
  _, got = jax.jit(lambda g: jax.lax.scan(
      body, tx.init(jnp.asarray(p0)), g))(jnp.asarray(grads))
  got = np.asarray(got)
  full = {'tree': {'layout': 'bare', 'shapes': [[2]]}, 'spec': spec,
          'grads': [[g] for g in grads.tolist()], 'params': [p0.tolist()]}
  if specs.needs_params(spec):
    full['params'] = [full['params']] * n
  want = np.asarray([u[0] for u in hist.run_model(full)])
  scale = np.maximum.accumulate(np.abs(want).max(axis=1))[:, None]
  rtol = 1e-5 if spec.get('lr', {}).get('k') == 'poly' else 1e-8
  bad = ~(np.abs(got - want) <= rtol * np.abs(want) + (1e-10 + rtol / 10)
          * np.maximum(scale, 1e-3))
  if bad.any():
    if known is not None and known(full, ctx, [[u] for u in got]):
      return
    t = int(np.argmax(bad.any(axis=1)))
    gens.check(False, f'{spec}: update {t} of {n} is {got[t].tolist()}, '
               f'expected {want[t].tolist()}')


def deep_leg(spec_strategy, known=None, quick=32):
  return Leg('deep', lambda ctx: deep_case(spec_strategy), functools.partial(
      run_deep, known=known), quick, quick * 8)


def legs(names, quick=1600, known=None, low_specs=None, weights=None,
         max_steps=6, long_steps=60):
  """The standard legs for a family of transformations."""
  names = list(weights or names)
  strat = specs.any_of(names)
  run = functools.partial(run_history, known=known)
  out = [
      Leg('history', lambda ctx: hist.case(ctx, strat, max_steps), run,
          quick),
      Leg('long', lambda ctx: hist.case(
          ctx, specs.any_of(names, steps=20), long_steps, max_leaves=2,
          run=('jit',), npool=3, min_steps=8), run, max(quick // 12, 48)),
      Leg('large', lambda ctx: large_case(ctx, strat), functools.partial(
          run_large, known=known), max(quick // 10, 48)),
      deep_leg(specs.any_of([
          n for n in names if n not in ('scale_by_stddev', 'rmsprop')],
                            steps=20), known),
  ]
  if low_specs is not None:
    out.append(Leg('low', lambda ctx: low_case(ctx, low_specs),
                   functools.partial(run_low, known=known),
                   max(quick // 6, 64), x64=False))
  return out


RULE = ('A case is a tree of 1-3 leaves (rank 0-5, 10 container layouts), a '
        'transformation with drawn hyperparameters and learning rate, and a '
        'history of gradients and parameters; it is non-trivial if some '
        'gradient is non-zero and there is more than one step or leaf.')
