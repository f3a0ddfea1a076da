"""C33: step counters at their limit, and long runs."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax
from optax._src import numerics

from vf import gens
from vf import longrun
from vf import refs
from vf import spec as specs
from vf import wrap
from vf.core import Leg

ID = 'C33'
RULE = ('A case is a transformation, a tree and a history: (near) some steps, '
        'then the step counters are set to a number up to the largest int32, '
        'then some more, against the formula with that count; (wrapped) the '
        'same for nests of wrappers, where every counter must go up by 0 or 1 '
        'and stop at the limit, and two starting counts far beyond the '
        'schedules must give the same updates; (long) up to 4000 steps under '
        'lax.scan against the formula. Non-trivial: a counter exists (or >= '
        '1000 steps) and some gradient is non-zero.')
TOP = 2 ** 31 - 1
COUNTED = ['ema', 'scale_by_adam', 'scale_by_belief', 'scale_by_radam',
           'scale_by_schedule', 'adam', 'adamw', 'adabelief', 'radam', 'lamb',
           'sgd', 'adagrad', 'rmsprop', 'add_noise']
SHAPES = [(), (2,), (3,), (2, 3)]


def counters(state):
  """The paths and values of the int32 step counters in a state."""
  flat, _ = jax.tree_util.tree_flatten_with_path(state)
  return [(jax.tree_util.keystr(p), x) for p, x in flat
          if p and getattr(p[-1], 'name', None) == 'count']


def jump(state, count):
  """The state with all its step counters set."""
  flat, treedef = jax.tree_util.tree_flatten_with_path(state)
  return jax.tree_util.tree_unflatten(treedef, [
      jnp.asarray(count, jnp.int32)
      if p and getattr(p[-1], 'name', None) == 'count' else x
      for p, x in flat])


def jump_model(s, count):
  if isinstance(s, int):
    return count
  if isinstance(s, (list, tuple)):
    return type(s)(jump_model(x, count) for x in s)
  return s


def ema(decay, debias=True):
  def update(g, s, p):
    t, m = s
    t += 1
    m = [decay * a + (1 - decay) * x for a, x in zip(m, g)]
    return [a / (1 - decay ** t) if debias else a for a in m], (t, m)
  return refs.Model(lambda p: (0, [np.zeros_like(x) for x in p]), update)


def lr_fn(lr):
  if lr['k'] != 'mod':
    return lambda t: specs.lr_at(lr, t)
  a, n = lr['v']
  return lambda t: a * (1 + t % n)


def build(spec):
  """(optax transformation, model) of a spec, whose schedule may be 'mod'."""
  name, kw, lr = spec['name'], spec['kw'], spec.get('lr')
  if name == 'ema':
    return optax.ema(**kw), ema(**kw)
  if name == 'add_noise':
    return optax.add_noise(**kw), None
  if not lr or lr['k'] != 'mod':
    return specs.make(spec), specs.model(spec)
  a, n = lr['v']
  rate = lambda count: jnp.asarray(a) * (1 + count % n)
  if name == 'scale_by_schedule':
    return optax.scale_by_schedule(rate), refs.scale_by_schedule(lr_fn(lr))
  unit = dict(spec, lr={'k': 'float', 'v': 1.0})
  model = refs.chain(specs.model(unit), refs.scale_by_schedule(lr_fn(lr)))
  if name == 'rmsprop' and kw.get('momentum') is not None:
    # The learning rate comes before the momentum.
    base = refs.stddev if kw.get('centered') else refs.rms
    model = refs.chain(
        base(**{k: v for k, v in kw.items()
                if k in ('decay', 'eps', 'initial_scale')}),
        refs.scale_by_schedule(lambda t: -lr_fn(lr)(t)),
        refs.trace(kw['momentum'], kw.get('nesterov', False)))
  return getattr(optax, name)(rate, **kw), model


@st.composite
def spec_of(draw, names, mod=True):
  spec = draw(specs.any_of(names))
  if specs.ENTRIES[spec['name']].lr == 'schedule' and mod and (
      spec['name'] in ('sgd', 'adagrad', 'rmsprop', 'scale_by_schedule')
      or draw(st.booleans())):
    spec['lr'] = {'k': 'mod', 'v': [draw(st.sampled_from([0.5, 0.125, -0.25])),
                                    draw(st.integers(2, 97))]}
  spec['kw'].pop('seed', None)
  if spec['name'] == 'add_noise':
    spec['kw']['seed'] = 0
  if spec['kw'].get('centered'):
    spec['kw']['centered'] = False
  return spec


@st.composite
def near_case(draw, ctx):
  tree = draw(gens.tree_spec(ctx, 2, SHAPES, npool=4))
  before, after = draw(st.integers(0, 2)), draw(st.integers(1, 4))
  start = draw(st.one_of(
      st.integers(TOP - 4, TOP), st.integers(TOP - 4, TOP),
      st.integers(0, 3000), st.integers(0, TOP),
      st.sampled_from([255, 256, 32767, 65535, 2 ** 24, 2 ** 24 + 1, 2 ** 30,
                       2 ** 30 - 1])))
  return {'tree': tree, 'spec': draw(spec_of(COUNTED)),
          'before': before, 'start': start, 'x64': draw(st.booleans()),
          'jit': draw(st.integers(0, 3)) == 0,
          'grads': [draw(gens.leaf_values(tree, ['unit', 'away']))
                    for _ in range(before + after)],
          'params': draw(gens.leaf_values(tree, ['unit', 'pos']))}


def run_near(case, ctx):
  tree, spec = case['tree'], case['spec']
  n = len(tree['shapes'])
  dts = ['float64' if case['x64'] else 'float32'] * n
  tx, model = build(spec)
  kw = spec['kw']
  ctx.label('name:' + spec['name'], dts[0])
  params = gens.jax_tree(tree, case['params'], dts)
  np_params = gens.np_leaves(tree, case['params'])
  # The rectification of RAdam must not be a matter of rounding.
  skip = False
  state = tx.init(params)
  ms = model.init(np_params) if model else None
  update = jax.jit(tx.update) if case['jit'] else tx.update
  start = case['start']
  if start == 0 and case['before']:
    start = 1  # a counter of zero has no history
  count = 0
  for i, g in enumerate(case['grads']):
    if i == case['before']:
      state = jump(state, start)
      ms = jump_model(ms, start)
      count = start
      found = counters(state)
      ctx.nontrivial(found and any(v for leaf in g for v in leaf))
      ctx.label('limit:%s' % (TOP - start < len(case['grads'])))
    if 'radam' in spec['name']:
      skip = skip or near_tie(kw, count + 1)
    u, state = update(gens.jax_tree(tree, g, dts), state, params)
    what = f'{spec} with count {count}, update {i}'
    if model:
      want, ms = model.update(gens.np_leaves(tree, g), ms, np_params)
    else:
      want = None
    got = gens.unbuild(u, tree['layout'], n)
    if want is not None and not skip:
      scale = max([np.abs(w).max() for w in want if w.size] + [1e-3])
      rt, at = (1e-6, 1e-9) if case['x64'] else (2e-3, 1e-4)
      if not case['x64'] and kw_small(spec):
        at = 1e-2  # small denominators
      for a, b in zip(got, want):
        gens.close(a, b, rt, at * scale, what)
    count = min(count + 1, TOP)
    if ms is not None and count == TOP:
      ms = jump_model(ms, TOP)
    for path, c in counters(state):
      gens.check(str(c.dtype) == 'int32' and int(c) == count,
                 f'{what}: counter {path} is {c} ({c.dtype}), expected '
                 f'{count} (int32)')
    for a in got:
      gens.check(bool(np.isfinite(gens.f64(a)).all()),
                 f'{what}: update {gens.f64(a).tolist()}')


def near_tie(kw, t):
  b2, thr = kw.get('b2', 0.999), kw.get('threshold', 5.0)
  if b2 == 0:
    return True
  inf = 2 / (1 - b2) - 1
  rho = inf - 2 * t * b2 ** t / (1 - b2 ** t)
  # In float32 the cancellation is relative to 1/(1-b2^t).
  return abs(rho - thr) < 1e-2 * inf + 0.02


def kw_small(spec):
  return True


@st.composite
def wrapped_case(draw, ctx):
  tree = draw(gens.tree_spec(ctx, 2, SHAPES, npool=3))
  n = len(tree['shapes'])
  base = specs.any_of(
      [x for x in COUNTED if x != 'add_noise'] + ['yogi', 'scale_by_yogi'],
      lr_kinds=['table', 'const'])
  w = draw(wrap.wrapped(base, n, depth=2))
  steps = draw(st.integers(2, 5))
  return {'tree': tree, 'w': w, 'below': draw(st.integers(0, 6)),
          'grads': [draw(gens.leaf_values(tree, ['unit', 'away']))
                    for _ in range(steps)],
          'params': draw(gens.leaf_values(tree, ['unit', 'pos']))}


def run_wrapped(case, ctx):
  tree, w = case['tree'], case['w']
  n = len(tree['shapes'])
  tx = wrap.make(w, tree)
  ctx.label(*['name:' + x for x in set(wrap.names(w))])
  params = gens.jax_tree(tree, case['params'])
  runs = []
  update = jax.jit(tx.update)
  for start in (10 ** 9, TOP - case['below']):
    state = jump(tx.init(params), start)
    last = [int(c) for _, c in counters(state)]
    outs = []
    for i, g in enumerate(case['grads']):
      u, state = update(gens.jax_tree(tree, g), state, params)
      now = counters(state)
      gens.check(len(now) == len(last), f'{w}: the counters changed')
      for (path, c), old in zip(now, last):
        gens.check(str(c.dtype) == 'int32' and
                   int(c) in (old, min(old + 1, TOP)),
                   f'{w}: counter {path} went from {old} to {c} ({c.dtype})')
      last = [int(c) for _, c in now]
      outs.append([gens.f64(x) for x in
                   gens.unbuild(u, tree['layout'], n)])
    runs.append(outs)
  ctx.nontrivial(last and any(v for g in case['grads'] for leaf in g
                              for v in leaf))
  ctx.label('counters:%d' % min(len(last), 4))
  for i, (a, b) in enumerate(zip(*runs)):
    for x, y in zip(a, b):
      if not wrap.any_entry(w, 'random'):  # (the noise is annealed)
        gens.close(y, x, 1e-9, 1e-12,
                   f'{w}: update {i} from count {TOP - case["below"]}, '
                   'compared with the one from count 1e9')
      gens.check(np.isfinite(y).all(), f'{w}: update {i} is {y.tolist()}')


@st.composite
def noise_case(draw, ctx):
  return {'kw': {'eta': draw(gens.logf(1e-2, 10.0)),
                 'gamma': draw(st.one_of(st.sampled_from([0.0, 0.55, 1.0]),
                                         st.integers(0, 4),
                                         gens.nice(0.0, 2.0))),
                 'seed': draw(st.integers(0, 1000))},
          'shape': draw(st.sampled_from([[4], [2, 3], []])),
          'start': draw(st.one_of(st.integers(TOP - 2, TOP),
                                  st.integers(1, 10 ** 5),
                                  st.integers(1, TOP)))}


def run_noise(case, ctx):
  """The noise at a count is the one of the first update, annealed."""
  kw = case['kw']
  tx = optax.add_noise(**kw)
  g = jnp.zeros(case['shape'])
  state = tx.init(g)
  first = gens.f64(tx.update(g, state)[0])
  u, after = tx.update(g, jump(state, case['start']))
  t = min(case['start'] + 1, TOP)
  ctx.nontrivial(kw['gamma'] > 0)
  ctx.label('limit:%s' % (t == TOP))
  gens.close(u, first * t ** (-kw['gamma'] / 2), 1e-5, 1e-30,
             f'add_noise({kw}) at count {case["start"]}')
  gens.check(int(after.count) == t, f'add_noise: count {after.count} after '
             f'{case["start"]}')


LONG = [x for x in specs.DETERMINISTIC
        if x not in ('yogi', 'scale_by_yogi', 'keep_params_nonnegative',
                      'scale_by_stddev')]


@st.composite
def long_case(draw, ctx):
  shapes = draw(st.lists(st.sampled_from([(2,), (), (2, 2)]), min_size=1,
                         max_size=2))
  tree = {'layout': 'list', 'shapes': [list(s) for s in shapes]}
  period = draw(st.integers(1, 7))
  return {'tree': tree, 'spec': draw(spec_of(LONG)), 'x64': True,
          'steps': draw(st.integers(1000, 4000)),
          'grads': [draw(gens.leaf_values(tree, ['unit', 'away', 'sparse']))
                    for _ in range(period)],
          'params': [draw(gens.leaf_values(tree, ['unit', 'pos']))
                     for _ in range(draw(st.integers(1, 3)))]}


def run_long(case, ctx):
  tree, spec, steps = case['tree'], case['spec'], case['steps']
  n = len(tree['shapes'])
  tx, model = build(spec)
  ctx.label('name:' + spec['name'], 'thousands:%d' % (steps // 1000))
  ctx.nontrivial(any(v for g in case['grads'] for leaf in g for v in leaf))
  if 'radam' in spec['name'] and any(
      abs(rho(spec['kw'], t) - spec['kw'].get('threshold', 5.0)) < 1e-6
      for t in range(1, 40)):
    return
  gs = [gens.np_leaves(tree, g) for g in case['grads']]
  ps = [gens.np_leaves(tree, p) for p in case['params']]
  stack = lambda xs: [jnp.stack([jnp.asarray(x[i]) for x in xs])
                      for i in range(n)]
  gj, pj = stack(gs), stack(ps)
  state = tx.init([x[0] for x in pj])

  def body(s, t):
    g = [x[t % len(gs)] for x in gj]
    p = [x[t % len(ps)] for x in pj]
    u, s = tx.update(g, s, p)
    return s, u
  final, us = jax.lax.scan(body, state, jnp.arange(steps))
  ms = model.init(ps[0])
  want = []
  for t in range(steps):
    u, ms = model.update(gs[t % len(gs)], ms, ps[t % len(ps)])
    want.append(u)
  poly = spec.get('lr', {}).get('k') == 'poly'
  for i in range(n):
    b = np.stack([w[i] for w in want])
    a = gens.f64(us[i])
    if a.shape != b.shape:
      gens.check(False, f'{spec}: shape {a.shape[1:]}')
    scale = max(np.abs(b).max(), 1e-3)
    bad = np.abs(a - b) > (1e-5 if poly else 1e-7) * np.abs(b) + (
        1e-6 if poly else 1e-8) * scale
    bad |= ~np.isfinite(a)
    if bad.any():
      t = int(np.argwhere(bad)[0][0])
      gens.close(a[t], b[t], 1e-7, 1e-8 * scale,
                 f'{spec}: update {t} of {steps}, leaf {i}')
      gens.check(False, f'{spec}: update {t} of {steps} is {a[t].tolist()}')
  for path, c in counters(final):
    if spec['name'] != 'apply_every':
      gens.check(int(c) == steps,
                 f'{spec}: counter {path} is {c} after {steps} steps')


def rho(kw, t):
  b2 = kw.get('b2', 0.999)
  return 2 / (1 - b2) - 1 - 2 * t * b2 ** t / (1 - b2 ** t)


@st.composite
def inc_case(draw, ctx):
  return {'x': draw(st.one_of(
      st.integers(TOP - 3, TOP), st.integers(-2 ** 31, TOP),
      st.integers(-3, 3), st.lists(st.one_of(
          st.integers(TOP - 1, TOP), st.integers(-2 ** 31, TOP)),
                                   min_size=1, max_size=4))),
          'jit': draw(st.integers(0, 5)) == 0}


def run_inc(case, ctx):
  x = case['x']
  f = jax.jit(numerics.safe_int32_increment) if case['jit'] else (
      numerics.safe_int32_increment)
  got = f(jnp.asarray(x, jnp.int32))
  want = np.minimum(np.asarray(x, np.int64) + 1, TOP)
  ctx.nontrivial(TOP in np.atleast_1d(want))
  gens.check(str(got.dtype) == 'int32' and got.shape == want.shape and
             (np.asarray(got) == want).all(),
             f'safe_int32_increment({x}) is {got} ({got.dtype})')


LEGS = [Leg('near', near_case, run_near, 800, x64=None),
        Leg('wrapped', wrapped_case, run_wrapped, 300),
        Leg('noise', noise_case, run_noise, 200),
        Leg('long', long_case, run_long, 200),
        Leg('increment', inc_case, run_inc, 200),
        longrun.CYCLE,
        longrun.leg(['apply_if_finite', 'multi_steps', 'apply_every',
                     'maybe_update', 'lookahead'])]
