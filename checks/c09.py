"""C09: inject_hyperparams."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from vf import core
from vf import gens
from vf import spec as specs
from vf.core import Leg

ID = 'C09'
RULE = ('A case is a factory, a split of its arguments into constants, '
        'schedules (a table of values per step), static arguments and '
        'defaults, passed by position or keyword, a history of gradients and '
        'overrides of state.hyperparams in between; every update is compared '
        'with the factory called with the values that should be in use. '
        'Non-trivial: a non-zero gradient, and a schedule, an override or a '
        'static argument.')
ASSUMPTIONS = ['Transformations compute the same with Python and with array '
               'hyperparameters of the same value (up to rounding).']


def custom(a, b, fn=jnp.tanh, c=0.5, flag=False, label='x', limit=None):
  """A factory with a callable, a string, a None and a bool argument."""
  assert label == 'x' or label == 'y'

  def init(params):
    return (jnp.zeros([], jnp.int32), jax.tree_util.tree_map(
        lambda p: jnp.zeros_like(p) + a, params))

  def update(updates, state, params=None):
    n, acc = state
    acc = jax.tree_util.tree_map(lambda m, g: b * m + c * fn(g), acc, updates)
    k = 2.0 if flag else 1.0
    if label == 'y':
      k = -k
    if limit is not None:
      acc = jax.tree_util.tree_map(lambda m: jnp.minimum(m, limit), acc)
    return jax.tree_util.tree_map(lambda m: (k * a * m).astype(m.dtype),
                                  acc), (n + 1, acc)
  return optax.GradientTransformation(init, update)


CUSTOM = {'a': gens.nice(-2, 2), 'b': gens.nice(0, 0.9), 'c': gens.nice(-1, 1),
          'flag': st.booleans(), 'label': st.sampled_from(['x', 'y']),
          'limit': st.one_of(st.none(), gens.nice(-1, 1)),
          'fn': st.sampled_from(['sin', 'square'])}
ARRAY = {'': lambda v: v, 'jax': jnp.asarray, 'numpy': np.asarray}
FNS = {'sin': jnp.sin, 'square': jnp.square}
NAMES = ['sgd', 'adam', 'adamw', 'rmsprop', 'lamb', 'adagrad', 'adabelief',
         'yogi', 'radam', 'fromage', 'trace', 'ema', 'clip',
         'clip_by_global_norm', 'add_decayed_weights', 'scale',
         'scale_by_adam', 'scale_by_rms', 'scale_by_stddev', 'scale_by_rss',
         'scale_by_trust_ratio', 'scale_by_belief', 'adaptive_grad_clip',
         'apply_every', 'noisy_sgd', 'add_noise', 'custom', 'custom', 'custom']
ORDER = {'custom': ['a', 'b', 'fn', 'c', 'flag', 'label', 'limit']}
SHAPES = [(), (2,), (3,), (2, 3), (2, 1, 2)]


def factory(name):
  return custom if name == 'custom' else getattr(optax, name)


def kwargs_strategy(name):
  if name == 'custom':
    return specs.merge(st.fixed_dictionaries(
        {k: CUSTOM[k] for k in ('a', 'b')}), specs.kw(
            **{k: v for k, v in CUSTOM.items() if k not in 'ab'}))
  e = specs.ENTRIES[name]
  out = e.strategy
  if e.lr:
    out = specs.merge(out, specs.req(learning_rate=gens.logf(1e-3, 2.0)))
  return out


@st.composite
def case(draw, ctx, names=NAMES):
  name = draw(st.sampled_from(names))
  kws = [draw(kwargs_strategy(name)) for _ in range(4)]
  steps = draw(st.integers(1, 4))
  args = {}
  for k, v in kws[0].items():
    vals = [kw[k] for kw in kws if k in kw and type(kw[k]) is type(v)]
    fixed = (isinstance(v, (bool, str)) or v is None
             or k in ('k', 'seed', 'fn', 'label', 'threshold'))
    if fixed:
      mode = 'static' if k == 'fn' else draw(
          st.sampled_from(['plain', 'plain', 'static']))
    else:
      mode = draw(st.sampled_from(
          ['const', 'const', 'sched', 'sched', 'static']))
    args[k] = {'mode': mode, 'v': v, 'vals': vals}
    if mode == 'const' and isinstance(v, float):
      args[k]['as'] = draw(st.sampled_from(['', '', 'jax', 'numpy']))
  if 'fn' not in args and name == 'custom':
    # The default is a callable too: it needs to be static.
    args['fn'] = {'mode': 'static', 'v': None, 'vals': []}
  tree = draw(gens.tree_spec(ctx, 2, SHAPES, npool=5))
  consts = [k for k, a in args.items() if a['mode'] == 'const'
            or a['mode'] == 'plain' and k in ('threshold',)]
  scheds = [k for k, a in args.items() if a['mode'] == 'sched']
  overrides = []
  for t in range(1, steps):
    if draw(st.booleans()):
      k = draw(st.sampled_from(sorted(consts + scheds) or [None]))
      if k is not None:
        overrides.append([t, k, draw(st.sampled_from(args[k]['vals']))])
  return {
      'name': name, 'args': args, 'tree': tree, 'overrides': overrides,
      'positional': draw(st.integers(0, 4)),
      'static_as': draw(st.sampled_from(['list', 'set', 'gen', 'str'])),
      'jit': draw(st.integers(0, 5)) == 0,
      'grads': [draw(gens.leaf_values(tree, ['unit', 'int', 'sparse']))
                for _ in range(steps)],
      'params': draw(gens.leaf_values(tree, ['unit', 'wide'])),
  }


def signature(name):
  import inspect
  return list(inspect.signature(factory(name)).parameters)


def build(case, wrap=True):
  """The injected transformation of a case."""
  name, args = case['name'], case['args']

  def value(k):
    a = args[k]
    if a['mode'] == 'sched':
      vals = a['vals']
      return lambda count: jnp.asarray(vals)[count % len(vals)]
    if k == 'fn':
      return FNS[a['v']]
    return ARRAY[a.get('as', '')](a['v'])
  static = [k for k, a in args.items() if a['mode'] == 'static']
  present = [k for k in args if not (k == 'fn' and args[k]['v'] is None)]
  sig = signature(name)
  pos = []
  for k in sig[:case['positional']]:
    if k not in present:
      break
    pos.append(value(k))
  kws = {k: value(k) for k in present if k not in sig[:len(pos)]}
  how = case['static_as']
  if how == 'str' and len(static) == 1:
    st_args = static[0]
  else:
    st_args = {'set': set(static), 'gen': (s for s in static)}.get(how, static)
  if not static:
    injected = optax.inject_hyperparams(factory(name))
  else:
    injected = optax.inject_hyperparams(factory(name), static_args=st_args)
  return injected(*pos, **kws)


def current(case, t, over):
  """The values that update t (counted from 1; 0 at init) should use."""
  out = {}
  for k, a in case['args'].items():
    if a['mode'] == 'sched':
      out[k] = a['vals'][t % len(a['vals'])]
    elif k == 'fn':
      if a['v'] is not None:
        out[k] = FNS[a['v']]
    else:
      out[k] = over.get(k, a['v'])
  return out


def exposed(case):
  """Names that state.hyperparams must hold: numbers that are not static."""
  import inspect
  out = set()
  for k, p in inspect.signature(factory(case['name'])).parameters.items():
    a = case['args'].get(k)
    if a is None:
      if isinstance(p.default, (int, float)) and not isinstance(
          p.default, bool):
        out.add(k)
    elif a['mode'] == 'sched' or a['mode'] != 'static' and isinstance(
        a['v'], (int, float)) and not isinstance(a['v'], bool):
      out.add(k)
  return out


def run(case, ctx):
  name, tree = case['name'], case['tree']
  n = len(tree['shapes'])
  modes = {a['mode'] for a in case['args'].values()}
  ctx.label('name:' + name, 'jit:%s' % case['jit'],
            *['mode:' + m for m in modes])
  ctx.label('overrides:%d' % len(case['overrides']),
            *['as:' + a['as'] for a in case['args'].values() if a.get('as')])
  ctx.nontrivial((modes & {'sched', 'static'} or case['overrides']) and any(
      v for g in case['grads'] for leaf in g for v in leaf))
  tx = build(case)
  fac = factory(name)
  jt = lambda v: gens.jax_tree(tree, v)
  p = jt(case['params'])
  state = tx.init(p)
  over = {}
  ref = fac(**current(case, 0, over)).init(p)
  names = exposed(case)

  def expose(state, t):
    gens.check(set(state.hyperparams) == names,
               f'{name}: state.hyperparams has {sorted(state.hyperparams)}, '
               f'expected {sorted(names)}')
    cur = current(case, t, over)
    for k, v in state.hyperparams.items():
      if k in cur:
        gens.close(v, np.asarray(cur[k]), 1e-9, 0,
                   f'{name}: state.hyperparams[{k!r}] after update {t}')
    gens.check(int(state.count) == t, f'{name}: count {state.count} after '
               f'update {t}')
  expose(state, 0)
  what = {k: (a['mode'], a['v']) for k, a in case['args'].items()}
  check_states(state.inner_state, ref, f'{name}({what}): initial state')
  update = jax.jit(tx.update) if case['jit'] else tx.update
  for t, g in enumerate(case['grads'], 1):
    for when, k, v in case['overrides']:
      if when == t - 1:
        ctx.label('override:' + case['args'][k]['mode'])
        state.hyperparams[k] = v if t % 2 else jnp.asarray(v)
        if case['args'][k]['mode'] != 'sched':
          over[k] = v
    g = jt(g)
    u, state = update(g, state, p)
    w, ref = fac(**current(case, t, over)).update(g, ref, p)
    for i, (x, y) in enumerate(zip(gens.unbuild(u, tree['layout'], n),
                                   gens.unbuild(w, tree['layout'], n))):
      top = float(np.abs(gens.f64(y)).max()) if y.size else 0.0
      gens.close(x, y, 1e-8, 1e-11 * max(top, 1e-3),
                 f'{name}({what}), overrides {case["overrides"]}: update {t} '
                 f'of leaf {i}')
    check_states(state.inner_state, ref, f'{name}({what}): state {t}')
    expose(state, t)


def check_states(a, b, what):
  fa, ta = jax.tree_util.tree_flatten(a)
  fb, tb = jax.tree_util.tree_flatten(b)
  gens.check(ta == tb, f'{what}: structure')
  for x, y in zip(fa, fb):
    gens.close(x, y, 1e-8, 1e-10, what)


# --- dtypes -----------------------------------------------------------------


@st.composite
def dtype_case(draw, ctx):
  c = draw(case(ctx, [n for n in NAMES if n not in ('noisy_sgd',
                                                    'add_noise')]))
  c['dtype'] = draw(st.sampled_from(['float32', 'bfloat16', 'float16',
                                     'float64']))
  c['x64'] = c['dtype'] == 'float64' or draw(st.booleans())
  c['jit'] = False
  c['overrides'] = []
  return c


def run_dtype(case, ctx):
  tree, d = case['tree'], case['dtype']
  n = len(tree['shapes'])
  ctx.label('dtype:' + d, 'name:' + case['name'])
  ctx.nontrivial(len(exposed(case)) > 0)
  tx = build(case)
  jt = lambda v: gens.jax_tree(tree, v, [d] * n)
  p = jt(case['params'])
  state = tx.init(p)
  eps = {'float32': 1e-6, 'bfloat16': 1e-2, 'float16': 2e-3,
         'float64': 1e-6}[d]
  for t, g in enumerate([None] + case['grads']):
    if g is not None:
      u, state = tx.update(jt(g), state, p)
      for x in gens.unbuild(u, tree['layout'], n):
        gens.check(str(x.dtype) == d, f'{case["name"]}: update {t} has dtype '
                   f'{x.dtype} for gradients of {d}')
    cur = current(case, t, {})
    for k, v in state.hyperparams.items():
      if k not in cur:
        continue
      if isinstance(cur[k], float):
        gens.check(str(v.dtype) == d, f'{case["name"]}: hyperparameter {k} has '
                   f'dtype {v.dtype}, the parameters {d} (update {t})')
      gens.close(v, np.asarray(cur[k]), eps, 6e-8 if d == 'float16' else 0,
                 f'{case["name"]}: hyperparameter {k} at update {t}')


# --- array hyperparameters --------------------------------------------------

POS, UNIT, ANY = (gens.nice(0.1, 2), gens.nice(0, 0.9), gens.nice(-2, 2))
VECTOR = {
    'scale': {'step_size': ANY}, 'sgd': {'learning_rate': ANY,
                                         'momentum': UNIT},
    'trace': {'decay': UNIT}, 'ema': {'decay': UNIT}, 'clip': {'max_delta': POS},
    'add_decayed_weights': {'weight_decay': ANY},
    'scale_by_rms': {'decay': UNIT, 'eps': POS, 'initial_scale': POS},
    'scale_by_adam': {'b1': UNIT, 'b2': UNIT, 'eps': POS, 'eps_root': POS},
    'adam': {'learning_rate': ANY, 'b1': UNIT, 'eps': POS},
    'custom': {'a': ANY, 'b': UNIT, 'c': ANY, 'limit': ANY},
}
WHOLE = {'scale', 'add_decayed_weights', 'custom', 'clip'}


@st.composite
def vector_case(draw, ctx):
  """Hyperparameters that are arrays: one value per column of every leaf."""
  name = draw(st.sampled_from(sorted(VECTOR)))
  k = draw(st.sampled_from([1, 2, 3]))
  values = VECTOR[name]
  args = {}
  for x in sorted(values):
    if x not in ('b1', 'b2', 'eps', 'eps_root', 'initial_scale', 'c',
                 'limit') or draw(st.booleans()):
      el = values[x]
      whole = name in WHOLE and draw(st.integers(0, 3)) == 0
      args[x] = {'v': draw(st.lists(
          el.map(lambda v: float(round(v) or 1)) if whole else el,
          min_size=k, max_size=k)),
                 'new': draw(st.lists(el, min_size=k, max_size=k)),
                 'as': ('int' if whole else draw(st.sampled_from(
                     ['numpy', 'jax', 'sched', 'scalar', 'f32'])))}
  steps = draw(st.integers(1, 3))
  tree = {'layout': draw(st.sampled_from(gens.LAYOUTS)),
          'shapes': [list(draw(st.sampled_from([(), (2,), (2, 1)]))) + [k]
                     for _ in range(draw(st.integers(1, 2)))]}
  return {'name': name, 'k': k, 'args': args, 'tree': tree,
          'override': draw(st.sampled_from([None, 1, 2])),
          'key': draw(st.sampled_from(sorted(args) or ['eps'])),
          'grads': [draw(gens.leaf_values(tree, ['unit', 'int', 'sparse']))
                    for _ in range(steps)],
          'params': draw(gens.leaf_values(tree, ['unit', 'wide']))}


def run_vector(case, ctx):
  name, tree, k, args = (case[x] for x in ('name', 'tree', 'k', 'args'))
  n = len(tree['shapes'])
  static = {'fn': jnp.sin} if name == 'custom' else {}

  def given(a):
    v = np.asarray(a['v'])
    return {'numpy': v, 'jax': jnp.asarray(v), 'scalar': float(v[0]),
            'int': v.astype(np.int64), 'f32': v.astype(np.float32),
            'sched': lambda c: jnp.asarray(v) * (1 + c)}[a['as']]

  def column(a, t, j):
    if a['as'] == 'f32':
      return float(np.float32(a['v'][j]))
    return {'scalar': a['v'][0]}.get(a['as'], a['v'][j]) * (
        (1 + t) if a['as'] == 'sched' else 1)
  ctx.label('vector:' + name, *['vector as:' + a['as'] for a in args.values()])
  ctx.nontrivial(k > 1 and any(v for g in case['grads'] for x in g for v in x))
  fac = factory(name)
  tx = optax.inject_hyperparams(fac, static_args=tuple(static))(
      **static, **{x: given(a) for x, a in args.items()})
  jt = lambda v: gens.jax_tree(tree, v)
  cut = lambda tr, j: jax.tree_util.tree_map(lambda x: x[..., j], tr)
  p = jt(case['params'])
  state = tx.init(p)
  made = lambda t, j, over: fac(**static, **{
      x: over[x][j] if x in over else column(a, t, j)
      for x, a in args.items()})
  over = {}
  cols = [made(0, j, over).init(cut(p, j)) for j in range(k)]
  for t, g in enumerate(case['grads'], 1):
    if case['override'] == t - 1:
      x = case['key']
      if x in args and args[x]['as'] != 'sched':
        ctx.label('vector override')
        state.hyperparams[x] = jnp.asarray(args[x]['new'])
        over[x] = args[x]['new']
    g = jt(g)
    u, state = tx.update(g, state, p)
    for j in range(k):
      w, cols[j] = made(t, j, over).update(cut(g, j), cols[j], cut(p, j))
      for i, (a, b) in enumerate(zip(gens.unbuild(u, tree['layout'], n),
                                     gens.unbuild(w, tree['layout'], n))):
        gens.close(a[..., j], b, 1e-9, 1e-11,
                   f'{name}({args}): update {t} of column {j} of leaf {i}')
    for x, a in args.items():
      want = np.asarray([over[x][j] if x in over else column(a, t, j)
                         for j in range(k)])
      gens.close(jnp.broadcast_to(state.hyperparams[x], (k,)), want, 1e-12, 0,
                 f'{name}: state.hyperparams[{x!r}] after update {t}')


LEGS = [Leg('differential', case, run, 900),
        Leg('vector', vector_case, run_vector, 320),
        Leg('dtype', dtype_case, run_dtype, 320, x64=None)]
