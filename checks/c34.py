"""C34: invalid use is rejected, valid use next to it is accepted."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax
from optax._src import numerics
from optax._src import utils

from vf import gens
from vf import spec as specs
from vf import wrap
from vf.core import Leg

ID = 'C34'
RULE = ('A case is a call with an argument on either side of a documented '
        'limit: it must raise exactly the documented exception when it is '
        'invalid and return a value when it is valid. (params) transformations '
        'and nests of wrappers with and without the parameters. Non-trivial: '
        'every invalid call, and valid ones at the limit.')


def expect(error, fn, what):
  """fn() must raise `error` (None: nothing)."""
  try:
    out = fn()
  except Exception as e:  # pylint: disable=broad-except
    gens.check(error is not None and isinstance(e, error),
               f'{what}: raised {type(e).__name__} ({str(e)[:200]}), expected '
               f'{error or "no exception"}')
    return None
  gens.check(error is None, f'{what}: accepted, expected '
             f'{error.__name__ if error else ""}')
  return out


# --- schedules ---------------------------------------------------------------

GOOD_SCALE = st.sampled_from([0.0, 1.0, 0.5, 3, 0, 1e-30, 7.5])
BAD_SCALE = st.sampled_from([-1.0, -1, -1e-30, -0.5, -1e9])


@st.composite
def scales(draw):
  out = draw(st.lists(st.one_of(GOOD_SCALE, GOOD_SCALE, GOOD_SCALE, BAD_SCALE),
                      max_size=5))
  start = draw(st.integers(0, 50))
  return [[start + 7 * i, s] for i, s in enumerate(out)]


@st.composite
def schedule_case(draw, ctx):
  k = draw(st.sampled_from(['pconst', 'interp', 'cosine', 'warmcos', 'sgdr',
                            'onecycle', 'lookahead', 'inject']))
  n = st.one_of(st.integers(-3, 3), st.integers(-1, 1),
                st.integers(-100, 100))
  out = {'k': k}
  if k == 'pconst':
    out['bs'] = draw(st.one_of(st.none(), scales()))
  elif k == 'interp':
    out['type'] = draw(st.sampled_from(
        ['linear', 'cosine', 'linear', 'cosine', 'linear', 'cosine', 'cos',
         'Linear', 'COSINE', '', None, 'cubic', 'linear ', 0]))
    out['bs'] = draw(st.one_of(st.none(), scales(), scales()))
  elif k == 'cosine':
    out['n'] = draw(n)
    out['alpha'] = draw(st.sampled_from([None, 0.0, 0.5, 1.0, -0.5]))
  elif k == 'warmcos':
    out['w'] = draw(st.integers(0, 6))
    out['n'] = out['w'] + draw(n)
  elif k == 'sgdr':
    ws = draw(st.lists(st.integers(0, 4), min_size=1, max_size=4))
    out['cycles'] = [[w, w + draw(st.one_of(st.integers(1, 5), st.integers(
        1, 5), n))] for w in ws]
  elif k == 'onecycle':
    out['kind'] = draw(st.sampled_from(['linear', 'cosine']))
    out['n'] = draw(n)
  elif k == 'lookahead':
    out['n'] = draw(n)
    out['reset'] = draw(st.booleans())
  else:
    out['f'] = draw(st.sampled_from(['adam', 'scale', 'rmsprop', 'trace']))
    good = {'adam': ['learning_rate', 'b1', 'b2', 'eps', 'eps_root'],
            'scale': ['step_size'], 'trace': ['decay', 'nesterov'],
            'rmsprop': ['learning_rate', 'decay', 'centered', 'nesterov']}
    good = good[out['f']]
    pick = st.one_of(*[st.sampled_from(good)] * 3, st.sampled_from(
        ['beta', 'lr', 'args', '', good[0][:-1], good[0].upper()]))
    out['names'] = draw(st.lists(pick, max_size=3, unique=True))
    out['form'] = draw(st.sampled_from(['list', 'tuple', 'set', 'str', 'iter']))
    if out['form'] == 'str':
      out['names'] = [draw(pick)]
    out['good'] = good
  return out


def run_schedule(case, ctx):
  k = case['k']
  what = str(case)
  ctx.label('kind:' + k)
  if k in ('pconst', 'interp'):
    bs = None if case['bs'] is None else {b: s for b, s in case['bs']}
    bad = any(s < 0 for s in (bs or {}).values())
    if k == 'pconst':
      fn = lambda: optax.piecewise_constant_schedule(0.5, bs)
    else:
      bad = bad or case['type'] not in ('linear', 'cosine')
      fn = lambda: optax.piecewise_interpolate_schedule(case['type'], 0.5, bs)
    at_limit = bs and 0 in bs.values()
  elif k == 'cosine':
    bad, at_limit = case['n'] <= 0, case['n'] == 1
    kw = {} if case['alpha'] is None else {'alpha': case['alpha']}
    fn = lambda: optax.cosine_decay_schedule(0.5, case['n'], **kw)
  elif k == 'warmcos':
    bad = case['n'] <= case['w']
    at_limit = case['n'] == case['w'] + 1
    fn = lambda: optax.warmup_cosine_decay_schedule(
        0.1, 0.5, case['w'], case['n'])
  elif k == 'sgdr':
    bad = any(n <= w for w, n in case['cycles'])
    at_limit = any(n == w + 1 for w, n in case['cycles'])
    fn = lambda: optax.sgdr_schedule(
        [dict(init_value=0.1, peak_value=0.5, warmup_steps=w, decay_steps=n)
         for w, n in case['cycles']])
  elif k == 'onecycle':
    bad, at_limit = case['n'] <= 0, case['n'] == 1
    make = getattr(optax, case['kind'] + '_onecycle_schedule')
    fn = lambda: make(case['n'], 0.5)
  elif k == 'lookahead':
    bad, at_limit = case['n'] < 1, case['n'] == 1
    fn = lambda: optax.lookahead(optax.sgd(0.1), case['n'], 0.5,
                                 reset_state=case['reset'])
  else:
    bad = any(x not in case['good'] for x in case['names'])
    at_limit = len(case['names']) > 0
    arg = {'list': list, 'tuple': tuple, 'set': set, 'str': lambda x: x[0],
           'iter': iter}[case['form']](case['names'])
    fn = lambda: optax.inject_hyperparams(getattr(optax, case['f']),
                                          static_args=arg)
  out = expect(ValueError if bad else None, fn, what)
  ctx.label('bad:%s' % bool(bad))
  ctx.nontrivial(bad or at_limit)
  if bad:
    return
  if k == 'lookahead':
    p = optax.LookaheadParams.init_synced({'a': jnp.ones(3)})
    u, _ = out.update({'a': jnp.ones(3)}, out.init(p), p)
    gens.check(np.isfinite(gens.f64(u.fast['a'])).all(), what)
  elif k == 'inject':
    p = jnp.ones(3)
    tx = out(0.5)
    u, _ = tx.update(p, tx.init(p))
    gens.check(np.isfinite(gens.f64(u)).all(), what)
  elif k != 'interp' or case['bs']:
    v = [float(out(s)) for s in (0, 1, 5, 1000)]
    gens.check(np.isfinite(v).all(), f'{what}: values {v}')


# --- losses -------------------------------------------------------------------

LOSSES = ['l2_loss', 'huber_loss', 'smooth_labels',
          'sigmoid_binary_cross_entropy', 'softmax_cross_entropy',
          'cosine_similarity', 'cosine_distance']
FLOATS = ['float32', 'float64', 'bfloat16', 'float16']
INTS = ['int32', 'int64', 'int8', 'uint8', 'bool', 'complex64']
SHAPES = [[3], [2, 3], [1, 3], [2, 1, 3], [2, 1], [4, 2, 3], [1], [2]]


@st.composite
def loss_case(draw, ctx):
  dt = st.one_of(st.sampled_from(FLOATS), st.sampled_from(FLOATS),
                 st.sampled_from(INTS))
  a = draw(st.sampled_from(SHAPES))
  return {'loss': draw(st.sampled_from(LOSSES)), 'dt': [draw(dt), draw(dt)],
          'shapes': [a, draw(st.one_of(st.just(a), st.sampled_from(SHAPES)))],
          'targets': draw(st.booleans()),
          'np': draw(st.booleans()), 'jit': draw(st.integers(0, 3)) == 0}


def broadcastable(a, b):
  """Whether an array of shape a can be broadcast to shape b."""
  if len(a) > len(b):
    return False
  return all(x in (1, y) for x, y in zip(a[::-1], b[::-1]))


def run_loss(case, ctx):
  name = case['loss']
  arrays = []
  for dt, shape in zip(case['dt'], case['shapes']):
    x = np.linspace(0.2, 1.0, gens.size(shape)).reshape(shape)
    x = x.astype(jnp.dtype(dt))
    arrays.append(x if case['np'] else jnp.asarray(x))
  isf = [d in FLOATS for d in case['dt']]
  fn = getattr(optax, name)
  shapes = case['shapes']
  if name in ('l2_loss', 'huber_loss'):
    bad = not isf[0]
    if not case['targets']:
      arrays = arrays[:1]
    else:
      # Nothing is promised about other targets, or incompatible shapes.
      if not isf[1]:
        arrays[1] = arrays[1].astype(jnp.float32)
      if not (broadcastable(*shapes) or broadcastable(*shapes[::-1])):
        arrays = arrays[:1]
  elif name == 'smooth_labels':
    bad = not isf[0]
    arrays = arrays[:1]
    fn = lambda x: optax.smooth_labels(x, 0.1)
  else:
    bad = not all(isf) or not broadcastable(*shapes)
    if not bad and name == 'softmax_cross_entropy' and (
        shapes[0][-1] != shapes[1][-1]):
      return
  ctx.label('loss:' + name, 'bad:%s' % bad)
  ctx.nontrivial(bad or shapes[0] != shapes[1] or 'float16' in case['dt']
                 or 'bfloat16' in case['dt'])
  if case['jit']:
    fn = jax.jit(fn)
  expect(AssertionError if bad else None, lambda: fn(*arrays),
         f'{name} of {[(str(a.dtype), a.shape) for a in arrays]}')


# --- transformations ----------------------------------------------------------


@st.composite
def params_case(draw, ctx):
  tree = draw(gens.tree_spec(ctx, 2, [(), (2,), (2, 3)], npool=3))
  n = len(tree['shapes'])
  need = [x for x, e in specs.ENTRIES.items() if e.params]
  base = st.one_of(specs.any_of(need), specs.any_of(
      [x for x, e in specs.ENTRIES.items() if not e.batch]))
  w = draw(st.one_of(base, wrap.wrapped(base, n, depth=2)))
  wrap.fix_rank(w, tree)
  return {'tree': tree, 'w': w, 'pass': draw(st.sampled_from(
      ['no', 'no', 'none', 'yes'])), 'jit': draw(st.integers(0, 3)) == 0,
          'grads': draw(gens.leaf_values(tree, 'away')),
          'params': draw(gens.leaf_values(tree, 'pos'))}


def run_params(case, ctx):
  tree, w = case['tree'], case['w']
  tx = wrap.make(w, tree)
  params = gens.jax_tree(tree, case['params'])
  grads = gens.jax_tree(tree, case['grads'])
  state = tx.init(params)
  bad = wrap.any_entry(w, 'params') and case['pass'] != 'yes'
  ctx.label(*['name:' + x for x in wrap.names(w)])
  ctx.label('bad:%s' % bad)
  ctx.nontrivial(bad or 'w' in w)
  update = jax.jit(tx.update) if case['jit'] else tx.update
  args = {'no': (), 'none': (None,), 'yes': (params,)}[case['pass']]
  # (Some of them take params as a required argument.)
  error = (ValueError, TypeError) if case['pass'] == 'no' else ValueError
  out = expect(error if bad else None,
               lambda: update(grads, state, *args),
               f'{w} with params: {case["pass"]}')
  if out:
    gens.unbuild(out[0], tree['layout'], len(tree['shapes']))


@st.composite
def shape_case(draw, ctx):
  k = draw(st.sampled_from(['agc', 'dp', 'dp', 'chain', 'mask', 'counter',
                            'estimator']))
  out = {'k': k, 'layout': draw(st.sampled_from(['list', 'dict', 'deep',
                                                 'box', 'none']))}
  if k == 'agc':
    dim = st.integers(1, 3)
    out['shapes'] = draw(st.lists(st.one_of(
        st.lists(dim, max_size=4), st.lists(dim, min_size=4, max_size=6),
        st.lists(st.sampled_from([1, 1, 1, 2]), min_size=5, max_size=6)),
                                  min_size=1, max_size=3))
  elif k == 'dp':
    b = draw(st.integers(1, 4))
    rest = st.sampled_from([[], [2], [3, 2]])
    n = draw(st.integers(1, 3))
    out['shapes'] = [[b] + draw(rest) for _ in range(n)]
    if draw(st.booleans()):
      i = draw(st.integers(0, n - 1))
      out['shapes'][i] = draw(st.sampled_from(
          [[], [b + 1], [1], [b], [b + 1, b], [b, b + 1]]))
    out['who'] = draw(st.sampled_from(['dp', 'dpsgd', 'chain']))
  elif k == 'chain':
    out['n'] = draw(st.integers(1, 4))
    out['states'] = draw(st.integers(0, 5))
    out['as'] = draw(st.sampled_from(['list', 'tuple']))
  elif k == 'mask':
    out['n'] = draw(st.integers(1, 3))
    out['change'] = draw(st.sampled_from(['none', 'extra', 'missing', 'deeper',
                                          'prefix']))
    out['call'] = draw(st.booleans())
    out['when'] = draw(st.sampled_from(['init', 'update']))
  elif k == 'counter':
    out['dtype'] = draw(st.sampled_from(
        ['int32', 'int32', 'float16', 'bfloat16', 'float32', 'float64',
         'bool']))  # (chex lets every integer type pass)
    out['np'] = draw(st.booleans())
    out['shape'] = draw(st.sampled_from([[], [2]]))
  else:
    out['dist'] = draw(st.sampled_from(['normal', 'other', 'lambda', 'class']))
    out['coupling'] = draw(st.booleans())
  return out


def _agc_bad(shape):
  return len(shape) > 4 and sum(d != 1 for d in shape) > 1


def run_shape(case, ctx):
  k = case['k']
  what = str(case)
  ones = lambda shapes: gens.build(
      case['layout'], [jnp.full(s, 0.5) for s in shapes])
  at_limit = False
  if k == 'agc':
    bad = any(_agc_bad(s) for s in case['shapes'])
    at_limit = any(len(s) >= 4 for s in case['shapes'])
    p = ones(case['shapes'])
    tx = optax.adaptive_grad_clip(0.1)
    fn = lambda: tx.update(p, tx.init(p), p)
    error = ValueError
  elif k == 'dp':
    shapes = case['shapes']
    bad = any(not s for s in shapes) or len({s[0] for s in shapes}) > 1
    at_limit = len(shapes) > 1
    # The first leaf in the order of JAX decides.
    if case['who'] == 'dpsgd':
      tx = optax.dpsgd(0.1, 1.0, 0.5, 0)
    else:
      tx = optax.differentially_private_aggregate(1.0, 0.5, 0)
      if case['who'] == 'chain':
        tx = optax.chain(optax.identity(), tx, optax.scale(-1))
    p = ones([s[1:] for s in shapes])
    fn = lambda: tx.update(ones(shapes), tx.init(p), p)
    error = ValueError
  elif k == 'chain':
    bad = case['n'] != case['states']
    at_limit = True
    tx = optax.chain(*[optax.trace(0.5)] * case['n'])
    p = ones([[2]])
    states = [optax.trace(0.5).init(p)] * case['states']
    states = tuple(states) if case['as'] == 'tuple' else states
    fn = lambda: tx.update(p, states)
    error = ValueError
  elif k == 'mask':
    names = ['p%d' % i for i in range(case['n'])]
    params = {x: {'w': jnp.ones(2), 'b': jnp.ones(1)} for x in names}
    mask = {x: {'w': True, 'b': False} for x in names}
    good = {x: dict(v) for x, v in mask.items()}
    at_limit = bad = case['change'] in ('extra', 'missing', 'deeper')
    if case['change'] == 'extra':
      mask[names[-1]]['c'] = True
    elif case['change'] == 'missing':
      del mask[names[0]]['b']
    elif case['change'] == 'deeper':
      mask[names[0]]['w'] = [True, True]
    elif case['change'] == 'prefix':
      mask[names[0]] = True
      good = mask
      at_limit = True
    wrapf = (lambda m: (lambda _: m)) if case['call'] else (lambda m: m)
    bad_tx = optax.masked(optax.sgd(0.1, 0.9), wrapf(mask))
    if case['when'] == 'init':
      fn = lambda: bad_tx.init(params)
    else:
      state = optax.masked(optax.sgd(0.1, 0.9), wrapf(good)).init(params)
      fn = lambda: bad_tx.update(params, state, params)
    error = ValueError
  elif k == 'counter':
    bad = case['dtype'] != 'int32'
    x = np.zeros(case['shape'], jnp.dtype(case['dtype']))
    x = x if case['np'] else jnp.asarray(x)
    fn = lambda: numerics.safe_int32_increment(x)
    error = AssertionError
  else:
    bad = case['dist'] != 'normal'

    class Other(utils.MultiNormalDiagFromLogScale):
      pass
    dist = {'normal': optax.multi_normal,
            'other': lambda a, b: Other(loc=a, log_scale=b),
            'lambda': lambda a, b: optax.multi_normal(a, b),
            'class': utils.MultiNormalDiagFromLogScale}[case['dist']]
    fn = lambda: optax.measure_valued_jacobians(
        lambda x: jnp.sum(x), [jnp.zeros(2), jnp.zeros(2)], dist,
        jax.random.PRNGKey(0), 3, coupling=case['coupling'])
    error = ValueError
  ctx.label('kind:' + k, 'bad:%s' % bool(bad))
  ctx.nontrivial(bad or at_limit)
  out = expect(error if bad else None, fn, what)
  gens.check(bad or out is not None, f'{what}: no result')


LEGS = [Leg('schedule', schedule_case, run_schedule, 700),
        Leg('loss', loss_case, run_loss, 700),
        Leg('params', params_case, run_params, 500),
        Leg('shape', shape_case, run_shape, 800)]
