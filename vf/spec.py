"""Specifications of transformations: JSON -> optax object and NumPy model.

A spec is {'name': ..., 'kw': {...}} and, for optimisers, 'lr'. `make` builds
the optax transformation, `model` the independent reference (vf/refs.py).
"""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from vf import gens
from vf import refs

# --- learning rates ---------------------------------------------------------


def lr_strategy(steps, schedules=True, kinds=None):
  pos = gens.logf(1e-3, 2.0)
  tab = st.lists(st.one_of(pos, gens.nice(-0.5, 1.0)), min_size=1,
                 max_size=max(steps, 1))
  options = {
      'float': st.builds(lambda v: {'k': 'float', 'v': v}, pos),
      'int': st.builds(lambda v: {'k': 'int', 'v': v}, st.integers(0, 3)),
      'array': st.builds(lambda v: {'k': 'array', 'v': v}, pos),
      'zero': st.just({'k': 'float', 'v': 0.0}),
      'neg': st.builds(lambda v: {'k': 'float', 'v': -v}, pos),
      'table': st.builds(lambda v: {'k': 'table', 'v': v}, tab),
      'const': st.builds(lambda v: {'k': 'const', 'v': v}, pos),
      'poly': st.builds(
          lambda a, b, n, s: {'k': 'poly', 'v': [a, a * b, n, s]}, pos,
          st.sampled_from([0.25, 0.5, 2.0, 4.0, 1.0]), st.integers(1, 6), st.integers(0, 3)),
  }
  if kinds is None:
    kinds = ['float', 'float', 'int', 'array', 'zero', 'neg']
    if schedules:
      kinds += ['table', 'table', 'const', 'poly']
  return st.sampled_from(kinds).flatmap(lambda k: options[k])


def lr_make(lr):
  """The learning rate as it is passed to optax."""
  k, v = lr['k'], lr['v']
  if k in ('float', 'int'):
    return v
  if k == 'array':
    return jnp.asarray(v)
  if k == 'const':
    return optax.constant_schedule(v)
  if k == 'table':
    return lambda count: jnp.asarray(v)[jnp.minimum(count, len(v) - 1)]
  if k == 'poly':
    return optax.polynomial_schedule(v[0], v[1], 1, v[2], v[3])
  raise ValueError(k)


def lr_at(lr, t):
  """The value of the learning rate at step t."""
  k, v = lr['k'], lr['v']
  if k == 'table':
    return v[min(t, len(v) - 1)]
  if k == 'poly':
    a, b, n, s = v
    frac = 1 - min(max(t - s, 0), n) / n
    return (a - b) * frac + b
  return v


def lr_is_schedule(lr):
  return lr['k'] in ('table', 'const', 'poly')


def lr_model(lr):
  return refs.scale_by_schedule(lambda t: -lr_at(lr, t))


# --- hyperparameters ----------------------------------------------------------

DECAY = st.one_of(
    st.sampled_from([0.0, 0.5, 0.9, 0.99]), gens.nice(0.0, 0.98))
B2 = st.one_of(st.sampled_from([0.999, 0.99, 0.9, 0.5, 0.0]),
               gens.nice(0.0, 0.995))
EPS = st.one_of(st.sampled_from([1e-8, 1e-6, 1e-3]), gens.logf(1e-8, 1e-1))
EPS_ROOT = st.one_of(st.sampled_from([0.0, 0.0, 1e-8]), gens.logf(1e-10, 1e-2))
BOOL = st.booleans()
MOMENTUM = st.one_of(st.none(), st.just(0.0), DECAY)


def kw(**options):
  """Every argument is present or absent (default), in every combination."""
  names = sorted(options)

  def pick(mask, vals):
    return {n: v for i, (n, v) in enumerate(zip(names, vals))
            if mask >> i & 1}
  return st.builds(pick, st.one_of(st.just(2 ** len(names) - 1),
                                   st.integers(0, 2 ** len(names) - 1)),
                   st.tuples(*[options[n] for n in names]))


def req(**options):
  return st.fixed_dictionaries(options)


def merge(*strategies):
  return st.tuples(*strategies).map(
      lambda ds: {k: v for d in ds for k, v in d.items()})


class Entry:

  def __init__(self, strategy, model=None, lr=None, params=False, make=None,
               elementwise=True, random=False, batch=False, nonneg=False):
    self.strategy = strategy  # of the keyword arguments
    self.model = model  # kwargs -> refs.Model (without the learning rate)
    self.lr = lr  # None, 'scalar' or 'schedule'
    self.params = params  # needs params in update
    self.make = make
    self.elementwise = elementwise
    self.random = random
    self.batch = batch
    self.nonneg = nonneg


def _adamlike(b1=0.9, b2=0.999, eps=1e-8, eps_root=0.0):
  return refs.adam(b1, b2, eps, eps_root)


ADAM_KW = kw(b1=DECAY, b2=B2, eps=EPS, eps_root=EPS_ROOT)
# Without eps (0) a zero gradient is 0/0: the defaults of belief keep eps_root.
BELIEF_KW = kw(b1=DECAY, b2=B2, eps=EPS, eps_root=gens.logf(1e-16, 1e-4))
RADAM_KW = kw(b1=DECAY, b2=st.one_of(st.sampled_from([0.999, 0.9, 0.8]),
                                     gens.nice(0.7, 0.995)),
              eps=EPS, eps_root=EPS_ROOT,
              threshold=st.sampled_from([4.0, 4.5, 5.0, 6.0, 8.0, 20.0]))



def anchored(c):
  """Pulls the parameters to where they started: the state is made of them."""
  def init(params):
    return {'start': params, 'n': [jnp.zeros([], jnp.int32), None]}

  def update(updates, state, params=None):
    if params is None:
      raise ValueError(optax._src.base.NO_PARAMS_MSG)  # pylint: disable=protected-access
    out = jax.tree_util.tree_map(
        lambda g, p, s: (g + c * (p - s)).astype(jnp.asarray(g).dtype),
        updates, params, state['start'])
    return out, {'start': state['start'], 'n': [state['n'][0] + 1, None]}
  return optax.GradientTransformation(init, update)


def toggle():
  """Every second update is reversed; a boolean state in a list."""
  def init(params):
    del params
    return [jnp.zeros([], bool), ()]

  def update(updates, state, params=None):
    del params
    out = jax.tree_util.tree_map(
        lambda g: jnp.where(state[0], -g, g), updates)
    return out, [jnp.logical_not(state[0]), ()]
  return optax.GradientTransformation(init, update)


CUSTOM = {'anchored': anchored, 'toggle': toggle}
ENTRIES = {
    'identity': Entry(st.just({}), lambda: refs.identity()),
    'scale': Entry(req(step_size=st.one_of(
        gens.nice(-3, 3), st.sampled_from([0.0, 1.0, -1.0]),
        st.integers(-2, 3))), lambda step_size: refs.scale(step_size)),
    'scale_by_schedule': Entry(st.just({}), None, lr='schedule'),
    'trace': Entry(merge(req(decay=DECAY), kw(nesterov=BOOL)),
                   lambda decay, nesterov=False, accumulator_dtype=None:
                   refs.trace(decay, nesterov)),
    'ema': Entry(merge(req(decay=DECAY), kw(debias=BOOL)),
                 lambda decay, debias=True, accumulator_dtype=None:
                 refs.ema(decay, debias)),
    'scale_by_rss': Entry(
        kw(initial_accumulator_value=st.one_of(st.just(0.0),
                                               gens.nice(0, 2)), eps=EPS),
        lambda initial_accumulator_value=0.1, eps=1e-7: refs.rss(
            initial_accumulator_value, eps)),
    'scale_by_rms': Entry(
        kw(decay=DECAY, eps=EPS, initial_scale=st.one_of(
            st.just(0.0), gens.nice(0, 2))),
        lambda decay=0.9, eps=1e-8, initial_scale=0.0: refs.rms(
            decay, eps, initial_scale)),
    'scale_by_stddev': Entry(
        kw(decay=DECAY, eps=EPS, initial_scale=st.one_of(
            st.just(0.0), gens.nice(0, 2))),
        lambda decay=0.9, eps=1e-8, initial_scale=0.0: refs.stddev(
            decay, eps, initial_scale)),
    'scale_by_adam': Entry(ADAM_KW, _adamlike),
    'scale_by_belief': Entry(
        BELIEF_KW, lambda b1=0.9, b2=0.999, eps=0., eps_root=1e-16:
        refs.belief(b1, b2, eps, eps_root)),
    'scale_by_yogi': Entry(
        kw(b1=DECAY, b2=B2, eps=gens.logf(1e-4, 1e-1), eps_root=EPS_ROOT,
           initial_accumulator_value=gens.logf(1e-6, 1.0)),
        lambda b1=0.9, b2=0.999, eps=1e-3, eps_root=0.0,
               initial_accumulator_value=1e-6, as_built=False: refs.yogi(
                   b1, b2, eps, eps_root, initial_accumulator_value,
                   as_built)),
    'scale_by_radam': Entry(
        RADAM_KW, lambda b1=0.9, b2=0.999, eps=1e-8, eps_root=0.0,
        threshold=5.0: refs.radam(b1, b2, eps, eps_root, threshold)),
    'add_decayed_weights': Entry(
        kw(weight_decay=st.one_of(gens.nice(-0.5, 1.0),
                                  st.sampled_from([0.0, 1e-4]))),
        lambda weight_decay=0.0: refs.add_decayed_weights(weight_decay),
        params=True),
    'additive_weight_decay': Entry(
        kw(weight_decay=gens.nice(0.0, 1.0)),
        lambda weight_decay=0.0: refs.add_decayed_weights(weight_decay),
        params=True),
    'scale_by_trust_ratio': Entry(
        kw(min_norm=st.one_of(st.just(0.0), gens.nice(0.0, 3.0))),
        lambda min_norm=0.0: refs.trust_ratio(min_norm), params=True,
        elementwise=False),
    'centralize': Entry(st.just({}), lambda: refs.centralize(),
                        elementwise=False),
    'scale_by_sm3': Entry(
        kw(b1=DECAY, b2=st.one_of(st.just(1.0), gens.nice(0.0, 1.0)), eps=EPS),
        lambda b1=0.9, b2=1.0, eps=1e-8: refs.sm3(b1, b2, eps),
        elementwise=False),
    'clip': Entry(req(max_delta=st.one_of(gens.nice(0.0, 4.0),
                                          st.sampled_from([1.0, 2.0]))),
                  lambda max_delta: refs.clip(max_delta)),
    'clip_by_global_norm': Entry(
        req(max_norm=st.one_of(gens.nice(0.01, 8.0), st.just(1.0))),
        lambda max_norm: refs.clip_by_global_norm(max_norm),
        elementwise=False),
    'adaptive_grad_clip': Entry(
        merge(req(clipping=gens.nice(0.02, 2.0)),
              kw(eps=st.sampled_from([1e-3, 1e-2, 0.5]))),
        lambda clipping, eps=1e-3: refs.agc(clipping, eps), params=True,
        elementwise=False),
    'keep_params_nonnegative': Entry(
        st.just({}), lambda: refs.stateless(lambda g, p: [
            np.where(y + x < 0, -y, x) for x, y in zip(g, p)]),
        params=True, nonneg=True),
    'zero_nans': Entry(
        st.just({}), lambda: refs.stateless(
            lambda g, p: [np.where(np.isnan(x), 0.0, x) for x in g]),
        elementwise=True),
    'apply_every': Entry(kw(k=st.integers(1, 4)),
                         lambda k=1: refs.apply_every(k)),
    'add_noise': Entry(
        req(eta=gens.nice(0.01, 1.0), gamma=gens.nice(0.0, 1.0),
            seed=gens.SEEDS), random=True),
    # --- written by a user (wrappers have to work with these as well)
    'anchored': Entry(
        req(c=gens.nice(-1, 1)), lambda c: refs.anchored(c), params=True),
    'toggle': Entry(
        st.just({}), lambda: refs.toggle()),
    # --- optimisers
    'sgd': Entry(kw(momentum=MOMENTUM, nesterov=BOOL),
                 lambda momentum=None, nesterov=False: (
                     refs.identity() if momentum is None
                     else refs.trace(momentum, nesterov)), lr='schedule'),
    'adam': Entry(ADAM_KW, _adamlike, lr='schedule'),
    'adamw': Entry(
        merge(ADAM_KW, kw(weight_decay=st.one_of(
            st.sampled_from([0.0, 1e-4]), gens.nice(0.0, 1.0)))),
        lambda weight_decay=1e-4, **k: refs.chain(
            _adamlike(**k), refs.add_decayed_weights(weight_decay)),
        lr='schedule', params=True),
    'adabelief': Entry(
        kw(b1=DECAY, b2=B2, eps=EPS),
        lambda b1=0.9, b2=0.999, eps=1e-8: refs.belief(b1, b2, eps),
        lr='schedule'),
    'adagrad': Entry(
        kw(initial_accumulator_value=st.one_of(
            st.just(0.0), gens.nice(0, 2)), eps=EPS),
        lambda initial_accumulator_value=0.1, eps=1e-7: refs.rss(
            initial_accumulator_value, eps), lr='schedule'),
    'radam': Entry(
        RADAM_KW, lambda b1=0.9, b2=0.999, eps=1e-8, eps_root=0.0,
        threshold=5.0: refs.radam(b1, b2, eps, eps_root, threshold),
        lr='schedule'),
    'yogi': Entry(
        kw(b1=DECAY, b2=B2, eps=gens.logf(1e-4, 1e-1)),
        lambda b1=0.9, b2=0.999, eps=1e-3, as_built=False: refs.yogi(
            b1, b2, eps, as_built=as_built), lr='schedule'),
    'lamb': Entry(
        merge(ADAM_KW, kw(weight_decay=st.one_of(
            st.just(0.0), gens.nice(0.0, 1.0)))),
        lambda weight_decay=0.0, b1=0.9, b2=0.999, eps=1e-6, eps_root=0.0:
        refs.chain(refs.adam(b1, b2, eps, eps_root),
                   refs.add_decayed_weights(weight_decay),
                   refs.trust_ratio(0.0)),
        lr='schedule', params=True, elementwise=False),
    'fromage': Entry(kw(min_norm=st.one_of(
        st.sampled_from([1e-6, 0.0]), gens.nice(0.0, 2.0))),
                     None, lr='scalar', params=True, elementwise=False),
    'rmsprop': Entry(
        kw(decay=DECAY, eps=EPS, initial_scale=st.one_of(
            st.just(0.0), gens.nice(0, 2)), centered=BOOL,
           momentum=MOMENTUM, nesterov=BOOL), None, lr='schedule'),
    'sm3': Entry(kw(momentum=DECAY),
                 lambda momentum=0.9: refs.sm3(momentum), lr='scalar',
                 elementwise=False),
    'noisy_sgd': Entry(
        kw(eta=gens.nice(0.01, 1.0), gamma=gens.nice(0.0, 1.0),
           seed=gens.SEEDS), lr='schedule', random=True),
    'differentially_private_aggregate': Entry(
        req(l2_norm_clip=gens.nice(0.1, 5.0),
            noise_multiplier=gens.nice(0.0, 2.0), seed=gens.SEEDS),
        random=True, batch=True, elementwise=False),
    'dpsgd': Entry(
        merge(req(l2_norm_clip=gens.nice(0.1, 5.0),
                  noise_multiplier=gens.nice(0.0, 2.0),
                  seed=gens.SEEDS),
              kw(momentum=MOMENTUM, nesterov=BOOL)),
        lr='schedule', random=True, batch=True, elementwise=False),
}

ALIASES = [n for n, e in ENTRIES.items() if e.lr and n != 'scale_by_schedule']
DETERMINISTIC = [n for n, e in ENTRIES.items() if not e.random]


def strategy(name, steps=6, schedules=True, lr_kinds=None):
  """Specs of one named transformation."""
  e = ENTRIES[name]
  parts = {'name': st.just(name), 'kw': e.strategy}
  if e.lr:
    kinds = lr_kinds
    if name == 'scale_by_schedule' and kinds is None:
      kinds = ['table', 'poly', 'const']
    elif name == 'fromage' and kinds is None:
      kinds = ['float', 'float', 'array', 'zero']
    parts['lr'] = lr_strategy(
        steps, schedules=schedules and e.lr == 'schedule', kinds=kinds)
  return st.fixed_dictionaries(parts)


def any_of(names, **k):
  return st.sampled_from(list(names)).flatmap(lambda n: strategy(n, **k))


def make(spec, **extra):
  """Builds the optax transformation of a spec."""
  name = spec['name']
  fn = CUSTOM.get(name) or getattr(optax, name)
  kws = dict(spec['kw'], **extra)
  if name == 'scale_by_schedule':
    return fn(lr_make(spec['lr']))
  if ENTRIES[name].lr:
    return fn(lr_make(spec['lr']), **kws)
  return fn(**kws)


def model(spec, **extra):
  """Builds the reference model of a spec."""
  name, kws = spec['name'], dict(spec['kw'], **extra)
  if name == 'scale_by_schedule':
    return refs.scale_by_schedule(lambda t: lr_at(spec['lr'], t))
  if name == 'rmsprop':
    base = refs.stddev if kws.pop('centered', False) else refs.rms
    momentum = kws.pop('momentum', None)
    nesterov = kws.pop('nesterov', False)
    return refs.chain(
        base(**kws), lr_model(spec['lr']),
        refs.identity() if momentum is None
        else refs.trace(momentum, nesterov))
  if name == 'fromage':
    v = lr_at(spec['lr'], 0)
    mult = 1 / np.sqrt(1 + v ** 2)
    return refs.chain(
        refs.trust_ratio(kws.get('min_norm', 1e-6)), refs.scale(-v * mult),
        refs.add_decayed_weights(mult - 1))
  inner = ENTRIES[name].model(**kws)
  if ENTRIES[name].lr:
    return refs.chain(inner, lr_model(spec['lr']))
  return inner


def needs_params(spec):
  return ENTRIES[spec['name']].params
