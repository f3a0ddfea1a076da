"""C06: learning rates and schedules are applied at the right step."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from vf import core
from vf import gens
from vf import hist
from vf import optcheck
from vf import spec as specs
from vf.core import Leg

ID = 'C06'
RULE = ('A case is a tree, an optimiser with drawn hyperparameters, a schedule '
        '(usually arbitrary values per step) and a history; it is compared '
        'with the reference model, with the same optimiser at rate 1, or with '
        'a schedule that records its argument. Non-trivial: some gradient is '
        'non-zero and there is more than one step or leaf.')
SCHED = ['table', 'table', 'table', 'poly', 'const']
MODEL = [n for n in specs.ALIASES if not specs.ENTRIES[n].random
         and specs.ENTRIES[n].lr == 'schedule' and n != 'yogi']
MODEL += ['rmsprop', 'rmsprop', 'sgd', 'scale_by_schedule']


def model_strategy():
  return st.sampled_from(MODEL).flatmap(
      lambda n: specs.strategy(n, lr_kinds=SCHED))


CONST = ['float', 'float', 'int', 'array', 'zero', 'neg']
ALL = [n for n in specs.ALIASES]


@st.composite
def relation_case(draw, ctx):
  """A scheduled run against the same optimiser with learning rate 1."""
  name = draw(st.sampled_from(ALL))
  e = specs.ENTRIES[name]
  kinds = SCHED + CONST if e.lr == 'schedule' else CONST
  if name == 'fromage':
    name = 'sm3'
    kinds = CONST
  c = draw(hist.case(ctx, specs.strategy(name, lr_kinds=kinds), 5, npool=4))
  if specs.ENTRIES[name].batch:
    b = draw(st.sampled_from([1, 3]))
    c['tree']['shapes'] = [[b] + list(s) for s in c['tree']['shapes']]
    c['grads'] = [draw(gens.leaf_values(c['tree'])) for _ in c['grads']]
    c['params'] = draw(gens.leaf_values(c['tree']))
  if name == 'rmsprop':
    c['spec']['kw'].pop('momentum', None)
  c['np'] = 0
  c['counter'] = draw(st.sampled_from(['none', 'none', 'log']))
  return c


def run_relation(case, ctx):
  hist.classify(case, ctx)
  spec = case['spec']
  tree = case['tree']
  n = len(tree['shapes'])
  seen = []
  make = specs.make
  if case['counter'] == 'log' and specs.lr_is_schedule(spec['lr']):
    ctx.label('logged')
    fn = getattr(optax, spec['name'])
    inner = specs.lr_make(spec['lr'])

    def logged(count):
      seen.append(int(count))
      return inner(count)
    tx = fn(logged, **spec['kw'])
  else:
    tx = make(spec)
  one = make(dict(spec, lr={'k': 'float', 'v': 1.0}))
  jt = lambda v: gens.jax_tree(tree, v)
  ps = hist.param_seq(case)
  s1, s2 = tx.init(jt(ps[0])), one.init(jt(ps[0]))
  gens.check(all(c == 0 for c in seen), f'{spec}: init evaluated the schedule '
             f'at {seen}')
  for t, (g, p) in enumerate(zip(case['grads'], ps)):
    del seen[:]
    u1, s1 = tx.update(jt(g), s1, jt(p))
    if case['counter'] == 'log' and specs.lr_is_schedule(spec['lr']):
      gens.check(seen and all(c == t for c in seen),
                 f'{spec}: update {t} evaluated the schedule at {seen}')
    u2, s2 = one.update(jt(g), s2, jt(p))
    lr = specs.lr_at(spec['lr'], t)
    for i, (x, y) in enumerate(zip(
        jax.tree_util.tree_leaves(u1), jax.tree_util.tree_leaves(u2))):
      y = lr * gens.f64(y)
      top = float(np.abs(y).max()) if y.size else 0.0
      tol = 1e-5 if spec['lr']['k'] == 'poly' else 1e-9
      gens.close(x, y, tol, 1e-12 * top,
                 f'{spec}: update {t} of leaf {i} is not {lr} times the '
                 'update at learning rate 1')


@st.composite
def start_case(draw, ctx):
  c = draw(hist.case(ctx, st.sampled_from(
      ['scale_by_schedule', 'sgd', 'adagrad']).flatmap(
          lambda n: specs.strategy(n, lr_kinds=['table'])), 3, npool=3))
  c['start'] = draw(st.one_of(st.integers(0, 12),
                              st.integers(0, 2**31 - 1),
                              st.integers(2**31 - 6, 2**31 - 1)))
  c['kind'] = draw(st.sampled_from(['mod', 'piecewise', 'linear']))
  c['spec']['kw'] = {}
  return c


def run_start(case, ctx):
  """The count in the state is what selects the value of the schedule."""
  ctx.label('start:%s' % ('small' if case['start'] < 100 else 'large'))
  ctx.nontrivial(hist.interesting(case))
  vals = case['spec']['lr']['v']
  at = lambda t: vals[t % len(vals)] + (0.5 if t > 2**30 else 0.0)
  sched = lambda c: (jnp.asarray(vals)[c % len(vals)]
                     + jnp.where(c > 2**30, 0.5, 0.0))
  name = case['spec']['name']
  tree = case['tree']
  n = len(tree['shapes'])
  tx = getattr(optax, name)(sched)
  ref = getattr(optax, name)
  ref = optax.identity() if name != 'adagrad' else ref(1.0)
  sign = {'scale_by_schedule': 1.0, 'sgd': -1.0, 'adagrad': 1.0}[name]
  jt = lambda v: gens.jax_tree(tree, v)
  s1 = tx.init(jt(case['params']))
  s2 = ref.init(jt(case['params']))
  s1 = jax.tree_util.tree_map(
      lambda x: jnp.asarray(case['start'], jnp.int32)
      if x.dtype == jnp.int32 and x.shape == () else x, s1)
  for t, g in enumerate(case['grads']):
    count = min(case['start'] + t, 2**31 - 1)
    u1, s1 = tx.update(jt(g), s1)
    u2, s2 = ref.update(jt(g), s2)
    for x, y in zip(jax.tree_util.tree_leaves(u1),
                    jax.tree_util.tree_leaves(u2)):
      y = sign * at(count) * gens.f64(y)
      gens.close(x, y, 1e-9, 1e-12,
                 f'{name} with a schedule at count {count}')


@st.composite
def low_case(draw, ctx):
  c = draw(hist.case(ctx, st.sampled_from(
      ['scale_by_schedule', 'sgd', 'rmsprop']).flatmap(
          lambda n: specs.strategy(n, lr_kinds=SCHED)), 4, npool=4,
                     grad_modes=['away', 'pos']))
  c['spec']['kw'] = ({'momentum': 0.5} if c['spec']['name'] == 'rmsprop'
                     else {})
  c['dtypes'] = [draw(st.sampled_from(['float32', 'bfloat16', 'float16']))
                 for _ in c['tree']['shapes']]
  if c['spec']['name'] == 'rmsprop':
    c['spec']['kw'].update(decay=0.5, eps=1e-3)
  c['np'] = 0
  return c


LEGS = [
    Leg('model', lambda ctx: hist.case(ctx, model_strategy()),
        optcheck.run_history, 1400),
    Leg('relation', relation_case, run_relation, 1000),
    Leg('start', start_case, run_start, 480),
    Leg('low', low_case, optcheck.run_low, 240, x64=False),
    Leg('large', lambda ctx: optcheck.large_case(ctx, model_strategy()),
        optcheck.run_large, 96),
    optcheck.deep_leg(specs.any_of(
        ['scale_by_schedule', 'scale_by_schedule', 'sgd', 'adagrad'],
        steps=20), quick=24),
    Leg('long', lambda ctx: hist.case(
        ctx, st.sampled_from(MODEL).flatmap(
            lambda n: specs.strategy(n, steps=40, lr_kinds=SCHED)), 60,
        max_leaves=2, run=('jit',), npool=3, min_steps=8),
        optcheck.run_history, 96),
]
