"""C10: chain."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from vf import core
from vf import gens
from vf import hist
from vf import spec as specs
from vf.core import Leg

ID = 'C10'
RULE = ('A case is a list of 1-24 transformations with drawn hyperparameters '
        '(repetitions, also of one object, allowed), a nesting of chains, a tree and a history; it '
        'is compared with applying the members one by one. Non-trivial: at '
        'least two members and a non-zero gradient.')
NAMES = [n for n, e in specs.ENTRIES.items() if not e.batch]
CHEAP = ['trace', 'scale', 'scale_by_adam', 'add_decayed_weights', 'clip',
         'clip_by_global_norm', 'apply_every', 'scale_by_schedule', 'ema',
         'keep_params_nonnegative', 'identity', 'sgd', 'zero_nans']


@st.composite
def case(draw, ctx):
  tree = draw(gens.tree_spec(ctx, 2, npool=3))
  n = draw(st.one_of(st.integers(1, 6), st.integers(1, 6),
                     st.integers(7, 24)))
  members = []
  for i in range(min(n, 6)):
    members.append(draw(specs.any_of(CHEAP if i % 3 else NAMES, steps=3)))
  # Members may be one and the same object.
  same = [-1] + [draw(st.one_of(st.just(-1), st.just(-1), st.integers(0, i)))
                 for i in range(len(members) - 1)]
  for i in range(6, n):  # Long chains repeat their members.
    same.append(draw(st.integers(0, 5)))
    members.append({})
  for i, j in enumerate(same):
    if j >= 0:
      members[i] = dict(members[j])
  for m in members:
    # rank-5 leaves are rejected by adaptive_grad_clip, see C17.
    if m['name'] == 'adaptive_grad_clip' and any(
        len(s) > 4 for s in tree['shapes']):
      m['name'], m['kw'] = 'clip', {'max_delta': 1.0}
  steps = draw(st.integers(1, 3))
  return {
      'tree': tree, 'members': members, 'same': same,
      'nest': draw(st.lists(st.integers(0, 5), max_size=4)),
      'grads': [draw(gens.leaf_values(tree)) for _ in range(steps)],
      'params': [draw(gens.leaf_values(tree)) for _ in range(steps)],
      'drop': draw(st.sampled_from(['short', 'long', 'empty'])),
  }


def nested(txs, nest):
  """Chains the members, with sub-lists grouped as `nest` says."""
  groups = list(txs)
  for k in nest:
    if len(groups) < 2:
      break
    i = k % (len(groups) - 1)
    groups[i:i + 2] = [optax.chain(groups[i], groups[i + 1])]
  return optax.chain(*groups)


def make(case):
  txs = []
  for m, j in zip(case['members'], case['same']):
    txs.append(specs.make(m) if j < 0 else txs[j])
  return txs


def run(case, ctx):
  members = case['members']
  tree = case['tree']
  n = len(tree['shapes'])
  ctx.label('members:%d' % min(len(members), 7),
            'same object' if max(case['same']) >= 0 else 'distinct',
            'nest:%d' % len(case['nest']),
            *['name:' + m['name'] for m in members])
  ctx.nontrivial(len(members) > 1 and any(
      v for g in case['grads'] for leaf in g for v in leaf))
  what = [m['name'] for m in members]
  jt = lambda v: gens.jax_tree(tree, v)
  txs = make(case)
  chained = optax.chain(*make(case))
  grouped = nested(make(case), case['nest'])
  p0 = jt(case['params'][0])
  single = [t.init(p0) for t in txs]
  s1, s2 = chained.init(p0), grouped.init(p0)
  gens.check(len(s1) == len(members),
             f'chain of {len(members)}: {len(s1)} states')
  for t, (g, p) in enumerate(zip(case['grads'], case['params'])):
    g, p = jt(g), jt(p)
    want = g
    for i, tx in enumerate(txs):
      want, single[i] = tx.update(want, single[i], p)
    for name, tx in (('chain', chained), ('nested chain', grouped)):
      state = s1 if name == 'chain' else s2
      got, state = tx.update(g, state, p)
      if name == 'chain':
        s1 = state
      else:
        s2 = state
      for i, (x, y) in enumerate(zip(
          gens.unbuild(got, tree['layout'], n),
          gens.unbuild(want, tree['layout'], n))):
        y = gens.f64(y)
        fin = y[np.isfinite(y)]
        gens.close(x, y, 1e-9, 1e-12 * (np.abs(fin).max() if fin.size else 0),
                   f'{name} of {what}: update {t} of leaf {i} differs from '
                   'applying the members in order')
        gens.check(x.dtype == want_dtype(want, i, tree), 'dtype')
    # The states must be those of the members.
    flat1 = jax.tree_util.tree_leaves(s1)
    flat2 = jax.tree_util.tree_leaves(single)
    gens.check(len(flat1) == len(flat2), f'chain of {what}: state leaves')
    for x, y in zip(flat1, flat2):
      y = gens.f64(y)
      gens.close(x, y, 1e-9, 1e-11, f'chain of {what}: state after {t}')
  bad = {'short': list(s1)[:-1], 'long': list(s1) + [s1[0]],
         'empty': []}[case['drop']]
  try:
    chained.update(jt(case['grads'][0]), bad, p0)
  except ValueError:
    pass
  else:
    raise core.Violation(
        f'chain of {len(members)} accepted {len(bad)} states')


def want_dtype(want, i, tree):
  return gens.unbuild(want, tree['layout'], len(tree['shapes']))[i].dtype


LEGS = [Leg('sequential', case, run, 1000)]
