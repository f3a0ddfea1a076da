"""C22: masked."""
import collections

from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from vf import core
from vf import gens
from vf import spec as specs
from vf import steps
from vf import wrap
from vf.core import Leg

ID = 'C22'
RULE = ('A case is a nested tree of up to 8 leaves, a mask that is a prefix of '
        'it (or a function, or a single boolean), an inner transformation and '
        'a history with or without params; selected leaves are compared with '
        'the inner transformation on the list of selected leaves, the others '
        'with the input bits. Non-trivial: some leaf is selected and some is '
        'not.')
INNER = [n for n, e in specs.ENTRIES.items() if not e.batch]
SHAPES = [(), (1,), (3,), (2, 3), (1, 4), (2, 1, 2), (2, 1, 1, 2)]
NODES = ['dict', 'list', 'tuple', 'odict', 'named', 'box']


@st.composite
def node(draw, shapes, depth):
  """A tree: {'s': shape} or {'c': container, 'ch': [trees]} or None."""
  if depth == 0 or draw(st.integers(0, 3)) == 0:
    return {'s': draw(st.sampled_from(shapes))}
  k = draw(st.integers(0, 3))
  ch = [draw(node(shapes, depth - 1)) for _ in range(k)]
  if draw(st.integers(0, 6)) == 0:
    ch.append(None)
  return {'c': draw(st.sampled_from(NODES)), 'ch': ch}


def count(t):
  if t is None:
    return 0
  return 1 if 's' in t else sum(count(x) for x in t['ch'])


def shapes_of(t):
  if t is None:
    return []
  return [t['s']] if 's' in t else [s for x in t['ch'] for s in shapes_of(x)]


@st.composite
def mask_of(draw, t):
  """A mask tree: a boolean at any node (a prefix), down to the leaves."""
  if t is None:
    return None
  if 's' in t or draw(st.integers(0, 3)) == 0:
    return draw(st.booleans())
  return {'ch': [draw(mask_of(x)) for x in t['ch']]}


def container(kind, items):
  if kind == 'list':
    return list(items)
  if kind == 'tuple':
    return tuple(items)
  if kind == 'dict':
    return {'k%d' % (9 - i): x for i, x in enumerate(items)}
  if kind == 'odict':
    return collections.OrderedDict(('k%d' % (9 - i), x)
                                   for i, x in enumerate(items))
  if kind == 'named':
    return gens.Pair(zeta=list(items), alpha=())
  return gens.Box(list(items))


def build(t, leaves):
  """leaves: an iterator."""
  if t is None:
    return None
  if 's' in t:
    return next(leaves)
  return container(t['c'], [build(x, leaves) for x in t['ch']])


def build_mask(t, m):
  if t is None:
    return None
  if isinstance(m, bool):
    return m
  return container(t['c'], [build_mask(x, y) for x, y in zip(t['ch'],
                                                             m['ch'])])


def flags(t, m):
  """One flag per leaf, in the order of `build`."""
  if t is None:
    return []
  if isinstance(m, bool):
    return [m] * count(t)
  return [f for x, y in zip(t['ch'], m['ch']) for f in flags(x, y)]


@st.composite
def case(draw, ctx):
  shapes = gens.pool(ctx, 4, SHAPES)
  top = draw(st.integers(0, 9))
  if top == 0:  # A single leaf, or whatever comes.
    t = draw(node(shapes, 1))
    if count(t) == 0:
      t = {'c': 'dict', 'ch': [{'s': [3]}, t]}
  else:
    t = {'c': draw(st.sampled_from(NODES)),
         'ch': [draw(node(shapes, 1 + (i == 0)))
                for i in range(draw(st.integers(1, 3)))]}
    while count(t) < 2:
      t['ch'].append({'s': draw(st.sampled_from(shapes))})
  mode = draw(st.sampled_from(['prefix', 'prefix', 'prefix', 'all', 'none',
                               'ndim', 'ndim', 'callable']))
  m = draw(mask_of(t))
  if top and mode not in ('all', 'none') and isinstance(m, bool):
    m = {'ch': [draw(mask_of(x)) for x in t['ch']]}
  if top and len(set(flags(t, m))) == 1 and draw(st.integers(0, 3)):
    # All selected or none: turn one part around.
    k = draw(st.integers(0, len(m['ch']) - 1)) if isinstance(m, dict) else 0
    if isinstance(m, dict) and count(t['ch'][k]):
      m['ch'][k] = not flags(t, m)[0]
  if mode in ('all', 'none'):
    m = mode == 'all'
  w = draw(specs.any_of(INNER))
  n = draw(st.integers(1, 3))
  leaf_vals = lambda: [draw(gens.values(gens.size(s), ['unit', 'int', 'wide',
                                                       'zero']))
                       for s in shapes_of(t)]
  return {'t': t, 'm': m, 'mode': mode, 'w': w,
          'pass_params': draw(st.booleans()),
          'jit': draw(st.integers(0, 9)) == 0,
          'before': draw(st.booleans()),
          'bool': draw(st.sampled_from(['py', 'py', 'numpy', 'jax'])),
          'grads': [leaf_vals() for _ in range(n)],
          'params': [leaf_vals() for _ in range(n)]}


def run(case, ctx):
  t, w, mode = case['t'], case['w'], case['mode']
  shapes = shapes_of(t)
  jl = lambda vals: [jnp.asarray(np.reshape(v, s)) for v, s in zip(vals,
                                                                  shapes)]
  if mode == 'ndim':
    fl = [len(s) != 1 for s in shapes]
    mask = lambda tree: jax.tree_util.tree_map(lambda x: x.ndim != 1, tree)
  else:
    fl = flags(t, case['m'])
    mask = build_mask(t, case['m'])
    kind = case.get('bool', 'py')
    if kind != 'py':
      ctx.label('bool:' + kind)
      mask = jax.tree_util.tree_map(
          np.bool_ if kind == 'numpy' else jnp.asarray, mask)
    if mode == 'callable':
      tree_mask = mask
      mask = lambda tree: tree_mask
  ctx.label('mode:' + mode, 'name:' + w['name'], 'leaves:%d' % len(shapes),
            'selected:%s' % ('all' if all(fl) else 'some' if any(fl)
                             else 'none'))
  ctx.nontrivial(any(fl) and not all(fl))
  # Positions of the leaves in tree order (dicts are sorted by JAX).
  order = jax.tree_util.tree_leaves(build(t, iter(range(len(shapes)))))
  chosen = [i for i in order if fl[i]]
  inner = specs.make(w)
  tx = optax.masked(specs.make(w), mask)
  p0 = jl(case['params'][0])
  if mode == 'ndim' and case.get('before'):
    # It has been used for another model, with another selection.
    some = [jnp.ones(2 if f else (2, 1)) for f in fl]
    tx.init(build(t, iter(some)))
    ctx.label('used before')
  s = tx.init(build(t, iter(p0)))
  ref = inner.init([p0[i] for i in chosen])
  # Fused code may round cancelling variances differently, and the 32-bit
  # fractions of schedules.
  jit = case['jit'] and not wrap.ill_conditioned(w)
  rtol = 1e-6 if jit else 1e-8
  what = f'masked({w}, {mode} {case["m"]}) on {t}'

  def same_state(s, ref, when):
    a = jax.tree_util.tree_leaves(s.inner_state)
    b = jax.tree_util.tree_leaves(ref)
    gens.check([x.shape for x in a] == [x.shape for x in b],
               f'{what}: inner state {[x.shape for x in a]} {when}, for the '
               f'selected leaves it is {[x.shape for x in b]}')
    for x, y in zip(a, b):
      gens.close(x, np.asarray(y), rtol, rtol * 0.1, f'{what}: state {when}')
  same_state(s, ref, 'initially')
  pass_params = case['pass_params'] or specs.needs_params(w)
  update = jax.jit(tx.update) if jit else tx.update
  structure = jax.tree_util.tree_structure(build(t, iter(p0)))
  for k in range(len(case['grads'])):
    g, p = jl(case['grads'][k]), jl(case['params'][k])
    if pass_params:
      u, s = update(build(t, iter(g)), s, build(t, iter(p)))
      v, ref = inner.update([g[i] for i in chosen], ref,
                            [p[i] for i in chosen])
    else:
      u, s = update(build(t, iter(g)), s)
      v, ref = inner.update([g[i] for i in chosen], ref)
    gens.check(jax.tree_util.tree_structure(u) == structure,
               f'{what}: structure {jax.tree_util.tree_structure(u)}')
    v = dict(zip(chosen, v))
    for i, x in zip(order, jax.tree_util.tree_leaves(u)):
      if fl[i]:
        gens.close(x, np.asarray(v[i]), rtol, rtol * 1e-2 * steps.top(v[i]),
                   f'{what}: update {k} of selected leaf {i}')
      else:
        gens.check(gens.same_bits(x, g[i]), f'{what}: update {k} of leaf {i}, '
                   'which is not selected, changed')
    same_state(s, ref, f'after update {k}')


LEGS = [Leg('selected', case, run, 2000)]
