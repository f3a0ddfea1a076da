"""C14: results per parameter do not depend on the layout of the tree."""
import copy

from hypothesis import strategies as st
import jax
import numpy as np

from vf import core
from vf import gens
from vf import optcheck
from vf import spec as specs
from vf import wrap
from vf.core import Leg

ID = 'C14'
RULE = ('A case is a deterministic transformation or nest of wrappers, 1-5 '
        'leaves with a history of gradients and parameters, two containers and '
        'a permutation; the runs in both arrangements and (for transformations '
        'that act leaf by leaf) of each leaf alone are compared. Non-trivial: '
        'a non-zero gradient, several leaves.')
BASE = specs.DETERMINISTIC


@st.composite
def case(draw, ctx, wrapped):
  tree = draw(gens.tree_spec(ctx, 5, npool=5, min_leaves=1))
  n = len(tree['shapes'])
  if wrapped:
    w = draw(wrap.wrapped(specs.any_of(BASE), n, depth=2).filter(
        lambda w: not wrap.any_entry(w, 'random')))
  else:
    w = draw(specs.any_of(BASE + ['clip_by_global_norm'] * 4))
  wrap.fix_rank(w, tree)
  steps = draw(st.integers(1, 3))
  special = 60 if draw(st.integers(0, 5)) == 0 else 0
  return {'tree': tree, 'w': w, 'other': draw(st.sampled_from(gens.LAYOUTS)),
          'perm': draw(st.permutations(range(n))),
          'grads': [draw(gens.leaf_values(tree, None, special))
                    for _ in range(steps)],
          'params': [draw(gens.leaf_values(tree, ['unit', 'wide', 'pos']))
                     for _ in range(steps)]}


def play(w, tree, grads, params):
  """Updates per step, as lists of leaves."""
  n = len(tree['shapes'])
  tx = wrap.make(w, tree)
  s = tx.init(gens.jax_tree(tree, params[0]))
  out = []
  for g, p in zip(grads, params):
    u, s = tx.update(gens.jax_tree(tree, g), s, gens.jax_tree(tree, p))
    out.append(gens.unbuild(u, tree['layout'], n))
  return out


def permute_masks(w, perm):
  w = copy.deepcopy(w)

  def visit(x):
    if x.get('w') == 'masked':
      x['mask'] = [x['mask'][i] for i in perm]
    for y in x.get('members', []) + ([x['inner']] if 'inner' in x else []):
      visit(y)
  visit(w)
  return w


def close(x, y, what, w):
  y64 = gens.f64(y)
  fin = y64[np.isfinite(y64)]
  top = float(np.abs(fin).max()) if fin.size else 0.0
  rtol = 1e-6 if wrap.ill_conditioned(w) else 1e-9
  gens.close(x, y, rtol, rtol * 1e-2 * top, what)


def run(case, ctx, alone_of=5):
  tree, w = case['tree'], case['w']
  n = len(tree['shapes'])
  names = wrap.names(w)
  ctx.label('layouts:%s-%s' % (tree['layout'], case['other']),
            'leaves:%d' % n, *['name:' + x for x in names])
  ctx.nontrivial(n > 1 and any(
      v for g in case['grads'] for leaf in g for v in leaf))
  want = play(w, tree, case['grads'], case['params'])
  perm = case['perm']
  tree2 = {'layout': case['other'], 'shapes': [tree['shapes'][i]
                                               for i in perm]}
  move = lambda hist: [[leaves[i] for i in perm] for leaves in hist]
  got = play(permute_masks(w, perm), tree2, move(case['grads']),
             move(case['params']))
  for t, (a, b) in enumerate(zip(got, want)):
    for j, i in enumerate(perm):
      close(a[j], b[i], f'{w}: update {t} of leaf {i} of {tree}, arranged as '
            f'{case["other"]} in the order {perm}', w)
  if {'finite', 'flatten', 'masked', 'clip_by_global_norm'} & set(names):
    if names != ['clip_by_global_norm']:
      return
  for i in range(n)[-alone_of:]:
    if names == ['clip_by_global_norm']:
      # The other leaves only matter through their norm.
      ctx.label('alone:global')
      alone = {'layout': 'list', 'shapes': [tree['shapes'][i], []]}
      rest = [[float(np.sqrt(sum(v * v for j in range(n) if j != i
                                 for v in g[j])))] for g in case['grads']]
      g = [[g[i], r] for g, r in zip(case['grads'], rest)]
      p = [[p[i], [0.0]] for p in case['params']]
    else:
      ctx.label('alone')
      alone = {'layout': 'bare', 'shapes': [tree['shapes'][i]]}
      g = [[g[i]] for g in case['grads']]
      p = [[p[i]] for p in case['params']]
    got = play(w, alone, g, p)
    for t in range(len(got)):
      close(got[t][0], want[t][i], f'{w}: update {t} of leaf {i} of {tree} '
            'differs from the one of the leaf alone', w)


@st.composite
def many_case(draw, ctx):
  """Trees with many leaves, or with large ones."""
  if draw(st.booleans()):
    shapes = [list(draw(st.sampled_from([(), (2,), (1,), (1, 2), (0,)])))
              for _ in range(draw(st.integers(6, 16)))]
  else:
    shapes = [list(draw(st.sampled_from(gens.pool(ctx, 5, optcheck.BIG))))
              for _ in range(draw(st.integers(2, 3)))]
  tree = {'layout': draw(st.sampled_from(gens.LAYOUTS)), 'shapes': shapes}
  w = draw(specs.any_of(BASE + ['clip_by_global_norm'] * 4))
  wrap.fix_rank(w, tree)
  return {'tree': tree, 'w': w, 'other': draw(st.sampled_from(gens.LAYOUTS)),
          'perm': draw(st.permutations(range(len(shapes)))),
          'steps': draw(st.integers(1, 2)),
          'rng': draw(st.integers(0, 10 ** 6))}


def run_many(case, ctx):
  rng = np.random.default_rng(case['rng'])
  leaves = lambda: [np.round(rng.normal(size=gens.size(s)) * 2, 5).tolist()
                    for s in case['tree']['shapes']]
  run(dict(case, grads=[leaves() for _ in range(case['steps'])],
           params=[leaves() for _ in range(case['steps'])]), ctx, 2)


LEGS = [
    Leg('many', many_case, run_many, 96),
    Leg('base', lambda ctx: case(ctx, False), run, 640),
    Leg('wrapped', lambda ctx: case(ctx, True), run, 160),
]
