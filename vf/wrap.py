"""Specs of wrapped transformations, for the checks that cover everything.

A wrapped spec is a base spec (vf/spec.py) or {'w': wrapper, 'inner': ...,
...}. `make(w, tree)` builds the optax transformation for a tree spec.
"""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from vf import gens
from vf import spec as specs

WRAPPERS = ['flatten', 'finite', 'multi', 'maybe', 'masked', 'inject', 'chain']
INJECT = ['sgd', 'adam', 'adamw', 'rmsprop', 'lamb', 'adagrad', 'adabelief',
          'yogi', 'radam', 'trace', 'ema', 'clip', 'clip_by_global_norm',
          'add_decayed_weights', 'scale', 'scale_by_adam', 'scale_by_rms',
          'scale_by_stddev', 'scale_by_rss', 'scale_by_trust_ratio',
          'scale_by_belief', 'noisy_sgd', 'add_noise']


@st.composite
def wrapped(draw, base, n, kinds=WRAPPERS, depth=1):
  """A base spec inside `depth` wrappers at most."""
  if depth == 0:
    return draw(base)
  w = draw(st.sampled_from(kinds))
  if w in ('masked', 'flatten'):
    # These hand another tree to what is inside: the mask would not fit.
    kinds = [k for k in kinds if k != 'masked']
  inner = lambda: wrapped(base, n, kinds, draw(
      st.sampled_from([0, 0, depth - 1])))
  if w == 'inject':
    names = INJECT
    s = draw(specs.any_of(names, lr_kinds=['float', 'table']))
    return {'w': 'inject', 'inner': s}
  if w == 'chain':
    return {'w': 'chain', 'members': draw(st.lists(inner(), min_size=1,
                                                   max_size=3))}
  out = {'w': w, 'inner': draw(inner())}
  if w == 'finite':
    out['max'] = draw(st.integers(0, 3))
  elif w == 'multi':
    out['k'] = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
    out['mean'] = draw(st.booleans())
  elif w == 'maybe':
    out['when'] = draw(st.lists(st.integers(0, 1), min_size=1, max_size=4))
  elif w == 'masked':
    mask = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    if 'flatten' in str(out['inner']):
      mask[draw(st.integers(0, n - 1))] = True  # flatten needs a leaf
    if n == 1 and not mask[0] and 'sm3' in str(out['inner']):
      mask[0] = True
    out['mask'] = [int(b) for b in mask]
    out['call'] = draw(st.booleans())
  return out


def make(w, tree, **extra):
  if 'w' not in w:
    return specs.make(w, **extra)
  k = w['w']
  if k == 'chain':
    return optax.chain(*[make(m, tree) for m in w['members']])
  if k == 'inject':
    s = w['inner']
    fn = optax.inject_hyperparams(getattr(optax, s['name']))
    if 'lr' in s:
      return fn(specs.lr_make(s['lr']), **s['kw'])
    return fn(**s['kw'])
  inner = make(w['inner'], tree)
  if k == 'flatten':
    return optax.flatten(inner)
  if k == 'finite':
    return optax.apply_if_finite(inner, w['max'])
  if k == 'multi':
    ks = w['k']
    if len(ks) == 1:
      return optax.MultiSteps(inner, ks[0], w['mean']).gradient_transformation()
    return optax.MultiSteps(
        inner, lambda step: jnp.asarray(ks)[step % len(ks)],
        w['mean']).gradient_transformation()
  if k == 'maybe':
    when = w['when']
    return optax.maybe_update(
        inner, lambda step: jnp.asarray(when)[step % len(when)] > 0)
  if k == 'masked':
    mask = gens.build(tree['layout'], [bool(b) for b in w['mask']])
    return optax.masked(inner, (lambda _: mask) if w['call'] else mask)
  raise ValueError(k)


def names(w):
  """All the transformations and wrappers in a spec."""
  if 'w' not in w:
    return [w['name']]
  if w['w'] == 'chain':
    return ['chain'] + [n for m in w['members'] for n in names(m)]
  return [w['w']] + names(w['inner'])


def any_entry(w, flag):
  """Whether an entry flag holds for some base transformation inside."""
  return any(getattr(specs.ENTRIES[n], flag) for n in names(w)
             if n in specs.ENTRIES)


def fix_rank(w, tree):
  """adaptive_grad_clip rejects tensors of rank > 4."""
  if any(len(s) > 4 for s in tree['shapes']) and (
      'adaptive_grad_clip' in names(w)):
    tree['shapes'] = [s if len(s) <= 4 else [2, 2] for s in tree['shapes']]


def to_jnp(tree):
  return jax.tree_util.tree_map(jnp.asarray, tree)


def ill_conditioned(w):
  """Variances that cancel: rounding is amplified."""
  return any(n in ('scale_by_stddev', 'rmsprop', 'scale_by_belief',
                   'adabelief') for n in names(w))
