"""Helpers of the checks that model wrappers step by step."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from vf import gens
from vf import spec as specs

# Inner transformations: stateful, parameter-dependent, random, scheduled.
INNER = ['trace', 'ema', 'scale_by_adam', 'adam', 'adamw', 'sgd', 'sgd',
         'add_decayed_weights', 'scale_by_schedule', 'apply_every',
         'identity', 'scale', 'clip_by_global_norm', 'add_noise',
         'scale_by_rss', 'scale_by_trust_ratio', 'rmsprop', 'zero_nans',
         'anchored', 'toggle']
SHAPES = [(), (2,), (2, 3)]


def grads_strategy(tree, mode=None):
  return gens.leaf_values(tree, mode or ['unit', 'int', 'sparse'])


def top(x):
  y = gens.f64(x)
  y = y[np.isfinite(y)]
  return float(np.abs(y).max()) if y.size else 0.0


def same(got, want, what, rtol=1e-9):
  """Agreement of two trees of arrays, in structure and values."""
  fg, tg = jax.tree_util.tree_flatten(got)
  fw, tw = jax.tree_util.tree_flatten(want)
  gens.check(tg == tw, f'{what}: structure {tg}, expected {tw}')
  for x, y in zip(fg, fw):
    gens.close(x, np.asarray(y), rtol, rtol * 1e-2 * max(top(y), 1e-6), what)


def rtol(w):
  """How well two runs agree: variances may cancel, and compiled code rounds
  32-bit fractions of schedules differently."""
  if w['name'] in ('scale_by_stddev', 'rmsprop', 'scale_by_belief',
                   'adabelief'):
    return 1e-5
  return 1e-6 if 'lr' in w else 1e-8


def zeros(got, what):
  for x in jax.tree_util.tree_leaves(got):
    gens.check((gens.f64(x) == 0).all(), f'{what}: got '
               f'{gens.f64(x).tolist()}, expected zeros')


def poison(leaves, where, kind):
  """Puts a non-finite value at one position of the leaves."""
  sizes = [len(v) for v in leaves]
  pos = where % sum(sizes)
  out = [list(v) for v in leaves]
  for v in out:
    if pos < len(v):
      v[pos] = {'nan': float('nan'), 'inf': float('inf'),
                '-inf': float('-inf')}[kind]
      break
    pos -= len(v)
  return out
