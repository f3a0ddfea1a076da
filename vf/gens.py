"""Generators of JSON-able cases: arrays, trees, histories.

All randomness is Hypothesis's. An array is drawn as one `st.binary` (fast, and
shrinks towards zeros) that is decoded into floats.
"""
import collections
import math

from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from vf import core

# --- floats ---------------------------------------------------------------


def _decode(raw, mode, special):
  u = np.frombuffer(raw, dtype='<u2').astype(np.int64)
  sign = np.where(u & 1, -1.0, 1.0)
  k = u >> 1  # 0..32767
  if mode == 'unit':
    x = k / 8192.0
  elif mode == 'wide':
    e = (k & 31) / 31.0 * 7.0 - 4.0
    m = 1.0 + ((k >> 5) & 1023) / 1024.0
    x = np.where(k == 0, 0.0, np.power(10.0, e) * m)
  elif mode == 'int':
    x = (k % 5).astype(float)
  elif mode == 'sparse':
    x = np.where(k % 3 == 1, (k >> 2) / 2048.0, 0.0)
  elif mode == 'same':
    x = np.full(len(u), (k[0] if len(k) else 0) / 8192.0)
    sign = np.full(len(u), sign[0] if len(k) else 1.0)
  elif mode == 'zero':
    x = np.zeros(len(u))
  elif mode == 'pos':
    x, sign = 0.05 + k / 8192.0, np.ones(len(u))
  elif mode == 'away':  # bounded away from zero, and of moderate size
    x = 0.125 + k / 16384.0
  else:
    raise ValueError(mode)
  x = sign * x
  if special:
    pick = (u >> 9) % special
    x = np.where(pick == 1, np.nan, x)
    x = np.where(pick == 2, np.inf, x)
    x = np.where(pick == 3, -np.inf, x)
  return [float('%.6g' % v) + 0.0 for v in x]


MODES = ('unit', 'unit', 'wide', 'int', 'sparse', 'same', 'zero')


@st.composite
def values(draw, n, mode=None, special=0):
  """A list of n floats."""
  if mode is None:
    mode = draw(st.sampled_from(MODES))
  elif not isinstance(mode, str):
    mode = draw(st.sampled_from(mode))
  raw = draw(st.binary(min_size=2 * n, max_size=2 * n))
  return _decode(raw, mode, special)


def nice(lo, hi):
  """Floats in [lo, hi] with few digits."""
  return st.integers(0, 10000).map(
      lambda i: float('%.6g' % (lo + (hi - lo) * i / 10000.0)))


def logf(lo, hi):
  """Log-uniform floats in [lo, hi]."""
  a, b = math.log10(lo), math.log10(hi)
  return st.integers(0, 1000).map(
      lambda i: float('%.4g' % 10 ** (a + (b - a) * i / 1000.0)))


# --- trees ----------------------------------------------------------------

SHAPES = [(), (1,), (3,), (5,), (2, 3), (1, 4), (4, 1), (3, 3), (2, 1, 3),
          (2, 2, 2), (1, 2, 1), (2, 3, 1, 2), (1, 1, 2, 3), (1, 1, 1, 1),
          (2, 1, 2, 3, 2)]

Pair = collections.namedtuple('Pair', ['zeta', 'alpha'])


class Box:
  """A user-defined pytree node."""

  def __init__(self, children):
    self.children = children

  def __repr__(self):
    return f'Box({self.children!r})'


jax.tree_util.register_pytree_node(
    Box, lambda b: (tuple(b.children), None), lambda _, c: Box(list(c)))

LAYOUTS = ('bare', 'list', 'tuple', 'dict', 'odict', 'named', 'nested',
           'none', 'box', 'deep', 'ints', 'ddict')


def _alt(layout, n):
  if layout == 'bare' and n != 1:
    return 'list'
  return layout


def build(layout, leaves):
  """Arranges the leaves in a container."""
  leaves = list(leaves)
  n = len(leaves)
  layout = _alt(layout, n)
  if layout == 'bare':
    return leaves[0]
  if layout == 'list':
    return leaves
  if layout == 'tuple':
    return tuple(leaves)
  if layout == 'dict':
    return {'p%d' % (n - i): x for i, x in enumerate(leaves)}
  if layout == 'odict':
    return collections.OrderedDict(
        ('p%d' % (n - i), x) for i, x in enumerate(leaves))
  if layout == 'ints':
    return {7 * i % 5 + 5 * i: x for i, x in enumerate(leaves)}
  if layout == 'ddict':
    return collections.defaultdict(
        list, {'p%d' % (i * 7 % 10): x for i, x in enumerate(leaves[:10])},
        **({'z': leaves[10:]} if leaves[10:] else {}))
  if layout == 'named':
    return Pair(zeta=leaves[0], alpha=leaves[1:])
  if layout == 'nested':
    return {'w': {'b': leaves[-1], 'a': leaves[:-1]}, 'v': ()}
  if layout == 'none':
    return {'z': None, 'y': leaves, 'x': [None, {}], 'a': ()}
  if layout == 'box':
    return Box(leaves)
  if layout == 'deep':
    out = []
    for x in reversed(leaves):
      out = [x, (out,)]
    return {'root': out}
  raise ValueError(layout)


def order(layout, n):
  """order[j] = index of the leaf that JAX flattens at position j."""
  return jax.tree_util.tree_leaves(build(layout, range(n)))


def unbuild(tree, layout, n, what='updates'):
  """The leaves of `tree`, which must have the structure of `layout`."""
  want = jax.tree_util.tree_structure(build(layout, range(n)))
  got = jax.tree_util.tree_structure(tree)
  if want != got:
    raise core.Violation(f'{what}: structure {got}, expected {want}')
  flat = jax.tree_util.tree_leaves(tree)
  out = [None] * n
  for j, i in enumerate(order(layout, n)):
    out[i] = flat[j]
  return out


def pool(ctx, size=6, shapes=None):
  """Each shard uses some of the shapes (it bounds the compilation cost)."""
  shapes = list(shapes or SHAPES)
  if ctx.tier == 'thorough' or size >= len(shapes):
    return [list(s) for s in shapes]
  k = ctx.shard
  return [list(shapes[(k * 5 + 4 * i) % len(shapes)]) for i in range(size)]


@st.composite
def tree_spec(draw, ctx, max_leaves=3, shapes=None, layouts=LAYOUTS,
              npool=6, min_leaves=1):
  n = draw(st.sampled_from(range(min_leaves, max_leaves + 1)))
  shapes = pool(ctx, npool, shapes)
  return {'layout': draw(st.sampled_from(layouts)),
          'shapes': [draw(st.sampled_from(shapes)) for _ in range(n)]}


def size(shape):
  return int(np.prod(shape)) if len(shape) else 1


@st.composite
def leaf_values(draw, spec, mode=None, special=0):
  """One flat list of floats per leaf."""
  return [draw(values(size(s), mode, special)) for s in spec['shapes']]


def np_leaves(spec, vals, dtype=np.float64):
  return [np.asarray(v, dtype=dtype).reshape(s)
          for v, s in zip(vals, spec['shapes'])]


def jax_tree(spec, vals, dtypes=None, as_numpy=False):
  """The JAX tree of a case."""
  n = len(spec['shapes'])
  dtypes = dtypes or ['float64'] * n
  leaves = []
  for v, s, d in zip(vals, spec['shapes'], dtypes):
    x = np.asarray(v, dtype=np.float64).reshape(s)
    x = x.astype(jnp.dtype(d))
    leaves.append(x if as_numpy else jnp.asarray(x))
  return build(spec['layout'], leaves)


# --- comparing ------------------------------------------------------------


def f64(x):
  return np.asarray(x).astype(np.float64)


def close(got, want, rtol, atol, what):
  """Raises a Violation unless got == want up to the tolerances."""
  got, want = f64(got), f64(want)
  if got.shape != want.shape:
    raise core.Violation(
        f'{what}: shape {got.shape}, expected {want.shape}')
  with np.errstate(all='ignore'):
    bad = ~((np.abs(got - want) <= atol + rtol * np.abs(want))
            | (got == want) | (np.isnan(got) & np.isnan(want)))
  if bad.any():
    raise core.Violation(
        f'{what}: got {got.tolist()}, expected {want.tolist()} '
        f'(rtol {rtol:g}, atol {np.max(atol):g})')


def check(cond, msg):
  if not cond:
    raise core.Violation(msg)


def same_bits(a, b):
  """Bitwise equality of two trees (NaNs equal)."""
  fa, ta = jax.tree_util.tree_flatten(a)
  fb, tb = jax.tree_util.tree_flatten(b)
  if ta != tb or len(fa) != len(fb):
    return False
  for x, y in zip(fa, fb):
    x, y = np.asarray(x), np.asarray(y)
    if x.dtype != y.dtype or x.shape != y.shape:
      return False
    if x.tobytes() != y.tobytes() and not (
        x.dtype.kind in 'fV' and np.array_equal(f64(x), f64(y),
                                                equal_nan=True)):
      return False
  return True


# Seeds: small ones, and all of them.
SEEDS = st.one_of(st.integers(0, 99), st.integers(0, 2 ** 31 - 1))


@st.composite
def other_seed(draw, seed):
  """Another seed, often one that shares most of its bits with `seed`."""
  return draw(st.one_of(
      SEEDS, st.integers(0, 30).map(lambda i: seed ^ (1 << i)),
      st.integers(0, 30).map(lambda i: seed % (1 << i)),
      st.integers(1, 2 ** 15).map(lambda k: (seed + (k << 16)) % 2 ** 31)))
