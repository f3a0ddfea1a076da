"""C30: stochastic gradient estimators."""
import math

from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax

from vf import gens
from vf import ridge
from vf.core import Leg

ID = 'C30'
RULE = ('A case is a function with closed derivatives and expectations, '
        'Gaussian parameters of dimension 1-4 (or another distribution), a '
        'key and a number of samples. Jacobians are compared sample by sample '
        'with the closed form at the samples drawn with the key; '
        'measure-valued ones in the mean with the exact gradient, within 7 '
        'standard errors. Non-trivial: dimension > 1 or more than one sample, '
        'and a function that is not linear.')
ASSUMPTIONS = ['The mean of 3000 samples is within 7 standard errors.']


@st.composite
def params_of(draw, dim):
  return {'mu': draw(gens.values(dim, ['unit', 'int', 'sparse'])),
          'ls': [v / 4 for v in draw(gens.values(dim, ['unit', 'sparse',
                                                       'zero']))]}


@st.composite
def case(draw, ctx):
  dim = draw(st.integers(1, 4))
  return {'dim': dim, 'f': draw(ridge.function(dim)),
          'p': draw(params_of(dim)), 'n': draw(st.integers(1, 6)),
          'key': draw(st.integers(0, 2 ** 31 - 1)),
          'which': draw(st.sampled_from(['score', 'path'])),
          'dist': draw(st.sampled_from(['normal', 'normal', 'normal',
                                        'shifted', 'laplace'])),
          'list': draw(st.booleans()), 'jit': draw(st.integers(0, 5)) == 0}


class Shifted:
  """N(a + b, 1) with two parameters of one and the same role."""

  def __init__(self, a, b):
    self.m = a + b

  def sample(self, shape, seed):
    return self.m + jax.random.normal(seed, shape + self.m.shape)

  def log_prob(self, x):
    return jnp.sum(-0.5 * (x - self.m) ** 2, axis=-1)


class Laplace:
  """Laplace(mean, 1), of one parameter."""

  def __init__(self, m):
    self.m = m

  def sample(self, shape, seed):
    return self.m + jax.random.laplace(seed, shape + self.m.shape)

  def log_prob(self, x):
    return -jnp.sum(jnp.abs(x - self.m), axis=-1)


def run(case, ctx):
  dim, n, f = case['dim'], case['n'], case['f']
  mu, ls = np.asarray(case['p']['mu']), np.asarray(case['p']['ls'])
  key = jax.random.PRNGKey(case['key'])
  params = [jnp.asarray(mu), jnp.asarray(ls)]
  build = {'normal': optax.multi_normal, 'shifted': Shifted,
           'laplace': Laplace}[case['dist']]
  if case['dist'] == 'laplace':
    params = params[:1]
  params = list(params) if case['list'] else tuple(params)
  fn = (optax.score_function_jacobians if case['which'] == 'score'
        else optax.pathwise_jacobians)
  call = lambda p, k: fn(ridge.make(f), p, build, k, n)
  got = (jax.jit(call) if case['jit'] else call)(params, key)
  x = gens.f64(build(*params).sample((n,), seed=key))
  gens.check(x.shape == (n, dim), f'samples of shape {x.shape}')
  value = ridge.value(f, x)[:, None]
  slope = ridge.grad(f, x)
  if case['dist'] == 'normal':
    z = (x - mu) / np.exp(ls)
    dlog = [z / np.exp(ls), z ** 2 - 1]
    dx = [np.ones_like(x), x - mu]
  elif case['dist'] == 'shifted':
    dlog = [x - mu - ls] * 2
    dx = [np.ones_like(x)] * 2
  else:
    dlog, dx = [np.sign(x - mu)], [np.ones_like(x)]
  want = ([value * d for d in dlog] if case['which'] == 'score'
          else [slope * d for d in dx])
  ctx.label(case['which'], 'dist:' + case['dist'], 'dim:%d' % dim)
  ctx.nontrivial((dim > 1 or n > 1) and any(
      k != 'lin' and c and any(w) for k, c, w, _ in f['t']))
  what = f'{case["which"]} jacobians ({case["dist"]}) of {f} at {case["p"]}'
  gens.check(len(got) == len(want), f'{what}: {len(got)} jacobians')
  for i, (a, b) in enumerate(zip(got, want)):
    gens.check(np.shape(a) == (n, dim), f'{what}: shape {np.shape(a)}')
    gens.close(a, b, 1e-6, 1e-8 * (1 + np.abs(b).max()),
               f'{what}: parameter {i} at samples {x.tolist()}')


# --- the Gaussian itself --------------------------------------------------------


@st.composite
def dist_case(draw, ctx):
  dim = draw(st.integers(1, 3))
  return {'p': draw(params_of(dim)), 'key': draw(st.integers(0, 2 ** 31 - 1)),
          'x': draw(gens.values(dim * 3, ['unit', 'int'])),
          'scalar': draw(st.sampled_from(['', '', 'mu', 'ls']))}


def run_dist(case, ctx):
  mu, ls = np.asarray(case['p']['mu']), np.asarray(case['p']['ls'])
  dim = len(mu)
  if case['scalar'] == 'mu':
    mu = mu[:1]
  elif case['scalar'] == 'ls':
    ls = ls[:1]
  d = optax.multi_normal(jnp.asarray(mu), jnp.asarray(ls))
  x = np.asarray(case['x']).reshape(3, dim)
  s = np.exp(ls) * np.ones(dim)
  want = (-0.5 * ((x - mu) / s) ** 2 - np.log(s)
          - 0.5 * math.log(2 * math.pi)).sum(-1)
  ctx.nontrivial(dim > 1)
  gens.close(d.log_prob(jnp.asarray(x)), want, 1e-9, 1e-9,
             f'log_prob of {x.tolist()} under {case["p"]}')
  gens.close(d.log_prob(jnp.asarray(x[0])), want[0], 1e-9, 1e-9,
             f'log_prob of {x[0].tolist()} under {case["p"]}')
  gens.close(d.params[0], mu, 0, 0, 'params[0]')
  gens.close(d.params[1], ls, 0, 0, 'params[1]')
  gens.close(d.log_scale, ls, 0, 0, 'log_scale')
  key = jax.random.PRNGKey(case['key'])
  n = 1200
  got = gens.f64(d.sample((n,), seed=key))
  gens.check(got.shape == (n, dim), f'samples of shape {got.shape}')
  z = (got - mu) / s
  from vf import stats  # pylint: disable=import-outside-toplevel
  stats.normal([z[:, i] for i in range(dim)], f'samples of {case["p"]}')
  stats.fresh([z[:, i] for i in range(dim)], f'samples of {case["p"]}', 1e-9)
  gens.check(gens.same_bits(d.sample((n,), seed=key), jnp.asarray(got)),
             'samples with the same key differ')


# --- measure-valued -------------------------------------------------------------


@st.composite
def measure_case(draw, ctx):
  dim = draw(st.integers(1, 3))
  out = {'f': draw(ridge.function(dim, ridge.CLOSED, 3)),
         'p': draw(params_of(dim)), 'key': draw(st.integers(0, 2 ** 31 - 1)),
         'coupling': draw(st.sampled_from([None, True, False]))}
  # Pure one-dimensional terms make constants visible.
  if draw(st.booleans()):
    i = draw(st.integers(0, dim - 1))
    out['f']['t'] = [[draw(st.sampled_from(['lin', 'sq', 'cube'])), 1.0,
                      [1.0 if j == i else 0.0 for j in range(dim)], 0.0]]
  return out


def run_measure(case, ctx):
  f, n = case['f'], 3000
  mu, ls = np.asarray(case['p']['mu']), np.asarray(case['p']['ls'])
  dim = len(mu)
  kw = {} if case['coupling'] is None else {'coupling': case['coupling']}
  params = [jnp.asarray(mu), jnp.asarray(ls)]
  got = optax.measure_valued_jacobians(
      ridge.make(f), params, optax.multi_normal,
      jax.random.PRNGKey(case['key']), n, **kw)
  want = ridge.mean_grads(f, mu, ls)
  ctx.label('coupling:%s' % case['coupling'], 'dim:%d' % dim)
  ctx.nontrivial(any(k != 'lin' and c and any(w) for k, c, w, _ in f['t']))
  what = f'measure-valued jacobians (coupling {case["coupling"]}) of {f} at ' \
         f'{case["p"]}'
  gens.check(len(got) == 2, f'{what}: {len(got)} jacobians')
  for name, a, b in zip(['mean', 'log scale'], got, want):
    gens.check(np.shape(a) == (n, dim), f'{what}: shape {np.shape(a)}')
    a = gens.f64(a)
    gens.check(np.isfinite(a).all(), f'{what}: not finite')
    err = a.std(axis=0) / math.sqrt(n)
    # Heavy tails (cubes): the standard error is itself an estimate.
    gens.close(a.mean(axis=0), b, 0, 8 * err + 1e-9 * (1 + np.abs(b)),
               f'{what}: mean over {n} samples for the {name}, standard error '
               f'{err.tolist()}')
  only = [[k, c, w, b] for k, c, w, b in f['t'] if c and any(w)]
  if len(only) == 1 and only[0][0] == 'lin':
    # f(x) = c (w . x + b): (pos + neg) / sqrt(2 pi) times c w, where pos and
    # neg have the variance 2 - pi/2 and are equal if coupled, else independent.
    c, w = only[0][1], np.asarray(only[0][2])
    a = gens.f64(got[0])
    scale = (c * w) ** 2 * (2 - math.pi / 2) / (2 * math.pi) * (
        2 if case['coupling'] is False else 4)
    ctx.label('variance')
    gens.close(a.var(axis=0), scale, 0.25, 1e-12,
               f'{what}: variance over {n} samples')


@st.composite
def even_case(draw, ctx):
  dim = draw(st.integers(1, 3))
  return {'dim': dim, 'i': draw(st.integers(0, dim - 1)),
          'kind': draw(st.sampled_from(['sq', 'cos', 'quart', 'abs'])),
          'c': draw(st.sampled_from([1.0, -1.0, 2.5])),
          'p': draw(params_of(dim)), 'key': draw(st.integers(0, 2 ** 31 - 1)),
          'coupling': draw(st.sampled_from([None, True, False]))}


def run_even(case, ctx):
  """Coupled pairs lie at mean +- y, or at y and u y from it (u < 1)."""
  mu, ls = np.asarray(case['p']['mu']), np.asarray(case['p']['ls'])
  i, c, n, coupled = case['i'], case['c'], 300, case['coupling'] is not False
  h = {'sq': lambda y: y * y, 'quart': lambda y: y ** 4, 'abs': jnp.abs,
       'cos': lambda y: -jnp.cos(y / 4)}[case['kind']]
  kw = {} if case['coupling'] is None else {'coupling': case['coupling']}
  mean, scale = optax.measure_valued_jacobians(
      lambda x: c * h(x[i] - mu[i]), [jnp.asarray(mu), jnp.asarray(ls)],
      optax.multi_normal, jax.random.PRNGKey(case['key']), n, **kw)
  mean, scale = gens.f64(mean), gens.f64(scale)
  what = f'measure-valued jacobians of a function even around the mean {case}'
  ctx.label('coupling:%s' % case['coupling'])
  ctx.nontrivial(True)
  size = np.abs(scale[:, i]).max() + 1e-12
  even = bool((np.abs(mean[:, i]) <= 1e-7 * size).all())
  gens.check(even == coupled, f'{what}: jacobians for the mean '
             f'{mean[:4, i].tolist()}...')
  grows = bool((scale[:, i] * c >= -1e-9 * size).all())
  # (The probability of this without coupling is below 1e-20.)
  if case['kind'] != 'cos' or math.exp(ls[i]) < 1.5:
    gens.check(grows == coupled, f'{what}: jacobians for the log scale '
               f'{scale[:4, i].tolist()}...')


@st.composite
def reject_case(draw, ctx):
  return {'dist': draw(st.sampled_from(['lambda', 'shifted', 'class', 'ok'])),
          'dim': draw(st.integers(1, 3)), 'coupling': draw(st.booleans())}


def run_reject(case, ctx):
  build = {'lambda': lambda *a: optax.multi_normal(*a), 'shifted': Shifted,
           'class': type(optax.multi_normal(jnp.zeros(1), jnp.zeros(1))),
           'ok': optax.multi_normal}[case['dist']]
  p = [jnp.zeros(case['dim'])] * 2
  raised = None
  try:
    optax.measure_valued_jacobians(
        lambda x: jnp.sum(x), p, build, jax.random.PRNGKey(0), 2,
        coupling=case['coupling'])
  except ValueError as e:
    raised = e
  ctx.nontrivial(case['dist'] != 'ok')
  ctx.label('reject:' + case['dist'])
  gens.check((raised is None) == (case['dist'] == 'ok'),
             f'measure_valued_jacobians with {case["dist"]}: raised {raised!r}')


LEGS = [Leg('samples', case, run, 320),
        Leg('gaussian', dist_case, run_dist, 160),
        Leg('measure', measure_case, run_measure, 180),
        Leg('even', even_case, run_even, 60),
        Leg('reject', reject_case, run_reject, 24)]
