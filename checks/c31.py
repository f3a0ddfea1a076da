"""C31: control variates."""
import math

from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax
from optax._src import control_variates

from checks import c30
from vf import gens
from vf import ridge
from vf.core import Leg

ID = 'C31'
RULE = ('A case is a function with closed derivatives, Gaussian parameters, '
        'an estimator, a control variate with its state, and whether the '
        'coefficient is estimated; jacobians are compared sample by sample '
        'with f - c*h + c*E h assembled from closed forms, and in the mean '
        'with the exact gradient; the baseline with its recursion over '
        'histories of batches. Non-trivial: the function is not linear and '
        'not constant, the history has two batches or more.')
ASSUMPTIONS = ['The mean of 2000 samples is within 8 standard errors.']
ESTIMATORS = {'score': optax.score_function_jacobians,
              'path': optax.pathwise_jacobians,
              'measure': optax.measure_valued_jacobians}
CONTROLS = optax.control_delta_method, optax.moving_avg_baseline


class Taylor:
  """The second-order expansion of f at mu, in closed form."""

  def __init__(self, f, mu, ls):
    self.mu, self.var = mu, np.exp(2 * ls)
    self.f0 = float(ridge.value(f, mu))
    self.g, self.h = ridge.grad(f, mu), ridge.hess(f, mu)
    self.third = [(c * float(ridge.dddg(k, np.asarray(w) @ mu + b)),
                   np.asarray(w)) for k, c, w, b in f['t']]
    self.mean = self.f0 + float((self.var * np.diag(self.h)).sum()) / 2

  def fn(self, x):
    d = x - self.mu
    return self.f0 + jnp.dot(d, self.g) + jnp.dot(d, self.h @ d) / 2

  def value(self, x):
    d = x - self.mu
    return self.f0 + d @ self.g + np.einsum('...i,ij,...j', d, self.h, d) / 2

  def mu_grads(self, x):
    """d/dmu of the expansion at fixed x: the third-order term."""
    d = x - self.mu
    return sum(t * ((d @ w) ** 2)[..., None] * w / 2 for t, w in self.third)

  def mean_grads(self):
    gm = self.g + sum(t * (self.var * w ** 2).sum() * w / 2
                      for t, w in self.third)
    return gm, self.var * np.diag(self.h)


def curved(f):
  return any(k != 'lin' and c and any(w) for k, c, w, _ in f['t'])


# --- delta --------------------------------------------------------------------


@st.composite
def delta_case(draw, ctx):
  dim = draw(st.integers(1, 3))
  return {'f': draw(ridge.function(dim, max_terms=3)),
          'p': draw(c30.params_of(dim)),
          'x': draw(gens.values(dim, ['unit', 'int', 'zero'])),
          'state': draw(st.sampled_from([None, 3, [1.5, 2]]))}


def run_delta(case, ctx):
  f, state = case['f'], case['state']
  mu, ls = np.asarray(case['p']['mu']), np.asarray(case['p']['ls'])
  x = np.asarray(case['x'])
  cv, mean, update = optax.control_delta_method(ridge.make(f))
  t = Taylor(f, mu, ls)
  params = [jnp.asarray(mu), jnp.asarray(ls)]
  ctx.nontrivial(curved(f))
  ctx.label('dim:%d' % len(mu))
  what = f'delta method for {f} at {case["p"]}'
  size = 1 + abs(t.f0) + np.abs(t.h).sum() * (1 + np.abs(x - mu).max()) ** 2
  gens.close(cv(params, jnp.asarray(x), state), t.value(x), 1e-9, 1e-10 * size,
             f'{what}: value at {x.tolist()}')
  gens.close(mean(params, state), t.mean, 1e-9, 1e-10 * size,
             f'{what}: expectation')
  gens.check(update(params, jnp.asarray(x)[None], state) is state,
             f'{what}: the state changed')


# --- baseline -----------------------------------------------------------------


def baseline_step(state, m, decay, debias, heuristic):
  """The debiased average, written as a convex combination."""
  value, i = state
  d = min(decay, (1.0 + i) / (10.0 + i)) if heuristic else decay
  weight = (1 - d) / (1 - d ** (i + 1)) if debias else 1 - d
  return value + weight * (m - value), i + 1


@st.composite
def base_case(draw, ctx):
  dim = draw(st.integers(1, 2))
  n = draw(st.integers(1, 8))
  sizes = [draw(st.integers(1, 4)) for _ in range(n)]
  kw = {}
  if draw(st.booleans()):
    kw['decay'] = draw(st.one_of(gens.nice(0, 0.999), st.sampled_from(
        [0.0, 0.5, 0.9])))
  for name in ('zero_debias', 'use_decay_early_training_heuristic'):
    if draw(st.booleans()):
      kw[name] = draw(st.booleans())
  return {'f': draw(ridge.function(dim, max_terms=2)), 'dim': dim, 'kw': kw,
          'x': [draw(gens.values(k * dim, ['unit', 'int'])) for k in sizes],
          'start': draw(st.sampled_from([[0.0, 0], [0.0, 0], [2.5, 3],
                                         [-1.0, 100]])),
          'jit': draw(st.integers(0, 5)) == 0}


def run_base(case, ctx):
  f, kw, dim = case['f'], case['kw'], case['dim']
  cv, mean, update = optax.moving_avg_baseline(ridge.make(f), **kw)
  if case['jit']:
    update = jax.jit(update)
  state = (jnp.asarray(case['start'][0]), case['start'][1])
  ref = tuple(case['start'])
  params = [jnp.zeros(dim)] * 2
  ctx.nontrivial(len(case['x']) > 1)
  ctx.label(*['%s:%s' % (k, v) for k, v in kw.items() if k != 'decay'])
  for t, vals in enumerate(case['x']):
    x = np.asarray(vals).reshape(-1, dim)
    state = update(params, jnp.asarray(x), state)
    ref = baseline_step(
        ref, float(ridge.value(f, x).mean()), kw.get('decay', 0.99),
        kw.get('zero_debias', True),
        kw.get('use_decay_early_training_heuristic', True))
    what = f'moving_avg_baseline({kw}) of {f} from {case["start"]}: '
    gens.close(state[0], ref[0], 1e-6, 1e-7, what + f'value after batch {t}')
    gens.check(int(state[1]) == ref[1], what + f'count {state[1]} after '
               f'batch {t}')
    for y in (cv(params, jnp.asarray(x[0]), state), mean(params, state)):
      gens.close(y, ref[0], 1e-6, 1e-7, what + 'control variate')
  slopes = jax.grad(lambda p, x, v: update(p, x, (v, state[1]))[0], (0, 1, 2))(
      params, jnp.asarray(x), jnp.asarray(state[0], float))
  gens.check(all((gens.f64(y) == 0).all()
                 for y in jax.tree_util.tree_leaves(slopes)),
             what + 'the average is not a constant to differentiation')


# --- jacobians ----------------------------------------------------------------


@st.composite
def case(draw, ctx):
  dim = draw(st.sampled_from([1 + ctx.shard % 2, 3]))
  kind = draw(st.sampled_from(['free', 'free', 'free', 'quad']))
  f = draw(ridge.function(
      dim, ['lin', 'sq'] if kind == 'quad' else ridge.CLOSED, 3))
  kw = {}
  if draw(st.booleans()):
    kw['estimate_cv_coeffs'] = draw(st.booleans())
  if draw(st.integers(0, 2)) == 0:
    kw['estimate_cv_coeffs_num_samples'] = draw(st.sampled_from([3, 7]))
  base = {}
  if draw(st.booleans()):
    base = {'decay': draw(gens.nice(0, 0.99)), 'zero_debias': draw(
        st.booleans()), 'use_decay_early_training_heuristic': draw(
            st.booleans())}
  return {'f': f, 'p': draw(c30.params_of(dim)), 'kind': kind, 'kw': kw,
          'est': draw(st.sampled_from(['score', 'score', 'path', 'measure'])),
          'cv': draw(st.sampled_from(['delta', 'delta', 'base'])),
          'base': base, 'key': draw(st.integers(0, 2 ** 31 - 1)),
          'state': draw(st.sampled_from([[0.0, 0], [1.5, 2], [-2.0, 30]])),
          'n': draw(st.sampled_from([1, 2, 5, 5, 2000]))}


def run(case, ctx):
  f, n, kw = case['f'], case['n'], case['kw']
  mu, ls = np.asarray(case['p']['mu']), np.asarray(case['p']['ls'])
  params = [jnp.asarray(mu), jnp.asarray(ls)]
  key = jax.random.PRNGKey(case['key'])
  estimator = ESTIMATORS[case['est']]
  delta = case['cv'] == 'delta'
  calls = []

  def recording(function, params, dist_builder, rng, num_samples):
    calls.append((np.asarray(rng).tolist(), num_samples))
    return estimator(function, params, dist_builder, rng, num_samples)

  if delta:
    state, from_fn = None, optax.control_delta_method
  else:
    state = (jnp.asarray(case['state'][0]), case['state'][1])
    from_fn = lambda fn: optax.moving_avg_baseline(fn, **case['base'])
  got, after = optax.control_variates_jacobians(
      ridge.make(f), from_fn, recording, params, optax.multi_normal, key, n,
      state, **kw)
  what = f'{case["est"]} jacobians with {case["cv"]} control variate {kw} of ' \
         f'{f} at {case["p"]}, {n} samples'
  ctx.label(case['est'], case['cv'], 'kind:' + case['kind'], 'n:%d' % n,
            'coeffs:%s' % kw.get('estimate_cv_coeffs', False))
  ctx.nontrivial(curved(f))

  # The pieces, from closed forms and the estimator.
  x = gens.f64(optax.multi_normal(*params).sample((n,), seed=key))
  t = Taylor(f, mu, ls)
  jac = lambda fn, k, m: [gens.f64(j) for j in estimator(
      fn, params, optax.multi_normal, k, m)]
  old = new = None
  if delta:
    h_old = h_new = t.fn
    at_x = [t.mu_grads(x), np.zeros_like(x)]
    closed = list(t.mean_grads())
    gens.check(after is None, f'{what}: state {after}')
  else:
    old = case['state']
    new = baseline_step(
        old, float(ridge.value(f, x).mean()), case['base'].get('decay', 0.99),
        case['base'].get('zero_debias', True),
        case['base'].get('use_decay_early_training_heuristic', True))
    h_old = lambda y: old[0] + 0 * jnp.sum(y)
    h_new = lambda y: new[0] + 0 * jnp.sum(y)
    at_x = [np.zeros_like(x)] * 2
    closed = [np.zeros_like(mu)] * 2
    gens.close(after[0], new[0], 1e-6, 1e-7, f'{what}: state')
    gens.check(int(after[1]) == new[1], f'{what}: count {after[1]}')
  coeffs = [1.0, 1.0]
  if kw.get('estimate_cv_coeffs'):
    main = np.asarray(key).tolist()
    fresh = [c for c in calls if c[0] != main]
    gens.check(fresh and all(c[0] == fresh[0][0] for c in fresh),
               f'{what}: no (or several) keys of fresh samples: {calls}')
    m = kw.get('estimate_cv_coeffs_num_samples', 20)
    gens.check(all(c[1] == m for c in fresh), f'{what}: calls {calls}, '
               f'expected {m} fresh samples')
    cv_key = jnp.asarray(fresh[0][0], jnp.uint32)
    jf, jh = jac(ridge.make(f), cv_key, m), jac(h_old, cv_key, m)
    coeffs = [coefficient(a, b, 1e-3) for a, b in zip(jf, jh)]
  jf, jh = jac(ridge.make(f), key, n), jac(h_new, key, n)
  gens.check(len(got) == 2, f'{what}: {len(got)} jacobians')
  for i, name in enumerate(['mean', 'log scale']):
    c = coeffs[i]
    want = jf[i] - c * (jh[i] + at_x[i].mean(0)) + c * closed[i]
    size = np.abs(jf[i]).max() + abs(c) * (
        np.abs(jh[i]).max() + np.abs(at_x[i]).max() + np.abs(closed[i]).max())
    gens.close(got[i], want, 1e-6, 1e-7 * (1 + size),
               f'{what}: {name} (coefficient {c:.6g}, samples {x[:5].tolist()})')
  # In the mean: the exact gradient.
  exact = ridge.mean_grads(f, mu, ls)
  for i, name in enumerate(['mean', 'log scale']):
    a = gens.f64(got[i])
    if n == 2000:
      err = (a.std(0) + abs(coeffs[i]) * at_x[i].std(0)) / math.sqrt(n)
      bias = 0 if delta else (abs(new[0]) + np.abs(ridge.value(
          f, x)).max()) * 20 / n
      gens.close(a.mean(0), exact[i], 0, 8 * err + bias + 1e-6 * (
          1 + np.abs(exact[i])), f'{what}: mean of the {name} jacobians, '
                 f'standard error {err.tolist()}')
    if case['kind'] == 'quad' and delta and not kw.get('estimate_cv_coeffs'):
      gens.close(a, exact[i] + 0 * a, 1e-6, 1e-7 * (1 + np.abs(
          gens.f64(jf[i])).max()), f'{what}: {name}, f is its own expansion')


def coefficient(jf, jh, eps):
  cov = ((jf - jf.mean(0)) * (jh - jh.mean(0))).mean(0).sum()
  return float(cov / (jh.var(0).sum() + eps))


# --- coefficients -------------------------------------------------------------


@st.composite
def coeff_case(draw, ctx):
  dim = draw(st.sampled_from([1 + ctx.shard % 2, 3]))
  return {'f': draw(ridge.function(dim, ridge.CLOSED, 3)),
          'p': draw(c30.params_of(dim)), 'm': draw(st.sampled_from([1, 2, 20, 7])),
          'est': draw(st.sampled_from(['score', 'path', 'measure'])),
          'cv': draw(st.sampled_from(['delta', 'delta', 'base'])),
          'key': draw(st.integers(0, 2 ** 31 - 1)),
          'state': draw(gens.nice(-3, 3)),
          'eps': draw(st.one_of(st.none(), gens.logf(1e-6, 1.0)))}


def run_coeff(case, ctx):
  f, m = case['f'], case['m']
  mu, ls = np.asarray(case['p']['mu']), np.asarray(case['p']['ls'])
  params = [jnp.asarray(mu), jnp.asarray(ls)]
  estimator = ESTIMATORS[case['est']]
  key = jax.random.PRNGKey(case['key'])
  calls = []

  def recording(function, params, dist_builder, rng, num_samples):
    calls.append(np.asarray(rng).tolist())
    return estimator(function, params, dist_builder, rng, num_samples)
  delta = case['cv'] == 'delta'
  kw = {} if case['eps'] is None else {'eps': case['eps']}
  state = None if delta else (jnp.asarray(case['state']), 4)
  got = control_variates.estimate_control_variate_coefficients(
      ridge.make(f), optax.control_delta_method if delta
      else optax.moving_avg_baseline, recording, params, optax.multi_normal,
      key, m, state, **kw)
  ctx.label(case['est'], case['cv'], 'm:%d' % min(m, 3))
  ctx.nontrivial(m > 1 and curved(f))
  what = f'{case["est"]} coefficient ({case["cv"]}) of {f} at {case["p"]}'
  gens.check(calls and all(c == calls[0] for c in calls),
             f'{what}: different samples for the function and the variate')
  h = (Taylor(f, mu, ls).fn if delta
       else lambda y: case['state'] + 0 * jnp.sum(y))
  k = jnp.asarray(calls[0], jnp.uint32)
  jac = lambda fn: [gens.f64(j) for j in estimator(
      fn, params, optax.multi_normal, k, m)]
  jf, jh = jac(ridge.make(f)), jac(h)
  gens.check(len(got) == 2, f'{what}: {len(got)} coefficients')
  for i, c in enumerate(got):
    gens.close(c, coefficient(jf[i], jh[i], kw.get('eps', 1e-3)), 1e-5, 1e-6,
               f'{what}, parameter {i}, {m} samples')


LEGS = [Leg('delta', delta_case, run_delta, 150),
        Leg('baseline', base_case, run_base, 300),
        Leg('jacobians', case, run, 130),
        Leg('coefficients', coeff_case, run_coeff, 90)]
