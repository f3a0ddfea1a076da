"""Schedules: JSON specs, the optax object, and interval-valued references.

The reference `interval(spec, s)` is computed in Python floats from the
documented formulas. It returns [lo, hi], the values that 32-bit arithmetic on
the fraction of the interval may give (schedules divide int32 counters).
"""
import math

from hypothesis import strategies as st
import jax.numpy as jnp
import optax

from vf import gens

MAX = 2**31 - 1
FRAC = 6e-7  # absolute error of a fraction in [0, 1]
REL = 1e-5


def _wide(v, mag=None):
  e = REL * abs(v if mag is None else mag) + 1e-36
  return v - e, v + e


def _span(*vals):
  lo = min(v[0] for v in vals)
  hi = max(v[1] for v in vals)
  return lo, hi


# --- references ---------------------------------------------------------------


def _poly(s, init, end, power, steps, begin=0):
  if steps <= 0:
    return _wide(init)
  t = s - max(begin, 0)
  if t <= 0:
    return _wide(init, max(abs(init), abs(end) * 0.05))
  if t >= steps:
    return _wide(end)
  frac = 1 - t / steps
  out = []
  for f in (frac - FRAC, frac, frac + FRAC):
    f = min(max(f, 0.0), 1.0)
    out.append(_wide((init - end) * f ** power + end,
                     max(abs(init), abs(end))))
  return _span(*out)


def _expo(s, init, steps, rate, begin=0, staircase=False, end=None):
  if steps <= 0 or rate == 0:
    return _wide(init)
  t = s - max(begin, 0)
  if t <= 0 or init == 0:
    lo, hi = _wide(init)
  else:
    p = t / steps
    if staircase:
      near = 4e-7 if t > 2**22 else 0.0
      # An exact integer division unless the count exceeds float precision.
      ps = [float(t // steps)] if not near else [
          math.floor(p * (1 - near)), math.floor(p * (1 + near))]
    else:
      ps = [p]
    vals = []
    for q in ps:
      x = q * math.log(rate)
      err = abs(x) * 6e-7 + abs(q) * 2e-7 + REL
      for y in (x - err, x + err):
        m = math.log(abs(init)) + y
        mag = math.exp(m) if m < 700 else math.inf
        if m > 87:
          mag = math.inf if y > x else min(mag, 3e38)
        if m < -85:
          mag = 0.0 if y < x else max(mag, 1e-36)
        vals.append(math.copysign(mag, init))
    lo, hi = min(vals), max(vals)
  if end is not None:
    fn = max if rate < 1.0 else min
    a, b = _wide(end)
    lo, hi = fn(lo, a), fn(hi, b)
  return lo, hi


def _cosine(s, init, steps, alpha=0.0):
  if s >= steps:
    return _wide(init * alpha, max(abs(init * alpha), abs(init) * 0.1))
  frac = s / steps
  c = 0.5 * (1 + math.cos(math.pi * frac))
  return _wide(init * ((1 - alpha) * c + alpha),
               abs(init) * max(abs(alpha), 1, abs(1 - alpha)))


def _pconst(s, init, bs):
  v = init
  for b, f in sorted(bs):
    if s >= b:
      v *= f
  return _wide(v)


def _interp(s, kind, init, bs):
  bounds, vals = [0], [init]
  for b, f in sorted(bs):
    bounds.append(b)
    vals.append(vals[-1] * f)
  if s >= bounds[-1]:
    return _wide(vals[-1])
  i = max(i for i in range(len(bounds) - 1) if bounds[i] <= s)
  a, b = vals[i], vals[i + 1]
  pct = (s - bounds[i]) / (bounds[i + 1] - bounds[i])
  mag = max(abs(a), abs(b))
  if kind == 'linear':
    return _wide(a + (b - a) * pct, mag)
  return _wide(b + (a - b) * 0.5 * (1 + math.cos(math.pi * pct)), mag)


def _onecycle(kind, kw):
  t, peak = kw['transition_steps'], kw['peak_value']
  div, fin = kw.get('div_factor', 25.0), kw.get('final_div_factor', 1e4)
  start = kw.get('pct_start', 0.3)
  if kind == 'linear':
    pairs = [(int(start * t), div),
             (int(kw.get('pct_final', 0.85) * t), 1 / div), (t, 1 / fin)]
  else:
    pairs = [(int(start * t), div), (t, 1 / (div * fin))]
  merged = {}
  for b, f in pairs:
    merged[b] = merged.get(b, 1.0) * f
  return peak / div, sorted(merged.items())


def _join(s, members, boundaries):
  i = sum(b <= s for b in boundaries)
  return interval(members[i], s - (boundaries[i - 1] if i else 0))


def _warmcos(init_value, peak_value, warmup_steps, decay_steps, end_value=0.0):
  return [{'k': 'linear', 'a': [init_value, peak_value, warmup_steps]},
          {'k': 'cosine', 'a': [peak_value, decay_steps - warmup_steps,
                                end_value / peak_value]}], [warmup_steps]


def interval(spec, s):
  """The values that the schedule may take at step s."""
  k = spec['k']
  if k == 'const':
    return _wide(spec['v'])
  if k == 'affine':
    v = spec['v'][0] + spec['v'][1] * s
    return _wide(v)
  if k == 'nanneg':  # NaN for negative arguments
    return _wide(math.sqrt(s))
  if k == 'poly':
    return _poly(s, *spec['a'])
  if k == 'linear':
    a = spec['a']
    return _poly(s, a[0], a[1], 1, *a[2:])
  if k == 'expo':
    return _expo(s, *spec['a'])
  if k == 'cosine':
    return _cosine(s, *spec['a'])
  if k == 'pconst':
    return _pconst(s, spec['init'], spec['bs'] or [])
  if k == 'interp':
    return _interp(s, spec['kind'], spec['init'], spec['bs'] or [])
  if k == 'onecycle':
    init, bs = _onecycle(spec['kind'], spec['kw'])
    return _interp(s, spec['kind'], init, bs)
  if k == 'join':
    return _join(s, spec['members'], spec['bounds'])
  if k == 'warmcos':
    return _join(s, *_warmcos(**spec['kw']))
  if k == 'warmexp':
    w = spec['kw']
    return _join(s, [
        {'k': 'linear', 'a': [w['init_value'], w['peak_value'],
                              w['warmup_steps']]},
        {'k': 'expo', 'a': [w['peak_value'], w['transition_steps'],
                            w['decay_rate'], w.get('transition_begin', 0),
                            w.get('staircase', False), w.get('end_value')]}],
                 [w['warmup_steps']])
  if k == 'sgdr':
    start, cycles = 0, spec['cycles']
    for c in cycles[:-1]:
      if s < start + c['decay_steps']:
        break
      start += c['decay_steps']
    else:
      c = cycles[-1]
    return _join(s - start, *_warmcos(**c))
  raise ValueError(k)


# --- optax objects --------------------------------------------------------------


def make(spec):
  k = spec['k']
  if k == 'const':
    return optax.constant_schedule(spec['v'])
  if k == 'affine':
    a, b = spec['v']
    return lambda s: a + b * jnp.asarray(s, jnp.float32)
  if k == 'nanneg':
    return lambda s: jnp.sqrt(jnp.asarray(s, jnp.float32))
  if k == 'poly':
    return optax.polynomial_schedule(*spec['a'])
  if k == 'linear':
    return optax.linear_schedule(*spec['a'])
  if k == 'expo':
    a = spec['a']
    names = ['transition_begin', 'staircase', 'end_value']
    return optax.exponential_decay(*a[:3], **dict(zip(names, a[3:])))
  if k == 'cosine':
    return optax.cosine_decay_schedule(*spec['a'])
  if k == 'pconst':
    bs = spec['bs']
    return optax.piecewise_constant_schedule(
        spec['init'], None if bs is None else {b: f for b, f in bs})
  if k == 'interp':
    bs = spec['bs']
    return optax.piecewise_interpolate_schedule(
        spec['kind'], spec['init'],
        None if bs is None else {b: f for b, f in bs})
  if k == 'onecycle':
    fn = (optax.linear_onecycle_schedule if spec['kind'] == 'linear'
          else optax.cosine_onecycle_schedule)
    return fn(**spec['kw'])
  if k == 'join':
    return optax.join_schedules([make(m) for m in spec['members']],
                                spec['bounds'])
  if k == 'warmcos':
    return optax.warmup_cosine_decay_schedule(**spec['kw'])
  if k == 'warmexp':
    return optax.warmup_exponential_decay_schedule(**spec['kw'])
  if k == 'sgdr':
    cycles = [dict(c) for c in spec['cycles']]
    form = spec.get('form', 'list')
    return optax.sgdr_schedule(
        cycles if form == 'list' else tuple(cycles) if form == 'tuple'
        else iter(cycles))
  raise ValueError(k)


# --- generators -------------------------------------------------------------------

VALUE = st.one_of(gens.nice(-2, 2), gens.logf(1e-6, 10),
                  st.sampled_from([0.0, 1.0, 0.1]), st.integers(-2, 3))
STEPS = st.one_of(st.integers(1, 12), st.integers(1, 400),
                  st.sampled_from([1, 2, 10, 1000, 10**6]),
                  st.integers(1, MAX))
BEGIN = st.one_of(st.just(0), st.integers(0, 12), st.integers(-5, 400),
                  st.integers(-3, MAX))
RATE = st.one_of(gens.nice(0.05, 0.999), gens.nice(1.0, 3.0),
                 st.sampled_from([0.5, 0.9, 0.96, 1.0, 2.0]))
SCALE = st.one_of(gens.nice(0, 3), st.sampled_from([0.0, 0.1, 0.5, 1.0, 2.0]))
BOUND = st.one_of(st.integers(0, 20), st.integers(0, 500),
                  st.integers(0, MAX))


@st.composite
def elementary(draw):
  k = draw(st.sampled_from(['const', 'poly', 'poly', 'poly', 'linear', 'expo',
                            'expo', 'expo', 'cosine', 'cosine', 'pconst',
                            'pconst']))
  if k == 'const':
    return {'k': k, 'v': draw(VALUE)}
  none = lambda s: draw(st.one_of(s, s, s, s, st.sampled_from([0, -1, -7])))
  if k in ('poly', 'linear'):
    a = [draw(VALUE), draw(VALUE)]
    if k == 'poly':
      a.append(draw(st.one_of(st.sampled_from([1, 2, 3, 0.5, 2.0, 1.5]),
                              gens.nice(0.1, 4))))
    a.append(none(STEPS))
    if draw(st.booleans()):
      a.append(draw(BEGIN))
    return {'k': k, 'a': a}
  if k == 'expo':
    a = [draw(VALUE), none(STEPS), draw(st.one_of(RATE, RATE, RATE, RATE,
                                                  st.just(0)))]
    if a[0] == 0 and a[2] > 1:
      a[0] = 1.0  # 0 * inf once the growth overflows
    if draw(st.booleans()):
      a += [draw(BEGIN), draw(st.booleans()),
            draw(st.one_of(st.none(), VALUE))]
    return {'k': k, 'a': a}
  if k == 'cosine':
    a = [draw(VALUE), draw(STEPS)]
    if draw(st.booleans()):
      a.append(draw(st.one_of(gens.nice(0, 1), st.sampled_from([0.0, 1.0]),
                              gens.nice(-1, 2))))
    return {'k': k, 'a': a}
  return {'k': k, 'init': draw(VALUE), 'bs': draw(boundaries())}


def boundaries(bound=BOUND):
  return st.one_of(
      st.none(), st.lists(st.tuples(bound, SCALE).map(list), max_size=5,
                          unique_by=lambda p: p[0]),
      st.lists(st.tuples(bound, SCALE).map(list), min_size=1, max_size=5,
               unique_by=lambda p: p[0]))


SMALL = st.one_of(st.integers(0, 8), st.integers(0, 8), st.integers(0, 300),
                  st.integers(0, 10**6))


@st.composite
def warmcos_kw(draw):
  w = draw(SMALL)
  kw = {'init_value': draw(VALUE),
        'peak_value': draw(gens.logf(1e-3, 10)) * draw(
            st.sampled_from([1, 1, 1, -1])),
        'warmup_steps': w, 'decay_steps': w + 1 + draw(SMALL)}
  if draw(st.booleans()):
    kw['end_value'] = draw(VALUE)
  return kw


@st.composite
def composite(draw, depth=0):
  k = draw(st.sampled_from(
      ['join', 'join', 'interp', 'interp', 'onecycle', 'onecycle', 'warmcos',
       'warmexp', 'sgdr']))
  if k == 'join':
    n = draw(st.integers(1, 5))
    one = st.one_of(
        st.builds(lambda a, b: {'k': 'affine', 'v': [a, b]},
                  st.integers(-50, 50), st.integers(-3, 3)),
        st.just({'k': 'nanneg'}), elementary())
    members = [draw(composite(1) if depth == 0 and draw(
        st.integers(0, 6)) == 0 else one) for _ in range(n)]
    gap = st.one_of(st.integers(0, 6), st.integers(0, 6), st.just(0),
                    st.integers(0, 10**5))
    bounds, b = [], 0
    for _ in range(n - 1):
      b += draw(gap)
      bounds.append(b)
    return {'k': k, 'members': members, 'bounds': bounds}
  if k == 'interp':
    return {'k': k, 'kind': draw(st.sampled_from(['linear', 'cosine'])),
            'init': draw(VALUE), 'bs': draw(boundaries())}
  if k == 'onecycle':
    kind = draw(st.sampled_from(['linear', 'cosine']))
    kw = {'transition_steps': draw(st.one_of(st.integers(1, 12), STEPS)),
          'peak_value': draw(gens.logf(1e-4, 10))}
    pct = st.one_of(gens.nice(0, 1), st.sampled_from([0.0, 0.3, 0.5, 1.0]))
    if draw(st.booleans()):
      kw['pct_start'] = draw(pct)
      if kind == 'linear':
        kw['pct_final'] = draw(pct)
        if kw['pct_final'] < kw['pct_start']:
          kw['pct_start'], kw['pct_final'] = kw['pct_final'], kw['pct_start']
    if draw(st.booleans()):
      kw['div_factor'] = draw(gens.logf(1, 100))
      kw['final_div_factor'] = draw(gens.logf(1, 1e5))
    return {'k': k, 'kind': kind, 'kw': kw}
  if k == 'warmcos':
    return {'k': k, 'kw': draw(warmcos_kw())}
  if k == 'warmexp':
    kw = {'init_value': draw(VALUE), 'peak_value': draw(VALUE),
          'warmup_steps': draw(SMALL), 'transition_steps': draw(STEPS),
          'decay_rate': draw(RATE)}
    if kw['peak_value'] == 0 and kw['decay_rate'] > 1:
      kw['peak_value'] = 1.0
    if draw(st.booleans()):
      kw.update(transition_begin=draw(st.integers(0, 9)),
                staircase=draw(st.booleans()),
                end_value=draw(st.one_of(st.none(), VALUE)))
    return {'k': k, 'kw': kw}
  n = draw(st.integers(1, 5))
  return {'k': k, 'cycles': [draw(warmcos_kw()) for _ in range(n)],
          'form': draw(st.sampled_from(['list', 'tuple', 'iter']))}


def points(spec):
  """Steps at which something changes."""
  k = spec['k']
  if k in ('poly', 'linear'):
    a = spec['a'][3:] if k == 'poly' else spec['a'][2:]
    b = a[1] if len(a) > 1 else 0
    b = max(b, 0)
    return [b, b + a[0], b + a[0] // 2]
  if k == 'expo':
    b = max(spec['a'][3] if len(spec['a']) > 3 else 0, 0)
    n = spec['a'][1]
    return [b, b + n, b + 2 * n, b + 7 * n, b + n // 2]
  if k == 'cosine':
    return [spec['a'][1], spec['a'][1] // 2]
  if k in ('pconst', 'interp'):
    return [b for b, _ in spec['bs'] or []]
  if k == 'onecycle':
    return [b for b, _ in _onecycle(spec['kind'], spec['kw'])[1]]
  if k == 'join':
    out, last = list(spec['bounds']), 0
    for m, b in zip(spec['members'], [0] + spec['bounds']):
      out += [b + p for p in points(m)]
    return out
  if k == 'warmcos':
    return [spec['kw']['warmup_steps'], spec['kw']['decay_steps']]
  if k == 'warmexp':
    w, n = spec['kw']['warmup_steps'], spec['kw']['transition_steps']
    b = w + spec['kw'].get('transition_begin', 0)
    return [w, b, b + n, b + 3 * n]
  if k == 'sgdr':
    out, start = [], 0
    for c in spec['cycles']:
      out += [start + c['warmup_steps'], start + c['decay_steps']]
      start += c['decay_steps']
    return out
  return [5]


@st.composite
def case(draw, schedules):
  spec = draw(schedules)
  pts = points(spec)
  count = st.one_of(
      st.integers(0, 20),
      st.tuples(st.sampled_from(pts or [3]), st.integers(-3, 3)).map(sum),
      st.tuples(st.sampled_from(pts or [3]), st.integers(-3, 3)).map(sum),
      st.integers(0, 10**4), st.integers(0, MAX), st.just(MAX))
  counts = draw(st.lists(count, min_size=4, max_size=12))
  return {'spec': spec, 'counts': [min(max(c, 0), MAX) for c in counts],
          'as': draw(st.sampled_from(['int', 'np', 'jnp', 'jnp', 'vmap',
                                      'dense'])),
          'x64': draw(st.booleans())}
