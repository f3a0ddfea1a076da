#!/opt/venv/bin/python
"""Reach of the generators: gated faults (no check uses this).

  gates.py OUT [SUBSTRING,...]

Wraps a function of optax so that its result is wrong, but only under a rare
condition (a rank, a dtype, a count, a container, ...), and runs the check of
its property: first one shard, then, if that stays quiet, the whole check. What
survives is a condition the generators do not reach (or cannot reach).
"""
import concurrent.futures
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')

COMMON = '''

import jax as _jax, jax.numpy as _jnp, numpy as _np
_T = _jax.core.Tracer
_leaves = _jax.tree_util.tree_leaves
_map = _jax.tree_util.tree_map
def _counts(s):
  return [x for x in _leaves(s) if hasattr(x, 'dtype') and
          x.dtype in (_jnp.int32, _jnp.int64) and _np.ndim(x) == 0]
def _bad(x):
  return (x * 2).astype(x.dtype) if hasattr(x, 'astype') else x * 2
'''
TX = COMMON + '''
_orig = {fn}
def {fn}(*a, **k):
  tx = _orig(*a, **k)
  def update(g, s, p=None):
    u, s2 = tx.update(g, s, p)
    try:
      u = _gate(g, s, p, u)
    except (TypeError, AttributeError, ValueError, IndexError):
      pass
    return u, s2
  return base.GradientTransformation(tx.init, update)
'''
leaf = lambda c: f'''
def _gate(g, s, p, u):
  return _map(lambda x, y: _bad(y) if ({c}) else y, g, u)
'''
elem = lambda c: f'''
def _gate(g, s, p, u):
  return _map(lambda x, y: _jnp.where({c}, y * 2 + {{one}}, y).astype(y.dtype), g, u)
'''
tree = lambda c: f'''
def _gate(g, s, p, u):
  return _map(_bad, u) if ({c}) else u
'''
count = lambda c: f'''
def _gate(g, s, p, u):
  n = _counts(s)[0]
  return _map(lambda y: _jnp.where({c}, _bad(y), y), u)
'''
GATES = {
    'scalar': leaf('x.ndim == 0'), 'rank1size1': leaf('x.shape == (1,)'),
    'rank3': leaf('x.ndim == 3'), 'rank4': leaf('x.ndim == 4'),
    'rank5': leaf('x.ndim == 5'), 'rowvec': leaf('x.ndim == 2 and x.shape[0] == 1'),
    'square': leaf('x.ndim == 2 and x.shape[0] == x.shape[1]'),
    'bf16': leaf('y.dtype == _jnp.bfloat16'),
    'f16': leaf('y.dtype == _jnp.float16'), 'f32': leaf('y.dtype == _jnp.float32'),
    'big': leaf('x.size > 64'), 'huge': leaf('x.size > 1000'),
    'numpy': leaf('isinstance(x, _np.ndarray)'),
    'tracer': leaf('isinstance(y, _T)'), 'eager': leaf('not isinstance(y, _T)'),
    'zero': elem('x == 0'), 'small': elem('(x != 0) & (abs(x) < 1e-3)'),
    'large': elem('abs(x) > 100'), 'negative': elem('x < 0'),
    'leaves3': tree('len(_leaves(g)) == 3'), 'leaves4': tree('len(_leaves(g)) > 3'),
    'leaves9': tree('len(_leaves(g)) > 8'), 'single': tree('len(_leaves(g)) == 1'),
    'dict': tree('type(g) is dict'), 'namedtuple': tree('hasattr(g, "_fields")'),
    'odict': tree('type(g).__name__ == "OrderedDict"'),
    'custom': tree('type(g).__name__ == "Box"'), 'bare': tree('hasattr(g, "dtype")'),
    'nopar': tree('p is None'), 'par': tree('p is not None'),
    'x32': tree('not _jax.config.x64_enabled'),
    'mixed': tree('len({x.dtype for x in _leaves(g)}) > 1'),
    'count3': count('n == 3'), 'count10': count('n == 10'),
    'count50': count('n >= 50'),
    'count300': count('n >= 300'), 'count70000': count('n >= 70000'),
}
FUNCS = [
    ('transform', 'trace', 'C01'), ('transform', 'ema', 'C01'),
    ('transform', 'scale_by_adam', 'C02'), ('transform', 'scale_by_belief', 'C03'),
    ('transform', 'scale_by_radam', 'C03'), ('transform', 'scale_by_rms', 'C04'),
    ('transform', 'scale_by_stddev', 'C04'), ('transform', 'scale_by_rss', 'C04'),
    ('transform', 'scale_by_sm3', 'C04'), ('transform', 'scale_by_trust_ratio', 'C05'),
    ('transform', 'scale_by_schedule', 'C06'), ('transform', 'scale', 'C35'),
    ('transform', 'centralize', 'C35'), ('transform', 'add_decayed_weights', 'C35'),
    ('transform', 'apply_every', 'C21'), ('transform', 'add_noise', 'C25'),
    ('clipping', 'clip', 'C16'), ('clipping', 'clip_by_global_norm', 'C16'),
    ('clipping', 'adaptive_grad_clip', 'C17'), ('constrain', 'zero_nans', 'C18'),
    ('constrain', 'keep_params_nonnegative', 'C18'),
    ('wrappers', 'apply_if_finite', 'C19'), ('wrappers', 'flatten', 'C15'),
    ('wrappers', 'masked', 'C22'), ('wrappers', 'maybe_update', 'C21'),
    ('privacy', 'differentially_private_aggregate', 'C24'),
    ('combine', 'chain', 'C10'),
]
FN = COMMON + """
def _value(v):
  return v if isinstance(v, (int, float)) else float(v)
_orig = {fn}
def {fn}(*a, **k):
  out = _orig(*a, **k)
  try:
    if ({c}):
      out = _map(_bad, out)
  except (TypeError, AttributeError, ValueError, IndexError, KeyError,
          _jax.errors.ConcretizationTypeError):
    pass
  return out
"""
# A schedule: the gate is on the count (s) or on the arguments.
SCHED = COMMON + """
_orig = {fn}
def {fn}(*a, **k):
  f = _orig(*a, **k)
  def g(s):
    out = f(s)
    try:
      bad = ({c})
    except (TypeError, AttributeError, ValueError, IndexError):
      bad = False
    return _jnp.where(bad, out * 2 + 0.5, out)
  return g
"""
SCHEDULE_GATES = {
    'zero': 's == 0', 'one': 's == 1', 'n7': 's == 7', 'n1000': 's > 1000',
    'n2^20': 's > 2**20', 'n2^24': 's > 2**24', 'n2^30': 's > 2**30',
    'max': 's == 2**31 - 1', 'int': 'isinstance(s, int)',
    'numpy': 'isinstance(s, (_np.ndarray, _np.generic))',
    'array': 'isinstance(s, _jax.Array) and not isinstance(s, _T)',
    'tracer': 'isinstance(s, _T)', 'vector': '_np.ndim(s) > 0',
    'x32': 'not _jax.config.x64_enabled', 'x64': '_jax.config.x64_enabled',
    'int64': 's.dtype == _jnp.int64', 'kw': 'bool(k)', 'pos': 'not k',
    'intval': 'isinstance(a[0], int)', 'negval': 'a[0] < 0',
    'zeroval': 'a[0] == 0',
}
ARRAY_GATES = {
    'scalar': 'a[0].ndim == 0', 'vector': 'a[0].ndim == 1',
    'matrix': 'a[0].ndim == 2', 'rank3': 'a[0].ndim == 3',
    'rank4': 'a[0].ndim == 4', 'size1': 'a[0].size == 1',
    'size100': 'a[0].size > 100', 'size2000': 'a[0].size > 2000',
    'last1': 'a[0].shape[-1] == 1', 'last20': 'a[0].shape[-1] > 20',
    'last500': 'a[0].shape[-1] > 500', 'lead1': 'a[0].shape[0] == 1',
    'f64': 'a[0].dtype == _jnp.float64', 'f32': 'a[0].dtype == _jnp.float32',
    'bf16': 'a[0].dtype == _jnp.bfloat16', 'f16': 'a[0].dtype == _jnp.float16',
    'numpy': 'isinstance(a[0], _np.ndarray)', 'numpy1':
        'isinstance(a[1], _np.ndarray)', 'tracer': 'isinstance(a[0], _T)',
    'eager': 'not isinstance(a[0], _T)', 'x32': 'not _jax.config.x64_enabled',
    'one': 'len(a) == 1 or a[1] is None', 'bcast': 'a[0].shape != a[1].shape',
    'bcast-up': 'a[0].ndim < a[1].ndim', 'bcast-down': 'a[0].ndim > a[1].ndim',
    'types': 'a[0].dtype != a[1].dtype', 'kw': 'bool(k)', 'nokw': 'not k',
    'int1': '_jnp.issubdtype(a[1].dtype, _jnp.integer)',
    'vmapped': '"BatchTracer" in type(a[0]).__name__',
    'jvp': '"JVPTracer" in type(a[0]).__name__',
    'jit': '"DynamicJaxprTracer" in type(a[0]).__name__',
    'zeros': '(a[0] == 0).all()', 'anyzero': '(a[0] == 0).any()',
    'tiny': 'abs(a[0]).max() < 1e-6', 'big': 'abs(a[0]).max() > 1e6',
    'negative': '(a[0] < 0).all()', 'positive': '(a[0] > 0).all()',
}
TREE_GATES = {
    'scalar': 'any(_np.ndim(x) == 0 for x in _leaves(a[0]))',
    'rank4': 'any(x.ndim == 4 for x in _leaves(a[0]))',
    'size1': 'any(x.size == 1 for x in _leaves(a[0]))',
    'size0': 'any(x.size == 0 for x in _leaves(a[0]))',
    'size100': 'any(x.size > 100 for x in _leaves(a[0]))',
    'size2000': 'any(x.size > 2000 for x in _leaves(a[0]))',
    'leaves1': 'len(_leaves(a[0])) == 1', 'leaves4': 'len(_leaves(a[0])) > 3',
    'leaves9': 'len(_leaves(a[0])) > 8', 'dict': 'type(a[0]) is dict',
    'namedtuple': 'hasattr(a[0], "_fields")', 'bare': 'hasattr(a[0], "dtype")',
    'custom': 'type(a[0]).__name__ == "Box"',
    'numpy': 'any(isinstance(x, _np.ndarray) for x in _leaves(a[0]))',
    'python': 'any(isinstance(x, float) for x in _leaves(a[0]))',
    'tracer': 'any(isinstance(x, _T) for x in _leaves(a[0]))',
    'int': 'any(_jnp.issubdtype(x.dtype, _jnp.integer) for x in _leaves(a[0]))',
    'bool': 'any(x.dtype == bool for x in _leaves(a[0]))',
    'complex': 'any(x.dtype == complex for x in _leaves(a[0]))',
    'f32': 'any(x.dtype == _jnp.float32 for x in _leaves(a[0]))',
    'f16': 'any(x.dtype == _jnp.float16 for x in _leaves(a[0]))',
    'bf16': 'any(x.dtype == _jnp.bfloat16 for x in _leaves(a[0]))',
    'types': 'any(x.dtype != y.dtype for x, y in zip(_leaves(a[0]), _leaves(a[1])))',
    'x32': 'not _jax.config.x64_enabled', 'kw': 'bool(k)',
    'third0': 'float(a[2]) == 0', 'third1': 'float(a[2]) == 1',
    'thirdbig': 'float(a[2]) > 1e6', 'thirdneg': 'float(a[2]) < 0',
    'third64': 'a[2].dtype == _jnp.int64', 'thirdint': 'isinstance(a[2], int)',
    'fourth1': 'int(a[3]) == 1', 'fourthbig': 'int(a[3]) > 1000',
}
MATRIX_GATES = dict({k: ARRAY_GATES[k] for k in (
    'size1', 'size100', 'f64', 'f32', 'bf16', 'numpy', 'tracer', 'eager', 'x32',
    'zeros', 'anyzero', 'tiny', 'big', 'kw', 'nokw', 'vmapped', 'jit')}, **{
    'n2': 'a[0].shape[0] == 2', 'n9': 'a[0].shape[0] > 8',
    'n30': 'a[0].shape[0] > 30', 'p1': 'a[1] == 1', 'p2': 'a[1] == 2',
    'p3': 'a[1] == 3', 'p8': 'a[1] == 8', 'p9': 'a[1] > 8',
    'diag': '((a[0] - _jnp.diag(_jnp.diag(a[0]))) == 0).all()',
    'identity': '(a[0] == _jnp.eye(len(a[0]))).all()',
    'negoff': '(a[0] < 0).any()',
    'singular': '_np.linalg.matrix_rank(a[0]) < len(a[0])',
    'rank1': '_np.linalg.matrix_rank(a[0]) == 1',
    'cond1e6': '_np.linalg.cond(a[0]) > 1e6',
})
# Arguments (loss, [v,] params, inputs, targets).
HESS = {
    'numpy': 'any(isinstance(x, _np.ndarray) for x in _leaves(p))',
    'leaves1': 'len(_leaves(p)) == 1', 'leaves3': 'len(_leaves(p)) > 2',
    'bare': 'hasattr(p, "dtype")', 'scalar': 'any(x.ndim == 0 for x in _leaves(p))',
    'rank3': 'any(x.ndim == 3 for x in _leaves(p))',
    'size1': 'sum(x.size for x in _leaves(p)) == 1',
    'size20': 'sum(x.size for x in _leaves(p)) > 20',
    'size200': 'sum(x.size for x in _leaves(p)) > 200',
    'dict': 'type(p) is dict', 'namedtuple': 'hasattr(p, "_fields")',
    'x32': 'not _jax.config.x64_enabled',
    'f32': 'any(x.dtype == _jnp.float32 for x in _leaves(p))',
    'bf16': 'any(x.dtype == _jnp.bfloat16 for x in _leaves(p))',
    'mixed': 'len({x.dtype for x in _leaves(p)}) > 1',
    'jit': 'any(isinstance(x, _T) for x in _leaves(p))',
    'batch1': 'a[-2].shape[0] == 1', 'batch5': 'a[-2].shape[0] > 4',
    'batch40': 'a[-2].shape[0] > 40', 'inputs-tree': 'not hasattr(a[-2], "shape")',
    'targets-none': 'a[-1] is None', 'intargets':
        '_jnp.issubdtype(a[-1].dtype, _jnp.integer)',
    'negative': 'any((x < 0).any() for x in _leaves(p))',
    'zeros': 'all((x == 0).all() for x in _leaves(p))',
}
# (function, params, dist_builder, rng, num_samples, ...)
ESTIMATE = {
    'n1': 'n == 1', 'n2': 'n == 2', 'n20': 'n > 20', 'n1000': 'n > 1000',
    'dim1': 'p[0].size == 1', 'dim4': 'p[0].size > 3', 'dim20': 'p[0].size > 20',
    'kw': 'bool(k)', 'jit': 'isinstance(p[0], _T)',
    'vmapped': '"BatchTracer" in type(p[0]).__name__',
    'x32': 'not _jax.config.x64_enabled', 'f32': 'p[0].dtype == _jnp.float32',
    'tuple': 'type(p) is tuple', 'list': 'type(p) is list',
    'params3': 'len(p) == 3', 'params1': 'len(p) == 1',
    'uncoupled': 'k.get("coupling", True) is False', 'coupled':
        'k.get("coupling") is True', 'key64': '_np.ndim(p[0]) == 0',
}
FNS = {}
for _mod, _prop, _names, _gates in [
    ('loss', 'C27', ['l2_loss', 'huber_loss', 'cosine_similarity',
                     'cosine_distance'], ARRAY_GATES),
    ('loss', 'C28', ['smooth_labels', 'sigmoid_binary_cross_entropy',
                     'softmax_cross_entropy'], ARRAY_GATES),
    ('update', 'C26', ['apply_updates', 'incremental_update',
                       'periodic_update'], TREE_GATES),
    ('linear_algebra', 'C16', ['global_norm'], TREE_GATES),
    ('numerics', 'C36', ['safe_norm'], ARRAY_GATES),
    ('linear_algebra', 'C32', ['power_iteration', 'matrix_inverse_pth_root'],
     MATRIX_GATES),
]:
  for _f in _names:
    FNS[_f] = (_mod, _prop, FN, _gates)
for _f in ('hvp', 'hessian_diag', 'fisher_diag'):
  _i = 2 if _f == 'hvp' else 1
  FNS[_f] = ('second_order', 'C29', FN, {
      k: f'(lambda p: {c})(a[{_i}])' for k, c in HESS.items()})
for _f in ('score_function_jacobians', 'pathwise_jacobians',
           'measure_valued_jacobians'):
  FNS[_f] = ('stochastic_gradient_estimators', 'C30', FN, {
      k: f'(lambda p, n: {c})(a[1], a[4])' for k, c in ESTIMATE.items()})
for _prop, _names in [
    ('C07', ['constant_schedule', 'polynomial_schedule', 'exponential_decay',
             'cosine_decay_schedule', 'piecewise_constant_schedule']),
    ('C08', ['piecewise_interpolate_schedule', 'linear_onecycle_schedule',
             'cosine_onecycle_schedule', 'join_schedules',
             'warmup_cosine_decay_schedule',
             'warmup_exponential_decay_schedule', 'sgdr_schedule'])]:
  for _f in _names:
    FNS[_f] = ('schedule', _prop, SCHED, SCHEDULE_GATES)
RUN = '''
import sys
sys.path.insert(0, %r)
from vf import worker
worker.SHRINK_S = 0
sys.exit(worker.main(sys.argv[1:]))
'''


def tasks():
  for mod, fn, prop in FUNCS:
    for name, gate in GATES.items():
      if name.startswith('count') and fn in (
          'trace', 'scale_by_rms', 'scale_by_stddev', 'scale_by_rss',
          'scale_by_sm3', 'scale_by_trust_ratio', 'scale', 'centralize',
          'add_decayed_weights', 'clip', 'clip_by_global_norm',
          'adaptive_grad_clip', 'zero_nans', 'keep_params_nonnegative',
          'flatten', 'masked', 'chain', 'differentially_private_aggregate'):
        continue
      one = '0' if fn in ('zero_nans',) else '0.5'
      yield mod, fn, prop, name, (TX.format(fn=fn) + gate.replace('{one}', one))


  for fn, (mod, prop, template, gates) in FNS.items():
    for name, gate in gates.items():
      yield mod, fn, prop, name, template.format(fn=fn, c=gate)


def run_one(task):
  mod, fn, prop, name, code = task
  spec = importlib.util.spec_from_file_location('vfrun', VERIF + '/run.py')
  run = importlib.util.module_from_spec(spec)
  sys.path.insert(0, VERIF)
  spec.loader.exec_module(run)
  wt = tempfile.mkdtemp(prefix='gate-')
  try:
    shutil.copytree(REPO + '/optax', wt + '/optax', ignore=shutil.
                    ignore_patterns('__pycache__', '*_test.py'))
    with open(f'{wt}/optax/_src/{mod}.py', 'a') as f:
      f.write(code)
    env = dict(run._env(), VF_REPO=wt)  # pylint: disable=protected-access
    os.mkdir(wt + '/cwd')
    for shard in [2] + [0, 1, 3, 4, 5, 6, 7]:
      out = wt + '/out.json'
      try:
        r = subprocess.run(
            ['/opt/venv/bin/python', '-c', RUN % VERIF, prop, str(shard), '8',
             '1', 'quick', out], env=env, cwd=wt + '/cwd', text=True,
            timeout=900, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
      except subprocess.TimeoutExpired:
        return dict(fn=fn, gate=name, prop=prop, status='timeout')
      if r.returncode == 1 and os.path.exists(out):
        return dict(fn=fn, gate=name, prop=prop, status='caught', shard=shard,
                    leg=json.load(open(out))['violation']['leg'])
      if r.returncode:
        return dict(fn=fn, gate=name, prop=prop, status='error',
                    out=r.stdout[-500:])
    return dict(fn=fn, gate=name, prop=prop, status='SURVIVED')
  finally:
    shutil.rmtree(wt, ignore_errors=True)


def main():
  out = sys.argv[1]
  sub = sys.argv[2] if len(sys.argv) > 2 else ''
  done = set()
  if os.path.exists(out):
    done = {(r['fn'], r['gate']) for r in map(json.loads, open(out))}
  todo = [t for t in tasks() if any(x in f'{t[1]}/{t[3]}'
                                        for x in sub.split(','))
          and (t[1], t[3]) not in done]
  with concurrent.futures.ThreadPoolExecutor(
      int(os.environ.get('JOBS', '7'))) as ex, open(out, 'a') as f:
    for r in concurrent.futures.as_completed(
        [ex.submit(run_one, t) for t in todo]):
      r = r.result()
      f.write(json.dumps(r) + '\n')
      f.flush()


main()
