#!/opt/venv/bin/python
"""Mutation testing of the checks (no check uses this).

  mutate.py list                       all mutants of optax/_src
  mutate.py run OUT [N [SEED]]         runs N (all) of them, appends to OUT

A mutant is one small syntactic change in one function. Each is run against one
shard (an eighth) of the checks of the properties its function belongs to until
one reports a violation. The survivors have to be looked at by hand: they are
equivalent, outside every property, or show a gap.
"""
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
FILES = ['alias', 'base', 'clipping', 'combine', 'constrain',
         'control_variates', 'linear_algebra', 'lookahead', 'loss', 'numerics',
         'privacy', 'schedule', 'second_order',
         'stochastic_gradient_estimators', 'transform', 'update', 'utils',
         'wrappers']
OF_FILE = {'base': 'C35 C10', 'clipping': 'C16', 'combine': 'C10 C34',
           'constrain': 'C18 C34', 'control_variates': 'C31 C34',
           'linear_algebra': 'C32', 'lookahead': 'C23 C34 C12',
           'loss': 'C27 C34', 'numerics': 'C33 C36 C05 C27', 'privacy': 'C24 C34',
           'schedule': 'C08 C07 C34', 'second_order': 'C29',
           'stochastic_gradient_estimators': 'C30 C31 C34',
           'transform': 'C01 C02 C03 C04', 'update': 'C26',
           'utils': 'C30 C31', 'wrappers': 'C34', 'alias': 'C02 C06'}
OF_FUNCTION = {
    '_scale_by_learning_rate': 'C06 C01', 'adabelief': 'C03', 'adagrad': 'C04',
    'adam': 'C02', 'adamw': 'C02 C34', 'fromage': 'C05', 'lamb': 'C05 C34',
    'noisy_sgd': 'C25', 'radam': 'C03', 'rmsprop': 'C04', 'sgd': 'C01',
    'sm3': 'C04', 'yogi': 'C03', 'dpsgd': 'C24', 'adaptive_grad_clip': 'C17 C34',
    'unitwise_norm': 'C17', 'unitwise_clip': 'C17',
    'global_norm': 'C16', 'smooth_labels': 'C28 C34',
    'sigmoid_binary_cross_entropy': 'C28', 'softmax_cross_entropy': 'C28 C34',
    'inject_hyperparams': 'C09 C34', 'InjectHyperparamsState': 'C09',
    '_convert_floats': 'C09 C11', 'trace': 'C01 C11 C33', 'ema': 'C01 C11 C33',
    '_update_moment': 'C02', '_bias_correction': 'C02 C33 C11',
    'scale_by_rss': 'C04 C36 C11', 'scale_by_rms': 'C04 C36 C11',
    'scale_by_stddev': 'C04 C36 C11', 'scale_by_adam': 'C02 C36 C33 C11',
    'scale': 'C35 C06', 'scale_by_belief': 'C03 C36 C33 C11',
    'scale_by_yogi': 'C03 C36 C33 C11', 'scale_by_radam': 'C03 C33 C36 C11',
    'add_decayed_weights': 'C35 C34', 'scale_by_schedule': 'C06 C33 C11',
    'scale_by_trust_ratio': 'C05 C34 C36 C11', 'add_noise': 'C25 C33 C11',
    'apply_every': 'C21 C33', '_subtract_mean': 'C35', 'centralize': 'C35',
    'scale_by_sm3': 'C04 C36 C11', 'flatten': 'C15', 'apply_if_finite': 'C19 C33',
    'MultiSteps': 'C20 C33 C34', 'masked': 'C22 C34', 'maybe_update': 'C21 C33 C34',
    '_zeros_tree_like': 'C19', 'warmup_exponential_decay_schedule': 'C08 C34',
}

CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*',
       ast.Mod: '//', ast.FloorDiv: '%', ast.MatMult: '*'}
ATTR = {'maximum': 'minimum', 'minimum': 'maximum', 'sum': 'mean',
        'mean': 'sum', 'floor': 'ceil', 'ceil': 'floor', 'zeros_like':
        'ones_like', 'ones_like': 'zeros_like', 'all': 'any', 'any': 'all',
        'logical_and': 'logical_or', 'logical_or': 'logical_and',
        'sin': 'cos', 'cos': 'sin', 'exp': 'expm1', 'sqrt': 'square',
        'square': 'abs', 'abs': 'square', 'isfinite': 'isnan',
        'float32': 'float16', 'int32': 'int16', 'zeros': 'ones',
        'max': 'min', 'min': 'max', 'stop_gradient': 'asarray'}


def mutants():
  for f in FILES:
    path = f'optax/_src/{f}.py'
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for l in lines:
      starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()
    span = lambda n: (starts[n.lineno - 1] + n.col_offset,
                      starts[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: raw[slice(*span(n))].decode()
    for top in tree.body:
      if not isinstance(top, (ast.FunctionDef, ast.ClassDef)):
        continue
      skip = set()
      for n in ast.walk(top):  # annotations, docstrings
        for a in ('annotation', 'returns'):
          if getattr(n, a, None) is not None:
            skip.update(id(x) for x in ast.walk(getattr(n, a)))
        if isinstance(n, (ast.Expr, ast.Raise)):
          skip.update(id(x) for x in ast.walk(n) if isinstance(x, ast.Constant))
          if isinstance(n, ast.Raise):
            skip.update(id(x) for x in ast.walk(n))
      for n in ast.walk(top):
        if id(n) in skip:
          continue
        edits = []
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
          edits.append((n, f'({text(n.left)} {CMP[type(n.ops[0])]} '
                           f'{text(n.comparators[0])})'))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
          edits.append((n, f'({text(n.left)} {BIN[type(n.op)]} {text(n.right)})'))
          if isinstance(n.op, (ast.Add, ast.Sub)):
            edits.append((n, f'({text(n.left)})'))
        elif isinstance(n, ast.Constant):
          if n.value is True or n.value is False:
            edits.append((n, str(not n.value)))
          elif isinstance(n.value, int):
            edits.append((n, str(n.value + 1)))
            if n.value:
              edits.append((n, str(n.value - 1)))
          elif isinstance(n.value, float):
            edits.append((n, repr(n.value * 1.5 if n.value else 0.1)))
            if n.value:
              edits.append((n, '0.0'))
        elif isinstance(n, ast.UnaryOp):
          edits.append((n, f'({text(n.operand)})'))
        elif isinstance(n, ast.BoolOp):
          op = ' or ' if isinstance(n.op, ast.And) else ' and '
          edits.append((n, '(' + op.join(text(v) for v in n.values) + ')'))
        elif isinstance(n, ast.IfExp):
          edits += [(n, text(n.body)), (n, text(n.orelse))]
        elif isinstance(n, ast.If):
          edits += [(n.test, 'True'), (n.test, 'False')]
        elif isinstance(n, ast.Attribute) and n.attr in ATTR:
          edits.append((n, f'{text(n.value)}.{ATTR[n.attr]}'))
        elif isinstance(n, ast.Call):
          if isinstance(n.func, ast.Attribute):
            if n.func.attr == 'astype':
              edits.append((n, text(n.func.value)))
            if n.func.attr in ('stop_gradient', 'conj', 'nan_to_num', 'sign',
                               'sqrt', 'abs', 'square', 'real'):
              edits.append((n, '(%s)' % text((n.args or [n.func.value])[0])))
            if n.func.attr == 'where' and len(n.args) == 3:
              edits += [(n, text(n.args[1])), (n, text(n.args[2]))]
          if (len(n.args) == 2 and not any(isinstance(a, ast.Lambda)
                                            for a in n.args)):
            a, b = n.args
            edits.append(((span(a)[0], span(b)[1]), f'{text(b)}, {text(a)}'))
          for i, kw in enumerate(n.keywords):  # drop a keyword argument
            prev = (n.args + [k.value for k in n.keywords[:i]])
            lo = span(prev[-1])[1] if prev else span(kw)[0]
            hi = span(kw.value)[1]
            edits.append(((lo, hi), ''))
        elif isinstance(n, (ast.Assign, ast.Return)) and isinstance(
            n.value, ast.Tuple) and len(n.value.elts) == 2 and isinstance(
                n, ast.Return):
          pass
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
          if n.id in ('new_count', 'count_inc'):
            edits.append((n, 'state.count'))
          elif n.id == 'params':
            edits.append((n, 'updates'))
        for where, new in edits:
          lo, hi = where if isinstance(where, tuple) else span(where)
          old = raw[lo:hi].decode()
          if old != new:
            yield {'file': path, 'fn': top.name, 'lo': lo, 'hi': hi,
                   'line': raw[:lo].count(b'\n') + 1, 'old': old, 'new': new,
                   'base': f}


RUN = '''
import sys
sys.path.insert(0, %r)
from vf import worker
worker.SHRINK_S = 0
sys.exit(worker.main(sys.argv[1:]))
'''


def run_one(m):
  sys.path.insert(0, VERIF)
  import importlib.util  # pylint: disable=import-outside-toplevel
  spec = importlib.util.spec_from_file_location('vfrun', VERIF + '/run.py')
  mod = importlib.util.module_from_spec(spec)
  spec.loader.exec_module(mod)
  wt = tempfile.mkdtemp(prefix='mut-')
  try:
    shutil.copytree(REPO + '/optax', wt + '/optax', ignore=shutil.
                    ignore_patterns('__pycache__', '*_test.py'))
    p = os.path.join(wt, m['file'])
    raw = open(p, 'rb').read()
    raw = raw[:m['lo']] + m['new'].encode() + raw[m['hi']:]
    try:
      ast.parse(raw)
    except SyntaxError:
      return dict(m, status='syntax')
    open(p, 'wb').write(raw)
    env = dict(mod._env(), VF_REPO=wt)  # pylint: disable=protected-access
    props = OF_FUNCTION.get(m['fn'], OF_FILE[m['base']]).split()
    os.mkdir(wt + '/cwd')
    for prop in props:
      shard = str(random.Random(m['lo']).randrange(8))
      out = wt + '/out.json'
      try:
        r = subprocess.run(
            ['/opt/venv/bin/python', '-c', RUN % VERIF, prop, shard, '8', '1',
             'quick', out], env=env, cwd=wt + '/cwd', text=True, timeout=900,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
      except subprocess.TimeoutExpired:
        return dict(m, status='timeout', prop=prop)
      if r.returncode == 1 and os.path.exists(out):
        return dict(m, status='caught', prop=prop,
                    leg=json.load(open(out))['violation']['leg'])
      if r.returncode:
        return dict(m, status='error', prop=prop, out=r.stdout[-600:])
    return dict(m, status='SURVIVED', prop=' '.join(props))
  finally:
    shutil.rmtree(wt, ignore_errors=True)


def main():
  ms = list(mutants())
  if sys.argv[1] == 'list':
    for m in ms:
      print(f"{m['file']}:{m['line']} {m['fn']}: {m['old']!r} -> {m['new']!r}")
    print(len(ms))
    return
  out = sys.argv[2]
  n = int(sys.argv[3]) if len(sys.argv) > 3 else len(ms)
  random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 0).shuffle(ms)
  done = set()
  if os.path.exists(out):
    done = {(r['file'], r['lo'], r['hi'], r['new'])
            for r in map(json.loads, open(out))}
  ms = [m for m in ms[:n] if (m['file'], m['lo'], m['hi'], m['new']) not in done]
  with concurrent.futures.ThreadPoolExecutor(
      int(os.environ.get('JOBS', '7'))) as ex, open(out, 'a') as f:
    for r in ex.map(run_one, ms):
      f.write(json.dumps(r) + '\n')
      f.flush()


main()
