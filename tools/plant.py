#!/usr/bin/env python3
"""Makes and verifies the planted bugs of /verif/seeded (no check uses this).

  plant.py make SPECS.py        write seeded/<id>/ for each spec in the file
  plant.py verify [id ...]      demo on both trees, the stable tests, the check

A spec file defines BUGS, a list of dicts: id, property, edits (a list of
(file, old, new), `old` occurring exactly once), needs, what_it_breaks, demo.
All work happens in scratch worktrees of /repo under /tmp.
"""
import json, os, runpy, shutil, subprocess, sys, xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
DEMO_SH = '''#!/bin/bash
# Runs in the root of the optax tree.
export PYTHONPATH=/opt/optax-compat:$PWD JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
PRELUDE = '''"""%s"""
import logging
import sys
logging.disable(logging.CRITICAL)
import numpy as np
import jax
import jax.numpy as jnp
import jax_removed_names
import optax


def check(got, want, rtol=1e-4, atol=1e-6, what=''):
  is_list = lambda x: isinstance(x, list)  # a list is one array
  got = [np.asarray(x, np.float64) for x in jax.tree_util.tree_leaves(got, is_list)]
  want = [np.asarray(x, np.float64) for x in jax.tree_util.tree_leaves(want, is_list)]
  ok = len(got) == len(want) and all(
      g.shape == w.shape and np.allclose(g, w, rtol, atol, equal_nan=True)
      for g, w in zip(got, want))
  if not ok:
    print('FAIL', what, 'got', got, 'want', want)
    sys.exit(1)

'''


def sh(cmd, cwd=None, env=None, timeout=900):
  return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, text=True,
                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def worktree(name):
  path = '/tmp/plant-' + name
  sh(['git', '-C', '/repo', 'worktree', 'remove', '--force', path])
  shutil.rmtree(path, ignore_errors=True)
  r = sh(['git', '-C', '/repo', 'worktree', 'add', '--detach', path, 'HEAD'])
  assert r.returncode == 0, r.stdout
  return path


def drop(path):
  sh(['git', '-C', '/repo', 'worktree', 'remove', '--force', path])
  shutil.rmtree(path, ignore_errors=True)
  sh(['git', '-C', '/repo', 'worktree', 'prune'])


def make(specfile):
  wt = worktree('make')
  for bug in runpy.run_path(specfile)['BUGS']:
    for f, old, new in bug['edits']:
      p = os.path.join(wt, 'optax/_src', f)
      s = open(p).read()
      if s.count(old) != 1:
        print('BAD', bug['id'], f, 'occurrences:', s.count(old)); break
      open(p, 'w').write(s.replace(old, new))
    else:
      d = os.path.join(SEEDED, bug['id'])
      os.makedirs(d, exist_ok=True)
      diff = subprocess.run(['git', '-C', wt, 'diff'], text=True,
                            stdout=subprocess.PIPE).stdout
      open(d + '/patch.diff', 'w').write(diff)
      open(d + '/demo.sh', 'w').write(DEMO_SH)
      os.chmod(d + '/demo.sh', 0o755)
      open(d + '/demo.py', 'w').write(
          PRELUDE % bug['what_it_breaks'].replace('\\', ' ') + bug['demo'].strip() + '\n')
      json.dump({k: bug[k] for k in ('property', 'needs', 'what_it_breaks')},
                open(d + '/meta.json', 'w'), indent=1)
      # Lines of the original repository must change.
      blame = [l for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
      orig = []
      for f, _, _ in bug['edits']:
        o = subprocess.run(['git', '-C', '/repo', 'show', 'b74785a:optax/_src/' + f],
                           text=True, stdout=subprocess.PIPE).stdout.splitlines()
        orig += o
      if blame and not any(l[1:] in orig for l in blame):
        print('NOT-ORIGINAL', bug['id'])
      print('made', bug['id'])
    sh(['git', '-C', wt, 'checkout', '--', '.'])
  drop(wt)


def stable():
  b = json.load(open('/opt/vp/BASELINE.json'))
  for k in ('stable', 'stable_tests', 'passing', 'passed', 'tests'):
    if k in b:
      return set(b[k])
  raise SystemExit('unknown BASELINE format: %s' % list(b)[:9])


def tests_ok(wt):
  env = dict(os.environ, PYTHONPATH='/opt/optax-compat', PYTHONHASHSEED='0',
             JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1')
  r = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'jax_removed_names',
          '-p', 'no:cacheprovider', '-W', 'ignore', '-n', '8', 'optax'], wt, env)
  return [l for l in r.stdout.splitlines() if l.startswith(('FAILED', 'ERROR'))
          and 'zero_nans' not in l], r.stdout.strip().splitlines()[-1]


def verify(ids, tests=True):
  for i in ids or sorted(os.listdir(SEEDED)):
    d = os.path.join(SEEDED, i)
    meta = json.load(open(d + '/meta.json'))
    wt = worktree(i)
    a = sh(['bash', d + '/demo.sh'], wt)
    r = sh(['git', '-C', wt, 'apply', d + '/patch.diff'])
    assert r.returncode == 0, r.stdout
    b = sh(['bash', d + '/demo.sh'], wt)
    out = ['demo %d/%d' % (a.returncode, b.returncode)]
    if a.returncode: out.append('BASE-DEMO-FAILS ' + a.stdout.strip().splitlines()[-1][:300])
    if b.returncode == 0: out.append('DEMO-PASSES-WITH-PATCH')
    elif 'Traceback' in b.stdout: out.append('(raises: %s)' % b.stdout.strip().splitlines()[-1][:150])
    if tests:
      failed, last = tests_ok(wt)
      out.append('tests ok' if not failed else 'TESTS-FAIL %s' % failed[:3])
    if any(o.startswith(('BASE', 'DEMO', 'TESTS')) for o in out):
      print(i, meta['property'], '; '.join(out), flush=True)
      drop(wt)
      continue
    env = dict(os.environ, VF_REPO=wt, VERIF_SEED='1', VERIF_TIER='quick')
    c = sh(['python3', 'run.py', 'check', meta['property']], VERIF, env)
    v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
    out.append('CAUGHT' if c.returncode == 1 and v else 'MISSED rc=%d' % c.returncode)
    print(i, meta['property'], '; '.join(out), flush=True)
    drop(wt)


if sys.argv[1] == 'make':
  for f in sys.argv[2:]: make(f)
else:
  args = sys.argv[2:]
  verify([a for a in args if not a.startswith('-')], '--no-tests' not in args)
