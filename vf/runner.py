"""Runs one check: starts the shards, merges what they found and covered.

Uses only the standard library, so that any interpreter can run it.
"""
import collections
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SHARDS = 8
LIMIT_S = {'quick': 780, 'thorough': 6 * 3600}


def check(prop, env):
  start = time.time()
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  tier = os.environ.get('VERIF_TIER', 'quick')
  if tier not in LIMIT_S:
    tier = 'quick'
  tmp = tempfile.mkdtemp(prefix=f'vf-{prop}-')
  procs = []
  try:
    for shard in range(SHARDS):
      out = os.path.join(tmp, f'out{shard}.json')
      log = open(os.path.join(tmp, f'log{shard}'), 'wb')
      cmd = [PY, os.path.join(HERE, 'run.py'), 'worker', prop, str(shard),
             str(SHARDS), str(seed), tier, out]
      # A scratch working directory per shard: nothing of /repo or /verif is
      # written by the code under test.
      cwd = os.path.join(tmp, f'cwd{shard}')
      os.mkdir(cwd)
      procs.append((subprocess.Popen(cmd, env=env, cwd=cwd, stdout=log,
                                     stderr=log), out, log))
    failed = None
    while True:
      running = [p for p, _, _ in procs if p.poll() is None]
      done_bad = [i for i, (p, out, _) in enumerate(procs)
                  if p.poll() is not None and p.returncode == 1
                  and os.path.exists(out)]
      if done_bad:
        failed = done_bad[0]
        break
      if not running:
        break
      if time.time() - start > LIMIT_S[tier]:
        for p in running:
          p.kill()
        print(f'ERROR property={prop}: inconclusive, time limit reached')
        return 2
      time.sleep(0.05)
    for p, _, _ in procs:
      if p.poll() is None:
        p.kill()
      p.wait()
    results = []
    for i, (p, out, _) in enumerate(procs):
      if os.path.exists(out):
        with open(out) as f:
          results.append(json.load(f))
      if failed is None and (p.returncode not in (0, 1)
                             or not os.path.exists(out)):
        with open(os.path.join(tmp, f'log{i}'), errors='replace') as f:
          text = f.read()
        print(f'ERROR property={prop}: shard {i} ended with {p.returncode}')
        print(text[-6000:])
        return 2
    return _report(prop, seed, tier, start, results)
  finally:
    for p, _, log in procs:
      if p.poll() is None:
        p.kill()
        p.wait()
      log.close()
    shutil.rmtree(tmp, ignore_errors=True)


def _report(prop, seed, tier, start, results):
  distinct = set()
  evaluations = 0
  labels = collections.Counter()
  legs = {}
  samples = []
  violation = None
  known = {}
  meta = {}
  for r in results:
    evaluations += r['evaluations']
    distinct.update(r['distinct'])
    labels.update(r['labels'])
    meta = r['meta'] or meta
    for leg, c in r['legs'].items():
      entry = legs.setdefault(leg, {'evaluations': 0, 'nontrivial': 0})
      entry['evaluations'] += c['evaluations']
      entry['nontrivial'] += c['nontrivial']
    for s in r['samples']:
      if len(samples) < 12 and sum(
          s['leg'] == t['leg'] for t in samples) < 2:
        samples.append(s)
    known.update(r['known'])
    if r.get('violation') and violation is None:
      violation = r['violation']
  coverage = {
      'evaluations': evaluations,
      'distinct_nontrivial': len(distinct),
      'rule': meta.get('rule', ''),
      'samples': samples,
      'legs': legs,
      'classification': dict(sorted(labels.items())),
      'shards': SHARDS,
  }
  evidence = {
      'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
      'coverage': coverage,
      'assumptions': meta.get('assumptions', []),
      'wall_s': round(time.time() - start, 2),
      'violations': 1 if violation else 0,
  }
  evdir = os.path.join(HERE, 'evidence')
  os.makedirs(evdir, exist_ok=True)
  for key, what in sorted(known.items()):
    print(f'KNOWN-FINDING: property={prop} {key}: {what}')
  code = 0
  if violation:
    case = json.dumps(violation, sort_keys=True)
    name = (f'{prop}-{violation["leg"]}-'
            f'{hashlib.sha256(case.encode()).hexdigest()[:10]}.json')
    rdir = os.path.join(evdir, 'replays')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, name)
    with open(path, 'w') as f:
      json.dump(violation, f, indent=1, sort_keys=True)
    evidence['coverage']['violation'] = {
        'message': violation['message'], 'replay': path}
    print(violation['message'])
    print(f'replay with: {PY} {HERE}/run.py replay {path}')
    print(f'VIOLATION property={prop} replay={path}')
    code = 1
  with open(os.path.join(evdir, f'{prop}.json'), 'w') as f:
    json.dump(evidence, f, indent=1, sort_keys=True)
  print(f'{prop} {tier} seed={seed}: {evaluations} cases, '
        f'{len(distinct)} distinct non-trivial, '
        f'{round(time.time() - start, 1)} s, exit {code}')
  sys.stdout.flush()
  return code
