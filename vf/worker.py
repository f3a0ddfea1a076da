"""Runs the legs of one check in one process."""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

from vf import boot
from vf import core
import jax
import numpy as np

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from hypothesis.internal.conjecture import engine as conjecture

# Mutating earlier examples repeats parts of them: fresh ones find more.
conjecture.ConjectureRunner.generate_mutations_from = lambda self, data: None

SHRINK_CALLS = 250
SHRINK_S = 25.0


class StopNow(KeyboardInterrupt):
  """Ends a Hypothesis run at once (it only passes on KeyboardInterrupt)."""


def _seed(*parts):
  text = '/'.join(str(p) for p in parts)
  return int(hashlib.sha256(text.encode()).hexdigest()[:8], 16)


def run_case(leg, case, ctx):
  """Runs one case; returns None or the message of the violation."""
  x64 = case['x64'] if leg.x64 is None else leg.x64
  boot.set_x64(x64)
  np.random.seed(0)
  try:
    leg.run(case, ctx)
  except core.Violation as e:
    return str(e)
  except Exception as e:  # pylint: disable=broad-except
    # The code under test may not raise on the inputs we generate, and must
    # return something that can be looked at (the oracles are exercised on the
    # unchanged tree). Other errors are passed on, they end the check.
    frames = traceback.extract_tb(e.__traceback__)
    if any(f.filename.startswith(os.path.join(boot.REPO, 'optax'))
           for f in frames):
      return 'raised %s: %s' % (type(e).__name__, str(e)[:800])
    if isinstance(e, (TypeError, ValueError, AttributeError, LookupError)):
      return 'a result that cannot be compared (%s: %s)' % (
          type(e).__name__, str(e)[:800])
    raise
  return None


def _run_leg(mod, leg, ctx, shard, nshards, seed, tier):
  """Returns a violation record or None."""
  state = {'best': None, 'calls': 0, 't0': None}

  def one(case):
    if state['best'] is None:
      ctx.begin()
    msg = run_case(leg, case, ctx)
    if state['best'] is None:
      ctx.end(leg.name, case)
    if state['best'] is not None:
      state['calls'] += 1
    if msg is not None:
      size = len(json.dumps(case))
      if state['best'] is None:
        state['t0'] = time.time()
      if state['best'] is None or size <= state['best'][0]:
        state['best'] = (size, case, msg)
    if state['best'] is not None and (
        state['calls'] > SHRINK_CALLS
        or time.time() - state['t0'] > SHRINK_S):
      raise StopNow()
    if msg is not None:
      raise core.Violation(msg)

  if shard == 0:
    for case in leg.explicit:
      try:
        one(json.loads(json.dumps(case)))
      except core.Violation:
        break
  if state['best'] is None:
    total = leg.quick if tier == 'quick' else leg.thorough
    n = total // nshards + (1 if shard < total % nshards else 0)
    if n > 0:
      ctx.shard = shard

      @hypothesis.seed(_seed(seed, mod.ID, leg.name, shard))
      @settings(max_examples=n, database=None, deadline=None,
                report_multiple_bugs=False, print_blob=False,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=list(HealthCheck))
      @given(leg.strategy(ctx))
      def test(case):
        one(case)

      try:
        test()
      except (core.Violation, StopNow):
        pass
      except hypothesis.errors.HypothesisException:
        if state['best'] is None:
          raise
  if state['best'] is not None:
    _, case, msg = state['best']
    return {'property': mod.ID, 'leg': leg.name, 'case': case,
            'message': f'[{mod.ID}/{leg.name}] {msg}', 'seed': seed,
            'tier': tier, 'shard': shard}
  return None


def main(args):
  prop, shard, nshards, seed, tier, out = args
  shard, nshards, seed = int(shard), int(nshards), int(seed)
  mod = importlib.import_module(f'checks.{prop.lower()}')
  ctx = core.Ctx(shard, tier)
  ctx.known_findings = core.load_known(
      os.path.join(boot.HERE, 'KNOWN_FINDINGS.jsonl'), prop)
  violation = None
  only = os.environ.get('VF_LEG')
  for leg in mod.LEGS:
    if only and leg.name != only:
      continue
    t0 = time.time()
    violation = _run_leg(mod, leg, ctx, shard, nshards, seed, tier)
    print(leg.name, round(time.time() - t0, 1), 's', flush=True)
    if os.environ.get('VF_TIMES'):
      with open(os.environ['VF_TIMES'], 'a') as f:
        f.write(f'{prop} {leg.name} shard={shard} '
                f'{time.time() - t0:.1f} s {ctx.legs.get(leg.name)}\n')
    if violation:
      break
  result = {
      'evaluations': ctx.evaluations, 'distinct': sorted(ctx.distinct),
      'labels': dict(ctx.labels), 'samples': ctx.samples, 'legs': ctx.legs,
      'known': ctx.known, 'violation': violation,
      'meta': {'rule': mod.RULE, 'assumptions': getattr(
          mod, 'ASSUMPTIONS', [])}}
  with open(out + '.tmp', 'w') as f:
    json.dump(result, f)
  os.rename(out + '.tmp', out)
  return 1 if violation else 0


def replay(path):
  with open(path) as f:
    rec = json.load(f)
  mod = importlib.import_module(f'checks.{rec["property"].lower()}')
  leg, = [l for l in mod.LEGS if l.name == rec['leg']]
  ctx = core.Ctx()
  ctx.shard = rec.get('shard', 0)
  ctx.known_findings = core.load_known(
      os.path.join(boot.HERE, 'KNOWN_FINDINGS.jsonl'), rec['property'])
  msg = run_case(leg, rec['case'], ctx)
  if msg is None:
    print('the case passes')
    return 0
  print(msg)
  print(f'VIOLATION property={rec["property"]} replay={path}')
  return 1


def selftest():
  import optax  # pylint: disable=import-outside-toplevel
  with open(os.path.join(boot.HERE, 'MANIFEST.json')) as f:
    manifest = json.load(f)
  for c in manifest['checks']:
    mod = importlib.import_module(f'checks.{c["property"].lower()}')
    assert mod.ID == c['property'] and mod.LEGS
  print('ok: optax', optax.__version__, 'jax', jax.__version__,
        'hypothesis', hypothesis.__version__, len(manifest['checks']),
        'checks')
  return 0
