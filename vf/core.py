"""Cases, violations and legs."""
import collections
import hashlib
import json


class Violation(Exception):
  """The property under check does not hold for this case."""


class Leg:
  """One generator together with the oracle it drives.

  Attributes:
    name: identifies the leg in replays and evidence.
    strategy: `strategy(ctx)` returns a Hypothesis strategy of JSON-able cases.
    run: `run(case, ctx)` raises `Violation` if the property fails.
    quick, thorough: total number of cases over all shards.
    x64: whether the cases run with 64-bit types enabled (None: the case says,
      in `case['x64']`).
    explicit: cases that are always run first (by shard 0).
  """

  def __init__(self, name, strategy, run, quick, thorough=None, x64=True,
               explicit=()):
    self.name = name
    self.strategy = strategy
    self.run = run
    self.quick = quick
    self.thorough = thorough or quick * 25
    self.x64 = x64
    self.explicit = explicit


class Ctx:
  """Collects what the cases of one worker covered."""

  def __init__(self, shard=0, tier='quick'):
    self.shard = shard
    self.tier = tier
    self.labels = collections.Counter()
    self.evaluations = 0
    self.distinct = set()
    self.samples = []
    self.known = {}
    self.legs = {}
    self.known_findings = {}
    self._nontrivial = False

  def label(self, *names):
    for name in names:
      self.labels[str(name)] += 1

  def nontrivial(self, flag=True):
    self._nontrivial = self._nontrivial or bool(flag)

  def known_finding(self, key):
    """Whether `key` is a listed finding; notes that it was seen."""
    if key in self.known_findings:
      self.known[key] = self.known_findings[key]
      return True
    return False

  def begin(self):
    self._nontrivial = False

  def end(self, leg, case):
    self.evaluations += 1
    entry = self.legs.setdefault(leg, {'evaluations': 0, 'nontrivial': 0})
    entry['evaluations'] += 1
    if self._nontrivial:
      text = json.dumps([leg, case], sort_keys=True)
      digest = hashlib.sha256(text.encode()).hexdigest()[:16]
      if digest not in self.distinct:
        self.distinct.add(digest)
        entry['nontrivial'] += 1
        if len(text) < 3000 and sum(
            s['leg'] == leg for s in self.samples) < 2:
          self.samples.append({'leg': leg, 'case': case})


def load_known(path, prop):
  """Reads the known findings of one property (see KNOWN_FINDINGS.jsonl)."""
  found = {}
  with open(path) as f:
    for line in f:
      line = line.strip()
      if not line or line.startswith('#') or line.startswith('fixed:'):
        continue
      entry = json.loads(line)
      if entry['property'] == prop:
        found[entry['key']] = entry['what']
  return found
