"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'

NOTES = {}
with open(os.path.join(HERE, 'tools', 'level_notes.json')) as f:
  NOTES = json.load(f)

checks, missing = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
  p = json.loads(line)
  if not os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py')):
    missing.append({'property': p['id'], 'reason': 'check not built yet'})
    continue
  technique, note = NOTES[p['id']]
  checks.append({
      'property': p['id'],
      'quick_cmd': f'{PY} run.py check {p["id"]}',
      'thorough_cmd': f'VERIF_TIER=thorough {PY} run.py check {p["id"]}',
      'evidence_file': f'evidence/{p["id"]}.json',
      'technique': technique,
      'level': 'exploration',
      'level_note': note,
  })
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
  json.dump({
      'version': 1,
      'setup_cmd': f'{PY} run.py selftest',
      'checks': checks,
      'not_applicable': missing,
      'notes': 'Property-based testing with Hypothesis (unpacked in '
               'third_party/) in optax\'s own environment; no hooks in /repo. '
               'Checks import optax from /repo\'s working tree. Replay a '
               'saved case with: run.py replay FILE.',
  }, f, indent=1)
  f.write('\n')
