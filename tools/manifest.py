#!/usr/bin/env python3
# Writes MANIFEST.json from the suites registered in harness/suites.mjs.
import json, re, os
os.chdir(os.path.join(os.path.dirname(__file__), '..'))
built = re.findall(r'^\s+(C\d\d):', open('harness/suites.mjs').read(), re.M)
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
NOTE = ('TLC checks the TLA+ specification over the bounded scope given in DESIGN.md; stimuli generated from the same specification are '
        'executed by the code built from /repo and TLC judges every recorded execution against the specification. '
        'Assurance on the code extends to the executions explored; jsdom and the fake hosts are trusted.')
json.dump({
  'version': 1,
  'setup_cmd': 'bash tools/setup.sh',
  'checks': [{
    'property': p,
    'quick_cmd': f'node harness/check.mjs {p}',
    'thorough_cmd': f'VERIF_TIER=thorough node harness/check.mjs {p}',
    'technique': 'TLA+ specification checked with TLC; specification-generated stimuli run on the code, recorded traces validated by TLC',
    'level': 'model_checking',
    'level_note': NOTE,
  } for p in ids if p in built],
  'not_applicable': [{'property': p, 'reason': 'its check is not built yet'} for p in ids if p not in built],
  'notes': 'No hooks in /repo: the checks drive the public API of the code through fake hosts.',
}, open('MANIFEST.json', 'w'), indent=1)
