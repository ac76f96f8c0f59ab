"""Writes MANIFEST.json from harness/registry.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import registry
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    if p in registry.CHECKS:
        t, note = registry.NOTES[p]
        checks.append({
            'property': p,
            'quick_cmd': 'python3 run.py %s' % p,
            'thorough_cmd': 'VERIF_TIER=thorough python3 run.py %s' % p,
            'technique': t, 'level': registry.CHECKS[p][2], 'level_note': note})
na = [{'property': p, 'reason': registry.NOT_APPLICABLE.get(p, 'check under construction')}
      for p in props if p not in registry.CHECKS]
json.dump({'version': 1, 'setup_cmd': 'sh setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'TLA+ specifications (spec/) checked with TLC and replayed into the code of /repo; see DESIGN.md'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
