"""Writes /verif/MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from registry import CHECKS, NOTES
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in props:
    if p in CHECKS:
        m['checks'].append({
            'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
            'technique': 'TLA+ specification checked with TLC; traces of the real code validated against it',
            'level': 'model_checking',
            'level_note': NOTES.get(p, 'The model is checked exhaustively on small configurations; the code is bound to it by trace validation of '
                          'enumerated and random scenarios. Trusted: TLC, the recording harness, the Python/OR-tools stack.')})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'check under construction'})
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
print(len(m['checks']), 'checks')
