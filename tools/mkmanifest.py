"""Writes /verif/MANIFEST.json from the registry."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'bin'))
import registry  # noqa

ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for i in ids:
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        checks.append({
            'property': i, 'quick_cmd': 'bin/check ' + i, 'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + i,
            'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
manifest = {
    'version': 1, 'setup_cmd': 'true', 'checks': checks,
    'not_applicable': [{'property': i, 'reason': 'no check yet: the specification module for it is still being written'}
                       for i in ids if i not in registry.CHECKS]}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
