#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties named below (run by hand after adding one)."""
import json, re
done = open('/verif/claimed.txt').read().split()
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
TECH = {
 'default': 'property-based testing: random structured cases against a reference model, with shrinking',
}
over = json.load(open('/verif/techniques.json'))
checks = []
for p in props:
    i = p['id']
    if i in done:
        t = over.get(i, [TECH['default'], 'Sampled inputs only; sizes and counts are in the evidence file.'])
        checks.append({'property': i, 'quick_cmd': f'./check {i} --tier quick', 'thorough_cmd': f'./check {i} --tier thorough',
                       'technique': t[0], 'level': 'exploration', 'level_note': t[1]})
na = json.load(open('/verif/not_applicable.json'))
out = {'version': 1, 'setup_cmd': './check setup', 'checks': checks,
       'not_applicable': [{'property': k, 'reason': v} for k, v in na.items() if k not in done]}
json.dump(out, open('/verif/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
