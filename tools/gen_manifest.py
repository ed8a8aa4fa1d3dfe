#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties listed in CLAIM."""
import json, sys
sys.path.insert(0, '/verif/tools')
NOTES = json.load(open('/verif/tools/claims.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    n = NOTES.get(i)
    if n and n.get('claim'):
        checks.append({
            'property': i,
            'quick_cmd': f'sh /verif/check.sh {i} quick',
            'thorough_cmd': f'sh /verif/check.sh {i} thorough',
            'technique': 'deterministic simulation with fault injection: ' + n['technique'],
            'level': 'exploration',
            'level_note': n['note'],
        })
    else:
        na.append({'property': i, 'reason': (n or {}).get('reason', 'no check built yet')})
hooks = {'guard': 'cfg(kryoptic_sim)', 'enable': 'RUSTC_WRAPPER=/verif/sim/rustc-wrap.sh (set by /verif/build.sh) passes --cfg kryoptic_sim for the kryoptic_lib crate', 'source_commits': ['c8e8188']}
m = {'version': 1, 'setup_cmd': 'sh /verif/build.sh', 'hooks': hooks, 'checks': checks, 'not_applicable': na}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
