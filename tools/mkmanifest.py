#!/usr/bin/env python3
"""writes MANIFEST.json from props.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + '/tools/props.json'))
allp = [json.loads(l)['id'] for l in open(V + '/properties.jsonl') if l.strip()]
checks = []
for p, d in sorted(c['properties'].items()):
    checks.append({
        'property': p,
        'quick_cmd': 'python3 tools/check.py %s' % p,
        'thorough_cmd': 'python3 tools/check.py %s thorough' % p,
        'technique': 'contract-based deductive verification (Verus) of the extracted crate sources',
        'level': 'proof',
        'level_note': d.get('note') or 'All obligations discharged by Verus/Z3 for all inputs. Trusted: contracts assumed for std (BufReader, UTF-8, HashMap), the mechanical extraction, 64 bit usize.',
        'theorems': d['theorems'],
    })
na = [{'property': p, 'reason': c.get('not_applicable', {}).get(p, 'check not finished yet')} for p in allp if p not in c['properties']]
json.dump({'version': 1, 'setup_cmd': c.get('setup', 'true'), 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
