"""Maintain known_findings.json: kf.py PROP STATUS KEY WHAT (run by hand only)."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
prop, status, key, what = sys.argv[1:5]
if status == 'fixed':  # KEY is the commit
    what = f'fixed: property={prop} {key} {what}'
    key = f'fixed:{key}'
d['findings'] = [e for e in d['findings'] if not (e['property'] == prop and e.get('key') == key)]
d['findings'].append(dict(property=prop, status=status, key=key, what=what))
json.dump(d, open(p, 'w'), indent=1)
