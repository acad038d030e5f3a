"""Writes MANIFEST.json for the properties which have a module in rtm/props."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
for line in open(os.path.join(H, 'tools', 'techniques.txt')):
    k, _, v = line.strip().partition(' | ')
    if k:
        T[k] = v.split(' | ')
checks = []
for k in sorted(T):
    if os.path.exists(f'{H}/rtm/props/{k.lower()}.py'):
        checks.append(dict(
            property=k,
            quick_cmd=f'python3 check.py {k} --tier quick',
            thorough_cmd=f'python3 check.py {k} --tier thorough',
            technique=T[k][0], level='exploration', level_note=T[k][1]))
props = [json.loads(l)['id'] for l in open(f'{H}/properties.jsonl')]
na = [dict(property=p, reason='check under construction') for p in props
      if p not in {c['property'] for c in checks}]
json.dump(dict(version=1,
    setup_cmd='python3 check.py --setup',
    checks=checks, not_applicable=na), open(f'{H}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'open')
