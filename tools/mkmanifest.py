"""Generate MANIFEST.json from properties.jsonl and the rules that exist."""
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'interprocedural taint analysis (process-local values) over the '
           'syntax tree by abstract interpretation with a heap model',
}
NOTE = {}
NA = {}
exec(open(os.path.join(H, 'tools', 'manifest_text.py')).read())
checks, na = [], []
for ln in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(ln)['id']
    if os.path.exists(os.path.join(H, 'rules', p.lower() + '.py')) \
            and p not in NA:
        checks.append({
            'property': p, 'quick_cmd': 'python3 check.py %s' % p,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
            'technique': TECH[p], 'level': 'other',
            'level_note': NOTE[p]})
    else:
        na.append({'property': p, 'reason': NA.get(
            p, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q sa rules '
           'check.py', 'checks': checks, 'not_applicable': na},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
