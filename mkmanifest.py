#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (one line per claimed property)."""
import json, re, os
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
T = {
 'C01': ('runtime monitor: generated programs run under bash, compared with a reference interpreter',
         'Every generated program and every entry of the operator/control tables behaved as the reference interpreter prescribes. Sampling of an infinite space; trusts the reference interpreter and the sandbox bash.'),
}
exec(open(os.path.join(here, 'manifest_table.py')).read()) if os.path.exists(os.path.join(here, 'manifest_table.py')) else None
have = set(re.findall(r'checks\["(C\d\d)"\]', ''.join(open(os.path.join(here, 'harness', f)).read() for f in os.listdir(os.path.join(here, 'harness')) if f.endswith('.go'))))
m = {'version': 1,
     'setup_cmd': './setup.sh',
     'checks': [], 'not_applicable': []}
for i in ids:
    if i in have and i in T:
        m['checks'].append({'property': i, 'quick_cmd': './run.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./run.sh ' + i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': T[i][0], 'level': 'exploration', 'level_note': T[i][1]})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check under construction'})
m['notes'] = 'All checks rebuild the harness and tsh from /repo on every run; no hooks in /repo are needed (observation is at stdout/stderr/exit status/files and at the library results).'
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
print([c['property'] for c in m['checks']])
