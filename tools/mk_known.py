#!/usr/bin/env python3
"""Adds the repairs (fix: commits of /repo) to known_findings.jsonl."""
import json, subprocess, re
PROP = {
    'a quantified integer': 'C36', 'an integer variable was bisected': 'C36', 'evaluating a quantified constraint': 'C36', 'quantified constraints kept': 'C36', 'minimising skipped': 'C35',
    'a model could include': 'C26', 'changing a bound dropped': 'C26', 'clauses learned within': 'C26',
    'theory solver reused contractors': 'C31',
 'pow(pow(x, y), c) with': 'C01', 'a product dropped': 'C01', 'evaluating a product': 'C01', 'different interval': 'C02',
 'substitution dropped': 'C04', 'erasing a variable set': 'C10', 'e += e': 'C03', 'pow(x, y) * pow': 'C02',
 'expansion left': 'C05', 'expanding a term': 'C05', 'clause and CNF': 'C13', 'definitional clauses': 'C13',
 'definitional conversion': 'C13', 'delta-strengthening': 'C16', 'expanding sums of quotients': 'C05',
 'an equality without': 'C09', 'a constant factor': 'C05', 'the derivative of a product': 'C06', 'printing a sum': 'C11', 'prefix printing': 'C11', 'adding the first': 'C28', 'bounds absorbed': 'C27', 'the worklist fixpoint': 'C29', 'a join reported': 'C29', 'a sequence of contractors': 'C29', 'decimal numerals': 'C34',
}
V = '/verif/known_findings.jsonl'
old = [json.loads(l) for l in open(V) if l.strip()]
out = [d for d in old if d['kind'] == 'finding']
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
try:
    PROP.update(json.load(open('/verif/tools/fix_props.json')))
except FileNotFoundError:
    pass
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    what = s[5:]
    p = next((v for k, v in PROP.items() if what.startswith(k)), None)
    if p is None: print('no property for', what); continue
    out.append({'property': p, 'kind': 'fixed', 'line': f'fixed: property={p} {h} {what}'})
with open(V, 'w') as f:
    for d in out: f.write(json.dumps(d) + '\n')
