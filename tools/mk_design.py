#!/usr/bin/env python3
"""Fills the lists of DESIGN.md (between the marker comments) from known_findings.jsonl and seeded/."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(f'{V}/DESIGN.md').read()
fx = [json.loads(l) for l in open(f'{V}/known_findings.jsonl') if l.strip()]
fx = [d['line'] for d in fx if d['kind'] == 'fixed']
by = {}
for l in fx:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l); by.setdefault(m[1], []).append(f'{m[3]} ({m[2]})')
fixes = '\n'.join(f'* {p}: ' + '; '.join(v) for p, v in sorted(by.items()))
sd = []
for f in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    d = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    sd.append(f"| {n} | {d['property']} | {d['needs']} | {d['what_it_breaks']} |")
seed = '| bug | caught by | needs | breaks |\n|---|---|---|---|\n' + '\n'.join(sd)
def put(tag, txt):
    global s
    a, b = f'<!-- {tag} -->', f'<!-- /{tag} -->'
    blk = f'{a}\n{txt}\n{b}'
    s = s.replace(f'@{tag}@', blk) if f'@{tag}@' in s else re.sub(re.escape(a) + '.*?' + re.escape(b), lambda m: blk, s, flags=re.S)
s = s.replace('@NFIX@ `fix:`', f'{len(fx)} `fix:`'); s = re.sub(r'\d+ `fix:` commits', f'{len(fx)} `fix:` commits', s)
put('FIXES', fixes); put('SEEDED', seed)
open(f'{V}/DESIGN.md', 'w').write(s)
