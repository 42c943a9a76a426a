#!/usr/bin/env python3
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
NA = {}
p = f'{V}/not_applicable.json'
if os.path.exists(p): NA = json.load(open(p))
ids = [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 build.py', hooks=dict(guard='none', enable='no hooks are compiled into /repo: harnesses build the sources as they are (the scheduler is linked below the compiler\'s own memory-access instrumentation)', source_commits=[]),
         checks=[dict(property=i, quick_cmd=f'python3 run.py {i}', thorough_cmd=f'python3 run.py {i} --thorough',
                      technique=PROPS[i]['technique'], level=PROPS[i]['level'], level_note=PROPS[i]['note'])
                 for i in ids if i in PROPS],
         not_applicable=[dict(property=i, reason=NA.get(i, 'no check built yet')) for i in ids if i not in PROPS])
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
