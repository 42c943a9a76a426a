import json,sys,collections

d=json.load(open(sys.argv[1]))
print({k:v for k,v in d.items() if k not in('fails','samples','stderr','rule','bounds')})
print(collections.Counter((f['stage'],f['key'].split()[0]) for f in d['fails']))
n=int(sys.argv[2]) if len(sys.argv)>2 else 12
for f in d['fails'][:n]: print('-',f['stage'],f['unit'],f['msg'][:400])
if not d['fails']:
    for s in d['samples'][:6]: print('  s:',s[:200])
for l in d['stderr'][:2]: print('err',l[-200:])
