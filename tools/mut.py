#!/usr/bin/env python3
"""mut.py <patch file | commit to revert> [properties...]: runs checks against a
scratch copy of /repo with the change applied (development aid, not a check)."""
import os, subprocess, sys, shutil
patch, props = sys.argv[1], sys.argv[2:]
D = os.environ.get('MUT_DIR', '/tmp/mut')
os.makedirs(D, exist_ok=True)
R = f'{D}/repo'
if not os.path.exists(R):
    subprocess.check_call(['git', 'clone', '-q', '/repo', R])
subprocess.check_call(['git', '-C', R, 'fetch', '-q', 'origin'])
br = subprocess.run(['git', '-C', '/repo', 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
subprocess.check_call(['git', '-C', R, 'checkout', '-q', '-f', br])
subprocess.check_call(['git', '-C', R, 'clean', '-qfd'])
if os.path.exists(patch):
    r = subprocess.run(['git', '-C', R, 'apply', '--whitespace=nowarn', os.path.abspath(patch)])
else:
    d = subprocess.run(['git', '-C', '/repo', 'show', patch], capture_output=True).stdout
    r = subprocess.run(['git', '-C', R, 'apply', '-R', '-3', '--whitespace=nowarn'], input=d)
if r.returncode: print('PATCH FAILED'); sys.exit(3)
if not props:
    sys.path.insert(0, '/verif')
    from props import PROPS
    props = sorted(PROPS)
env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=f'{D}/build')
for p in props:
    r = subprocess.run(['python3', '/verif/run.py', p, 'quick'], capture_output=True, text=True, env=env)
    last = [l for l in r.stdout.splitlines() if l.startswith(('  ', 'VIOL'))][:2]
    print(p, 'rc', r.returncode, ' | '.join(l[:180] for l in last) if r.returncode else '', flush=True)
    if r.returncode == 2: print(r.stdout[-1500:])
