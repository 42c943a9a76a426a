#!/usr/bin/env python3
"""run.py <property> [--thorough] | --replay <file>

Builds the property's harness from /repo's current working tree, explores its
bounded space exhaustively, writes evidence/<property>.json and prints
VIOLATION / KNOWN-FINDING lines.  Exit 0: held; 1: violated; 2: no answer."""
import json, os, subprocess, sys, tempfile, time, fcntl
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build as bld
from props import PROPS

def known(pid):
    out = []
    p = os.path.join(V, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d['property'] == pid and d['kind'] == 'finding':
                    out.append(d)
    return out

def run_bin(name, argv, timeout, extra_env=None):
    fd, out = tempfile.mkstemp(suffix='.json'); os.close(fd); os.unlink(out)
    env = dict(os.environ); env.update(extra_env or {})
    env.setdefault('ASAN_OPTIONS', 'detect_leaks=0:abort_on_error=1')
    cmd = [f'{bld.B}/bin/{name}', '--out', out, '--jobs', str(os.cpu_count() or 8)] + argv
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors='replace', timeout=timeout, env=env)
        rc, txt = r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        rc, txt = 'timeout', (e.stdout or b'')[-2000:] if e.stdout else ''
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out, errors='replace'))
        except Exception as e:  # noqa
            txt = f'{txt}\nunreadable result: {e}'
        os.unlink(out)
    return rc, str(txt), res

def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        d = json.load(open(a[1]))
        ok, log = bld.build([d['harness']])
        if not ok:
            print(log[-3000:]); return 2
        argv = list(d.get('args', []))
        if d.get('stage'): argv += ['--stage', d['stage'], '--unit', str(d['unit'])]
        rc, txt, res = run_bin(d['harness'], argv, 600)
        print(txt[-2000:])
        for f in (res or {}).get('fails', []):
            print('FAIL', f['key'], '::', f['msg'])
        return 0
    pid = a[0]
    thorough = '--thorough' in a or os.environ.get('VERIF_TIER') == 'thorough'
    tier = 'thorough' if thorough else 'quick'
    spec = PROPS[pid]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    os.makedirs(f'{V}/evidence', exist_ok=True)
    ok, log = bld.build([b['bin'] for b in spec['bins']])
    if not ok:
        print(log[-4000:]); print(f'{pid}: the tree does not build'); return 2
    t_build = time.time() - t0
    soft = 3000 if thorough else 420
    total = dict(states=0, transitions=0, traces=0, evals=0, nontrivial=0, outcomes=0)
    samples, stages, rules, bounds, extra, fails, stderr = [], {}, [], [], {}, [], []
    capped = False
    for b in spec['bins']:
        argv = list(b.get('args', [])) + (['--thorough'] if thorough else []) + ['--deadline', str(soft)]
        rc, txt, res = run_bin(b['bin'], argv, 9000 if thorough else 800, b.get('env'))
        if res is None:
            if isinstance(rc, int) and rc < 0 or rc == 134 or rc == 'timeout':
                # the code under test died while the operand set was being built: once more
                rc2, txt2, res2 = run_bin(b['bin'], argv, 9000 if thorough else 800, b.get('env'))
                if res2 is None and (rc2 == rc):
                    last = [l for l in txt2.strip().splitlines() if l][-3:]
                    fails.append(dict(harness=b['bin'], args=b.get('args', []), stage='', unit=-1,
                                      key='prelude: ' + (last[-1][:300] if last else str(rc2)),
                                      msg=f'the library died (status {rc2}) while the operands were built: ' + ' | '.join(last)))
                    continue
                res = res2
            if res is None:
                print(txt[-3000:]); print(f'{pid}: harness {b["bin"]} gave no answer (status {rc})'); return 2
        for k in total: total[k] += res[k]
        for s in res['stages']: stages[f"{b['bin']}/{s}"] = res['stages'][s]
        for k, v in res['extra'].items(): extra[k] = extra.get(k, 0) + v
        samples += res['samples'][:12]
        rules.append(res['rule']); bounds += res['bounds']
        capped = capped or res['capped']
        stderr += res['stderr'][:5]
        for f in res['fails']:
            f['harness'] = b['bin']; f['args'] = b.get('args', [])
            fails.append(f)
    # classify
    kn = known(pid)
    new, hit = [], {}
    for f in fails:
        m = next((k for k in kn if f['key'] == k.get('key') or f['key'] in k.get('keys', [])), None)
        if m is not None: hit[m['what']] = hit.get(m['what'], 0) + 1
        else: new.append(f)
    rdir = f'{V}/build/replay'; os.makedirs(rdir, exist_ok=True)
    out_viol = []
    for i, f in enumerate(new[:5]):
        rp = f'{rdir}/{pid}-{i}.json'
        conf = 'not-replayed'
        if f['stage']:
            argv = list(f['args']) + (['--thorough'] if thorough else []) + ['--stage', f['stage'], '--unit', str(f['unit'])]
            rc, txt, res = run_bin(f['harness'], argv, 300)
            conf = 'yes' if res and any(x['key'] == f['key'] for x in res['fails']) else 'no'
        json.dump(dict(property=pid, harness=f['harness'], args=list(f['args']) + (['--thorough'] if thorough else []), stage=f['stage'], unit=f['unit'],
                       key=f['key'], msg=f['msg'], replayed=conf), open(rp, 'w'), indent=1)
        out_viol.append((f, rp, conf))
    wall = time.time() - t0
    lvl = spec['level']
    cov = dict(states=total['states'], transitions=total['transitions'],
               traces_validated_against_impl=total['traces'],
               comparisons_with_reference=total['evals'], distinct_nontrivial=total['nontrivial'],
               distinct_outcomes=total['outcomes'], rule=' || '.join(rules), samples=samples,
               bounds=bounds, stages=stages, exhaustive=not capped, build_s=round(t_build, 1))
    if lvl == 'exploration':
        cov['evaluations'] = total['transitions'] or total['evals']
    if extra: cov['counters'] = extra
    ev = dict(property=pid, tier=tier, seed=seed, level=lvl, coverage=cov,
              assumptions=spec.get('assumptions', []), wall_s=round(wall, 2), violations=len(new))
    json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    for w, n in hit.items():
        print(f'KNOWN-FINDING: property={pid} {w} ({n} cases)')
    print(f"{pid} {tier}: states={total['states']} transitions={total['transitions']} traces={total['traces']} "
          f"comparisons={total['evals']} outcomes={total['outcomes']} exhaustive={not capped} build={t_build:.0f}s wall={wall:.0f}s")
    if total['transitions'] == 0 and not new:
        print(f'{pid}: nothing was explored'); return 2
    if new:
        for f, rp, conf in out_viol:
            print(f"  {f['stage']}#{f['unit']} [replayed: {conf}] {f['msg'][:600]}")
        for l in stderr[:3]: print('  stderr:', l[:300])
        print(f'  {len(new)} violating cases')
        for f, rp, conf in out_viol[:1]:
            print(f'VIOLATION property={pid} replay={rp}')
        return 1
    return 0

sys.exit(main())
