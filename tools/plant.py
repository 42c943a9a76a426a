#!/usr/bin/env python3
"""plant.py <spec.py> [ids]: builds seeded/<id>/ from specs (see tools/plants_*.py), and
confirms each in /repo: applies, builds, passes the tests, demo 0 without and non-zero with."""
import json, os, subprocess, sys, importlib.util
DEMO = r'''#!/bin/bash
# Builds a small program against /repo's sources in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
R=$(pwd)
S=$R/third_party/com_github_robotlocomotion_drake/dreal/symbolic
INC="-std=c++14 -O0 -w -fPIC -iquote $R -isystem $R/third_party/com_github_robotlocomotion_drake -isystem $R/third_party/com_github_pinam45_dynamic_bitset -isystem $R/third_party/com_github_progschj_threadpool -isystem $R/third_party/com_github_tartanllama_optional -DFMT_DEPRECATED_OSTREAM=1 -DFMT_HEADER_ONLY=1 -DFMT_NO_FMT_STRING_ALIAS=1 -DSPDLOG_FMT_EXTERNAL @FLAGS@"
SRCS="$here/demo.cc"
for f in @SRCS@; do SRCS="$SRCS $f"; done
i=0
for f in $SRCS; do
  case $f in *_test.cc|*/test/*) continue;; esac
  i=$((i+1)); echo "g++ $INC -c $f -o $W/$i.o"
done | xargs -P 8 -d '\n' -I{} bash -c '{}' || exit 98
g++ @FLAGS@ $W/*.o -o $W/demo @LIBS@ -pthread || exit 97
cd "$W" && timeout 60 ./demo
'''
SYM = '$S/*.cc $R/dreal/symbolic/*.cc $R/dreal/util/logging.cc'
LIBS = '-labsl_strings -labsl_raw_hash_set -labsl_hash -labsl_city -labsl_throw_delegate -lgmp'
PRE = '''#include <cmath>
#include <cstdio>
#include <iostream>
#include <set>
#include <vector>
#include "dreal/symbolic/symbolic.h"
using namespace dreal;  // NOLINT
using namespace std;    // NOLINT
#define CHECK(x) do { if (!(x)) { printf("violated: %s\\n", #x); return 1; } } while (0)
'''
def sh(c, **k): return subprocess.run(c, shell=True, **k)
def main():
    spec = importlib.util.spec_from_file_location('sp', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want = sys.argv[2:]
    for P in m.PLANTS:
        if want and P['id'] not in want: continue
        d = f"/verif/seeded/{P['id']}"
        assert sh('git -C /repo status --porcelain -uno', capture_output=True, text=True).stdout == '', 'repo dirty'
        bad = None
        try:
            for f, old, new in P['edits']:
                p = '/repo/' + f; s = open(p).read()
                if s.count(old) != 1: bad = f'{s.count(old)} matches in {f}'; break
                open(p, 'w').write(s.replace(old, new))
            if bad: print(P['id'], 'BAD EDIT', bad); continue
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(sh('git -C /repo diff', capture_output=True, text=True).stdout)
            json.dump(dict(property=P['prop'], needs=P['needs'], what_it_breaks=P['breaks']), open(d + '/meta.json', 'w'), indent=1)
            open(d + '/demo.cc', 'w').write(('' if P.get('raw') else PRE) + P.get('pre', '') + P['demo'])
            srcs = ' '.join([SYM if P.get('sym', True) else ''] + ['$R/' + x for x in P.get('srcs', [])])
            open(d + '/demo.sh', 'w').write(DEMO.replace('@SRCS@', srcs).replace('@LIBS@', LIBS + ' ' + P.get('libs', '')).replace('@FLAGS@', P.get('flags', '')))
            os.chmod(d + '/demo.sh', 0o755)
            t = sh('bash /root/t.sh', capture_output=True, text=True).stdout.strip().splitlines()[-1:]
            ok = t and t[0].startswith('494 passed; failed: []')
            r = sh(f'bash {d}/demo.sh', cwd='/repo', capture_output=True, text=True)
            res = [ok, r.returncode, r.stdout.strip()[-150:], r.stderr.strip()[-300:] if r.returncode > 90 else '']
        finally:
            sh('git -C /repo checkout -q -- .')
        r0 = sh(f'bash {d}/demo.sh', cwd='/repo', capture_output=True, text=True)
        good = ok and res[1] != 0 and (res[1] < 90 or res[1] > 130) and r0.returncode == 0
        print(P['id'], P['prop'], 'OK' if good else 'REJECTED', 'tests', t, 'demo patched', res[1:], 'clean', r0.returncode, (r0.stdout + r0.stderr)[-300:] if r0.returncode else '', flush=True)
        if not good: sh(f'mv {d} /tmp/rejected_{P["id"]} 2>/dev/null || rm -rf {d}')
    sh('bash /root/t.sh')
main()
