#!/usr/bin/env python3
"""plantfull.py <spec.py> [ids]: like plant.py, for bugs in the sources that need the interval library.
The demo carries the stand-in headers (shim/) beside it.  Works on the clone named by REPO (default /repo)."""
import json, os, shutil, subprocess, sys, importlib.util
REPO = os.environ.get('REPO', '/repo')
DEMO = r'''#!/bin/bash
# Builds a small program against /repo's sources (and stand-ins for the headers that are not installed) in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
R=$(pwd)
T=$R/third_party
mkdir -p $W/gen/dreal
echo '#define DREAL_VERSION_FULL "x"
#define DREAL_VERSION_REVISION "x"
#define DREAL_VERSION_STATUS "x"
#define DREAL_VERSION_STRING "x"' > $W/gen/dreal/version.h
INC="-std=c++14 -include cstdint -O0 -w -fPIC -pthread -iquote $R -iquote $W/gen -isystem $T/com_github_robotlocomotion_drake -isystem $T/com_github_pinam45_dynamic_bitset -isystem $T/com_github_progschj_threadpool -isystem $T/com_github_tartanllama_optional -isystem $T/com_github_westes_flex -isystem $here/shim -isystem /usr/include/picosat -DFMT_DEPRECATED_OSTREAM=1 -DFMT_NO_FMT_STRING_ALIAS=1 -DSPDLOG_FMT_EXTERNAL -DSPDLOG_COMPILED_LIB @FLAGS@"
SRCS="$here/demo.cc $here/shim/ibex.cc"
for f in $T/com_github_robotlocomotion_drake/dreal/symbolic/*.cc $R/dreal/symbolic/*.cc $R/dreal/util/*.cc $R/dreal/contractor/*.cc $R/dreal/solver/*.cc $R/dreal/optimization/*.cc $R/dreal/api/*.cc $R/dreal/smt2/logic.cc $T/com_github_progschj_threadpool/ThreadPool/*.cc @SRCS@; do
  case $f in *_test.cc|*/test/*|*_py.cc|*test_main*) continue;; esac
  SRCS="$SRCS $f"
done
for d in @FRONT@; do
  mkdir -p $W/gen/dreal/$d
  (cd $W/gen/dreal/$d && bison -Wno-deprecated -Wno-other --defines=parser.yy.hh --output=parser.yy.cc $R/dreal/$d/parser.yy 2>/dev/null && touch stack.hh position.hh location.hh && flex --outfile=scanner.ll.cc $R/dreal/$d/scanner.ll) || exit 99
  for f in $R/dreal/$d/*.cc $W/gen/dreal/$d/*.cc; do case $f in *_test.cc) continue;; esac; SRCS="$SRCS $f"; done
done
i=0
for f in $(echo $SRCS | tr ' ' '\n' | sort -u); do i=$((i+1)); echo "g++ $INC -c $f -o $W/$i.o"; done | xargs -P 8 -d '\n' -I{} bash -c '{}' || exit 98
g++ @FLAGS@ $W/*.o -o $W/demo -lcds -lgmpxx -lgmp -lnlopt_cxx -lnlopt -labsl_synchronization -labsl_base -labsl_strings -labsl_raw_hash_set -labsl_hash -labsl_city -labsl_throw_delegate -lpicosat -lClp -lCoinUtils -lspdlog -lfmt -pthread || exit 97
cd "$W" && timeout 90 ./demo
'''
PRE = '''#include <cmath>
#include <cstdio>
#include <iostream>
#include <set>
#include <vector>
#include "dreal/api/api.h"
#include "dreal/solver/context.h"
#include "dreal/util/box.h"
using namespace dreal;  // NOLINT
using namespace std;    // NOLINT
#define CHECK(x) do { if (!(x)) { printf("violated: %s\\n", #x); fflush(stdout); _exit(1); } } while (0)
'''.replace('#include <vector>', '#include <vector>\n#include <unistd.h>')
def sh(c, **k): return subprocess.run(c, shell=True, **k)
def main():
    spec = importlib.util.spec_from_file_location('sp', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want = sys.argv[2:]
    for P in m.PLANTS:
        if want and P['id'] not in want: continue
        d = f"/verif/seeded/{P['id']}"
        assert sh(f'git -C {REPO} status --porcelain -uno', capture_output=True, text=True).stdout == '', 'repo dirty'
        bad = None
        try:
            for f, old, new in P['edits']:
                p = f'{REPO}/{f}'; s = open(p).read()
                if s.count(old) != 1: bad = f'{s.count(old)} matches in {f}'; break
                open(p, 'w').write(s.replace(old, new))
            if bad: print(P['id'], 'BAD EDIT', bad, flush=True); continue
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(sh(f'git -C {REPO} diff', capture_output=True, text=True).stdout)
            json.dump(dict(property=P['prop'], needs=P['needs'], what_it_breaks=P['breaks']), open(d + '/meta.json', 'w'), indent=1)
            open(d + '/demo.cc', 'w').write(('' if P.get('raw') else PRE) + P.get('pre', '') + P['demo'])
            shutil.copytree('/verif/shim', d + '/shim', dirs_exist_ok=True)
            open(d + '/demo.sh', 'w').write(DEMO.replace('@SRCS@', ' '.join(P.get('srcs', []))).replace('@FRONT@', P.get('front', '')).replace('@FLAGS@', P.get('flags', '')))
            os.chmod(d + '/demo.sh', 0o755)
            ok = True; t = 'not run'
            if REPO == '/repo':
                t = sh('bash /root/t.sh', capture_output=True, text=True).stdout.strip().splitlines()[-1:]
                ok = t and t[0].startswith('494 passed; failed: []')
            r = sh(f'bash {d}/demo.sh', cwd=REPO, capture_output=True, text=True)
        finally:
            sh(f'git -C {REPO} checkout -q -- .')
        r0 = sh(f'bash {d}/demo.sh', cwd=REPO, capture_output=True, text=True)
        good = ok and r.returncode != 0 and (r.returncode < 90 or r.returncode > 130) and r0.returncode == 0
        print(P['id'], P['prop'], 'OK' if good else 'REJECTED', 'tests', t, 'patched', r.returncode, (r.stdout[-200:], r.stderr[-300:] if r.returncode > 1 else ''), 'clean', r0.returncode, (r0.stdout + r0.stderr)[-300:] if r0.returncode else '', flush=True)
        if not good: sh(f'rm -rf /tmp/rejected_{P["id"]}; mv {d} /tmp/rejected_{P["id"]}')
main()
