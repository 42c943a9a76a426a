#!/usr/bin/env python3
"""Generates build/build.ninja and builds the requested harnesses from /repo's
current working tree.  Sources are globbed, so files that are added, split or
renamed in /repo are picked up."""
import glob, os, subprocess, sys

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
DRAKE = f'{R}/third_party/com_github_robotlocomotion_drake'
DEFS = '-DFMT_DEPRECATED_OSTREAM=1 -DFMT_NO_FMT_STRING_ALIAS=1 -DSPDLOG_FMT_EXTERNAL'
COMPILED = ' -DSPDLOG_COMPILED_LIB'   # the installed libspdlog and libfmt; much quicker to build against
HEADERS = ' -DFMT_HEADER_ONLY=1'      # flavor t: everything is instrumented
INC = (f'-iquote {R} -iquote {B}/gen -isystem {DRAKE} '
       f'-isystem {R}/third_party/com_github_pinam45_dynamic_bitset '
       f'-isystem {R}/third_party/com_github_progschj_threadpool '
       f'-isystem {R}/third_party/com_github_tartanllama_optional -isystem {R}/third_party/com_github_westes_flex '
       f'-isystem {V}/shim -isystem /usr/include/picosat -I {V}/src')
BASE = f'-std=c++14 -include cstdint -O1 -fPIC -fno-strict-aliasing -w -pthread {INC} {DEFS}'
FLAVORS = {
    'o': BASE + COMPILED,
    'a': BASE + COMPILED + ' -g1 -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=undefined -fno-omit-frame-pointer',
    # instrumented; linked with our own runtime
    't': BASE.replace(f'-isystem {V}/shim ', f'-isystem {V}/shimcds -isystem {V}/shim ') + HEADERS + ' -DDREAL_CHECK_INTERRUPT -g1 -fsanitize=thread',
}
LIBS = ('-lcds -lgmpxx -lgmp -lnlopt_cxx -lnlopt -labsl_synchronization -labsl_base -labsl_strings '
        '-labsl_raw_hash_set -labsl_hash -labsl_city -labsl_throw_delegate -pthread')

def excluded(p):
    rel = os.path.relpath(p, R)
    return ('/test/' in rel or '/examples/' in rel or rel.endswith('_test.cc') or
            rel.endswith('_py.cc') or 'test_main' in rel)

def g(pat):
    return sorted(p for p in glob.glob(pat) if not excluded(p))

def needs_ibex(p):
    t = ''
    for q in (p, p[:-3] + '.h'):
        if os.path.exists(q): t += open(q, errors='replace').read()
    return 'ibex' in t.lower() or 'util/box.h' in t or 'util/interval.h' in t

def core_sources():
    s = g(f'{DRAKE}/dreal/symbolic/*.cc') + g(f'{R}/dreal/symbolic/*.cc')
    s += [p for p in g(f'{R}/dreal/util/*.cc') if not needs_ibex(p)]
    s += [p for p in g(f'{R}/dreal/smt2/*.cc')
          if os.path.basename(p) not in ('driver.cc', 'run.cc')]
    s += [f'{R}/dreal/solver/icp_stat.cc'] if os.path.exists(f'{R}/dreal/solver/icp_stat.cc') else []
    s += g(f'{R}/third_party/com_github_progschj_threadpool/ThreadPool/*.cc')
    return s

def full_sources():
    s = []
    for d in ('util', 'contractor', 'solver', 'api', 'optimization', 'dr'):
        s += g(f'{R}/dreal/{d}/*.cc')
    s += [p for p in g(f'{R}/dreal/smt2/*.cc')]
    core = set(core_sources())
    return [p for p in s if p not in core]

# harness -> (flavor, sources, uses full solver, extra link)
H = {}
def h(name, flavor='o', src=None, full=False, extra=''):
    H[name] = (flavor, src or [f'{V}/src/{name}.cc'], full, extra)

for n in sorted(glob.glob(f'{V}/src/c[0-9][0-9]*.cc')):
    b = os.path.basename(n)[:-3]
    head = open(n).read(2000)
    fl, full, extra = 'o', False, ''
    for line in head.splitlines():
        if line.startswith('// BUILD:'):
            for tok in line.split(':', 1)[1].split():
                if tok.startswith('flavor='): fl = tok[7:]
                if tok == 'full': full = True
                if tok.startswith('src='): extra = tok[4:]
    src = [n] + ([f'{V}/src/{x}' for x in extra.split(',')] if extra else [])
    h(b, fl, src, full)

def gen():
    os.makedirs(f'{B}/gen', exist_ok=True)
    o = ['ninja_required_version = 1.5', f'builddir = {B}']
    o.append('rule cxx\n  command = g++ -MD -MF $out.d $flags -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $out')
    o.append('rule ar\n  command = rm -f $out && ar rcs $out $in')
    o.append('rule link\n  command = g++ -o $out $in $libs')
    o.append('rule cmd\n  command = $cmd')
    gens = []
    # generated sources
    for d in ('smt2', 'dr'):
        y, l = f'{R}/dreal/{d}/parser.yy', f'{R}/dreal/{d}/scanner.ll'
        out = f'{B}/gen/dreal/{d}'
        os.makedirs(out, exist_ok=True)
        o.append(f'build {out}/parser.yy.cc {out}/parser.yy.hh {out}/location.hh {out}/stack.hh {out}/position.hh: cmd {y}\n'
                 f'  cmd = cd {out} && bison -Wno-deprecated -Wno-other --defines=parser.yy.hh --output=parser.yy.cc {y} 2>/dev/null && touch stack.hh position.hh location.hh')
        o.append(f'build {out}/scanner.ll.cc: cmd {l}\n  cmd = flex --outfile={out}/scanner.ll.cc {l}')
        gens.append((d, f'{out}/parser.yy.cc', f'{out}/scanner.ll.cc'))
    ver = f'{B}/gen/dreal/version.h'
    os.makedirs(os.path.dirname(ver), exist_ok=True)
    txt = ('#pragma once\n#define DREAL_VERSION_FULL "x"\n#define DREAL_VERSION_REVISION "x"\n'
           '#define DREAL_VERSION_STATUS "x"\n#define DREAL_VERSION_STRING "x"\n')
    if not os.path.exists(ver) or open(ver).read() != txt: open(ver, 'w').write(txt)
    libs = {}
    need = set()
    for name, (fl, src, full, extra) in H.items():
        need.add((fl, 'core'))
        if full: need.add((fl, 'full'))
    for fl, kind in sorted(need):
        flags = FLAVORS[fl]
        objs = []
        srcs = core_sources() if kind == 'core' else full_sources() + sorted(glob.glob(f'{V}/shim/*.cc'))
        order = ''
        if kind == 'full':
            srcs += [x for gg in gens for x in gg[1:]]
            order = ' || ' + ' '.join(f'{B}/gen/dreal/{d}/parser.yy.cc {B}/gen/dreal/{d}/scanner.ll.cc' for d, _, _ in gens)
        for s in srcs:
            ob = f'{B}/obj-{fl}/' + os.path.relpath(s, '/').replace('/', '_') + '.o'
            o.append(f'build {ob}: cxx {s}{order}\n  flags = {flags}')
            objs.append(ob)
        lib = f'{B}/lib-{fl}-{kind}.a'
        o.append(f'build {lib}: ar {" ".join(objs)}')
        libs[(fl, kind)] = lib
    for name, (fl, src, full, extra) in H.items():
        objs = []
        for s in src:
            ob = f'{B}/obj-{fl}/h_{os.path.basename(s)}.{name}.o'
            hf = FLAVORS[fl].replace(' -O1', ' -O1')
            if fl == 't': hf = hf.replace(' -fsanitize=thread', '') if s.endswith('sched.cc') or s.endswith('_nt.cc') else hf
            horder = ' || ' + ' '.join(f'{B}/gen/dreal/{d}/parser.yy.cc {B}/gen/dreal/{d}/scanner.ll.cc' for d, _, _ in gens) if full else ''
            o.append(f'build {ob}: cxx {s}{horder}\n  flags = {hf} -DVF_HARNESS')
            objs.append(ob)
        ll = ([libs[(fl, 'full')]] if full else []) + [libs[(fl, 'core')]]
        san = ' -fsanitize=address,undefined' if fl == 'a' else ''
        xl = (f'-Wl,--start-group {" ".join(ll)} -Wl,--end-group {LIBS}' + san + (' -lpicosat -lClp -lCoinUtils' if full else '') +
              (' -rdynamic -ldl' if fl == 't' else ' -lspdlog -lfmt'))
        o.append(f'build {B}/bin/{name}: link {" ".join(objs)} | {" ".join(ll)}\n  libs = {xl}')
    txt = '\n'.join(o) + '\n'
    p = f'{B}/build.ninja'
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, 'w').write(txt)

def build(names):
    gen()
    r = subprocess.run(['ninja', '-C', B, '-j', str(os.cpu_count() or 8)] + [f'{B}/bin/{n}' for n in names],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout

if __name__ == '__main__':
    ok, out = build(sys.argv[1:] or sorted(H))
    print(out[-6000:])
    sys.exit(0 if ok else 1)
