#!/usr/bin/env python3
"""plant.py FILE [id...]: makes seeded/<id>/ from bug descriptions and confirms them in a scratch copy of /repo.
FILE defines bugs with B(id, property, file, [(old, new[, nth])...], demo, needs, breaks)."""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SB = 'p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_'
BUGS = []
def B(id, prop, file, edits, demo, needs, breaks): BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks))
exec(open(sys.argv[1]).read())
PRE = '''#include "p1788/p1788.hpp"
#include <cstdio>
#include <cmath>
#include <limits>
#include <cstring>
#include <string>
#include <sstream>
typedef p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor<double> FD;
typedef p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor<float> FF;
typedef FD::representation R; typedef FF::representation RF; typedef FD::representation_dec RD; typedef FF::representation_dec RFD;
typedef p1788::decoration::decoration D;
static const double inf = std::numeric_limits<double>::infinity(); static const double nan_ = std::numeric_limits<double>::quiet_NaN();
static const double MAX = std::numeric_limits<double>::max(), MIN = std::numeric_limits<double>::denorm_min();
static bool eq(R a, double l, double u) { bool r = (std::isnan(l) ? std::isnan(a.first) && std::isnan(a.second) : a.first == l && a.second == u); if (!r) std::printf("got [%a,%a] want [%a,%a]\\n", a.first, a.second, l, u); return r; }
static bool eqf(RF a, float l, float u) { return eq(R(a.first, a.second), l, u); }
static bool eqd(RD a, double l, double u, D d) { bool r = eq(a.first, l, u); if (a.second != d) { std::printf("dec %d want %d\\n", (int)a.second, (int)d); r = false; } return r; }
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s\\n", #c); bad = 1; } } while (0)
'''
SH = '''#!/bin/bash
# run in the repository after the build: exit 0 when the property holds on the demonstrated input
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/p1788"
printf '#define LIBIEEEP1788_VERSION "0"\\n' > "$t/p1788/version.hpp"
g++ -std=c++11 -O1 -pthread -I"$PWD" -I"$t" -o "$t/demo" "$here/demo.cpp" -lmpfr -lgmp || exit 2
timeout 60 "$t/demo"
'''
def sh(c, **k): return subprocess.run(c, capture_output=True, text=True, **k)
ids = sys.argv[2:]
for b in BUGS:
    if ids and b['id'] not in ids: continue
    if not ids and os.path.exists(os.path.join(V, 'seeded', b['id'], 'meta.json')): continue
    f = '/repo/' + b['file']; s = open(f).read(); o = s
    ok = True
    for e in b['edits']:
        old, new = e[0], e[1]; nth = e[2] if len(e) > 2 else None
        n = s.count(old)
        if n == 0 or (nth is None and n != 1): print(b['id'], 'edit matches', n, 'times:', old[:60]); ok = False; break
        i = -1
        for _ in range((nth or 0) + 1): i = s.index(old, i + 1)
        s = s[:i] + new + s[i + len(old):]
    if not ok: continue
    d = os.path.join(V, 'seeded', b['id']); os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'demo.sh'), 'w').write(SH); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.cpp'), 'w').write(PRE + ('int main() { int bad = 0;\n%s\nreturn bad; }\n' % b['demo'] if 'int main' not in b['demo'] else b['demo']))
    r0 = sh(['bash', os.path.join(d, 'demo.sh')], cwd='/repo')
    tm = None
    try:
        open(f, 'w').write(s)
        patch = sh(['git', '-C', '/repo', 'diff']).stdout
        r1 = sh(['bash', os.path.join(d, 'demo.sh')], cwd='/repo')
        good = r0.returncode == 0 and r1.returncode not in (0, 2)
        if good:
            t = sh(['bash', '/opt/vp/test.sh', '/tmp/plant_out.json']); tm = json.load(open('/tmp/plant_out.json'))
            base = json.load(open('/opt/vp/BASELINE.json')); names = base.get('stable') or base.get('passed') or base
            if isinstance(names, dict): names = list(names.values())[0]
            miss = [n for n in names if n not in set(tm['passed'])]
            good = not miss
    finally: open(f, 'w').write(o)
    print(b['id'], 'KEPT' if good else 'DROPPED', 'demo before %d after %d' % (r0.returncode, r1.returncode), '' if tm is None else 'tests failing: %s' % miss[:3], (r0.stdout + r0.stderr)[-300:] if r0.returncode else '', r1.stderr[-200:] if r1.returncode == 2 else '')
    if good:
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    else: shutil.rmtree(d)
