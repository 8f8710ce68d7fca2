#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ text). Writes seeded/ID/."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}
exec(open(sys.argv[1]).read(), g)
d = os.path.join(V, 'seeded', g['ID'])
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix='mkseed')
diff = ''
files = {}
for f, old, new in g['EDITS']:
    s = files.get(f) or open('/repo/' + f).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    files[f] = s.replace(old, new)
for f, s in files.items():
    for side, t in (('a', open('/repo/' + f).read()), ('b', s)):
        p = os.path.join(w, side, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(t)
    r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a/' + f, 'b/' + f], cwd=w, capture_output=True, text=True)
    diff += r.stdout
open(os.path.join(d, 'patch.diff'), 'w').write(diff)
open(os.path.join(d, 'demo.cpp'), 'w').write(g['DEMO'])
open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# run with cwd = /repo after build.sh; exit 0: behaves as documented
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -O0 -g -DGC_HAVE_SUITESPARSE -D_USE_MATH_DEFINES -fno-access-control -w -I include -I src -I deps/nanort/include -I deps/nanoflann/include -I deps/happly -I /usr/include/suitesparse -I /usr/include/eigen3 \\
  "$D/demo.cpp" _build/lib/libgeometry-central.a %s -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo
''' % g.get('LIBS', ''))
os.chmod(os.path.join(d, 'demo.sh'), 0o755)
json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
shutil.rmtree(w)
