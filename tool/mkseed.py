#!/usr/bin/env python3
"""mkseed.py DEF.py [ID..]: write seeded/<id>/ from definitions seed(id, prop, [(file, old, new)..], demo C++ body, needs, breaks)"""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -w -O1 -Iinclude "$D/demo.cpp" -o "$T/demo" %s || exit 3
timeout 60 "$T/demo"
'''
S = {}


def seed(id, prop, edits, demo, needs, breaks, libs=''):
    S[id] = (prop, edits, demo, needs, breaks, libs)


exec(open(sys.argv[1]).read())
sel = sys.argv[2:] or list(S)
for id in sel:
    prop, edits, demo, needs, breaks, libs = S[id]
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp()
    shutil.copytree('/repo/include', tmp + '/a/include')
    shutil.copytree('/repo/include', tmp + '/b/include')
    for f, old, new in edits:
        p = tmp + '/b/include/boost/accumulators/' + f
        s = open(p).read()
        if s.count(old) != 1:
            print(id, f, 'old text occurs', s.count(old), 'times:', old[:60])
            sys.exit(1)
        open(p, 'w').write(s.replace(old, new))
    r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=tmp, capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(r)
    shutil.rmtree(tmp)
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO % libs)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    print(id, len(r), 'bytes')
