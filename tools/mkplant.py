#!/usr/bin/env python3
"""Writes seeded/<id>/ from a description: mkplant.add(id, prop, [(file, old, new)], demo, files, needs, breaks)."""
import os, subprocess, json, tempfile, shutil
def add(i, prop, edits, demo, needs, breaks, files={}):
    d = '/verif/seeded/' + i; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='mkp')
    subprocess.check_call('git -C /repo archive HEAD src | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % (t, t), shell=True)
    for f, o, n in edits:
        p = t + '/src/' + f; s = open(p).read(); assert s.count(o) >= 1, (i, o); open(p, 'w').write(s.replace(o, n, 1))
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', t, 'diff'], text=True))
    shutil.rmtree(t)
    open(d + '/demo.sh', 'w').write(demo)
    for n, x in files.items(): open(d + '/' + n, 'w').write(x)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
RT = '''#!/bin/bash
# run with cwd /repo after the build
set -u
H="$(cd "$(dirname "$0")" && pwd)"; R="$(pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
FW="$R/src/easyMockFramework"
'''
GEN = RT + '''GEN="$R/_build/EasyMockGenerate"; LIB="$R/_build/src/easyMockFramework/src"
mkdir "$T/out"
'''
def gen_c(hdr, main='demo.c', opts='', cc='gcc -w'):
    """demo that mocks header hdr (beside it) and runs main against the real framework library"""
    b = hdr.rsplit('.', 1)[0]
    return GEN + '''cp "$H/%s" "$T/"; cd "$T"
"$GEN" -i %s -o out %s > log 2>&1 || { cat log; exit 2; }
%s -I. -Iout -I"$FW/include" "$H/%s" out/easyMock_%s.c -L"$LIB" -lEasyMockFramework -Wl,-rpath,"$LIB" -o demo || exit 3
timeout 60 ./demo
''' % (hdr, hdr, opts, cc, main, b)
