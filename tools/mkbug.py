#!/usr/bin/env python3
"""Write seeded/<id>/ from a description file: mkbug.py FILE...
Each FILE is Python defining BUGS = [dict(id, property, edits=[(file, old, new)], demo=<C++ text>, needs, breaks, flags='')]."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# Builds the program beside this file from the sources in the current directory and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
src=$PWD
g++ -std=c++17 -O0 -w -DBOOST_PROGRAM_OPTIONS_NO_LIB %s-I"$src/include" "$here/demo.cpp" "$src"/src/*.cpp -o "$t/demo" -lpthread || exit 0
cd "$t" && timeout 200 ./demo
'''
for f in sys.argv[1:]:
    ns = {}; exec(open(f).read(), ns)
    for b in ns['BUGS']:
        t = tempfile.mkdtemp(prefix='mkbug-')
        subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.email=a@b -c user.name=x commit -qm x' % (t, t), shell=True, check=True)
        ok = True
        for fn, old, new in b['edits']:
            p = os.path.join(t, fn); s = open(p).read()
            if s.count(old) != 1: print(b['id'], 'EDIT MATCHES', s.count(old), 'TIMES', fn, repr(old[:60])); ok = False; continue
            open(p, 'w').write(s.replace(old, new))
        if ok:
            d = os.path.join(V, 'seeded', b['id']); os.makedirs(d, exist_ok=True)
            diff = subprocess.run(['git', '-C', t, 'diff'], stdout=subprocess.PIPE, check=True).stdout
            open(d + '/patch.diff', 'wb').write(diff)
            open(d + '/demo.cpp', 'w').write(b['demo'].lstrip('\n')); open(d + '/demo.sh', 'w').write(SH % (b.get('flags', '') + ' ' if b.get('flags') else '')); os.chmod(d + '/demo.sh', 0o755)
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
            print(b['id'], 'written')
        shutil.rmtree(t)
