#!/usr/bin/env python3
"""plant.py ID PROPERTY SPEC.json : create seeded/ID from a spec
spec: {"edits": [[file, old, new], ...], "needs": ..., "breaks": ..., "demo": "C++ source", "flags": "..."}
Applies the edits in a scratch worktree of /repo, writes patch.diff, demo.cpp, demo.sh, meta.json."""
import json, os, subprocess, sys, shutil, tempfile
pid, prop, spec = sys.argv[1], sys.argv[2], json.load(open(sys.argv[3]))
d = f'/verif/seeded/{pid}'
os.makedirs(d, exist_ok=True)
tmp = tempfile.mkdtemp(prefix='plant')
try:
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '--detach', '-q', tmp + '/w', 'HEAD'], check=True)
    w = tmp + '/w'
    for f, old, new in spec['edits']:
        p = f'{w}/{f}'
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True, check=True).stdout
    open(f'{d}/patch.diff', 'w').write(diff)
finally:
    subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', tmp + '/w'])
    shutil.rmtree(tmp, ignore_errors=True)
open(f'{d}/meta.json', 'w').write(json.dumps({'property': prop, 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, indent=1) + '\n')
open(f'{d}/demo.cpp', 'w').write(spec['demo'])
open(f'{d}/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
g++ -std=c++20 -g -D_GLIBCXX_DEBUG -D_FILE_OFFSET_BITS=64 -I"$PWD/src" %s "$here/demo.cpp" -o "$work/demo" -L"$PWD/_build" -ljoedb -Wl,-rpath,"$PWD/_build" -lpthread || exit 3
cd "$work"
timeout 120 ./demo
''' % spec.get('flags', ''))
os.chmod(f'{d}/demo.sh', 0o755)
