#!/usr/bin/env python3
"""Turn a list of planted-bug descriptions into /verif/seeded/<id>/ folders.

usage: plant.py DEFS.py [id-regex]     (DEFS.py defines BUGS = [dict(id, prop, edits=[(file, old, new)],
                                        needs, breaks, demo)])
Each bug is kept only if, in a scratch copy, it compiles, passes the 8 tests, its demo passes
on the unchanged tree and fails with the patch.
"""
import sys, os, re, json, subprocess, shutil, glob
from concurrent.futures import ThreadPoolExecutor
REPO = '/repo'; OUT = '/verif/seeded'; TMP = '/tmp/pl'
DEMO_SH = '''#!/bin/bash
# run with cwd = /repo; exit 0 if the property holds for the demonstrated input
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -I. "$d/demo.cpp" iir/*.cpp -o "$t/demo" || exit 2
"$t/demo"
'''
def sh(cmd, cwd, timeout=280):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def one(b):
    w = f"{TMP}/{b['id']}"
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    sh(f"git -C {REPO} archive HEAD | tar x -C {w} && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm base", w)
    try:
        for f, old, new, *anchor in b['edits']:
            s = open(f'{w}/{f}').read()
            at = 0
            for a in anchor: at = s.index(a, at)
            if not anchor and s.count(old) != 1: return b['id'], f'edit text found {s.count(old)} times in {f}'
            at = s.index(old, at)
            open(f'{w}/{f}', 'w').write(s[:at] + new + s[at + len(old):])
        d = f'{w}/_d'; os.makedirs(d)
        open(f'{d}/demo.cpp', 'w').write(b['demo']); open(f'{d}/demo.sh', 'w').write(DEMO_SH if 'sh' not in b else DEMO_SH[:DEMO_SH.index('g++')] + b['sh']); os.chmod(f'{d}/demo.sh', 0o755)
        diff = sh('git diff -- iir Iir.h', w).stdout
        r = sh('mkdir -p _b && cd _b && for f in ../iir/*.cpp; do g++ -std=c++17 -O1 -c -I.. $f & done; wait; ls *.o | wc -l', w)
        if r.stdout.strip().split()[-1] != '11' and len(glob.glob(f'{w}/_b/*.o')) != len(glob.glob(f'{w}/iir/*.cpp')): return b['id'], 'library does not compile: ' + r.stdout[-500:]
        for t in sorted(glob.glob(f'{w}/test/*.cpp')):
            n = os.path.basename(t)[:-4]
            r = sh(f'g++ -std=c++17 -O1 -w -I. -Itest test/{n}.cpp _b/*.o -o _b/t_{n} && cd test && ../_b/t_{n}', w)
            if r.returncode: return b['id'], f'test {n} fails'
        r = sh(f'bash {d}/demo.sh', w)
        if r.returncode == 0: return b['id'], 'demo passes with the patch'
        msg = r.stdout.strip()[-200:]
        if 'error:' in msg: return b['id'], 'demo does not compile: ' + r.stdout[:1500]
        r = sh(f'bash {d}/demo.sh', REPO)
        if r.returncode != 0: return b['id'], 'demo fails on the unchanged tree: ' + r.stdout[-400:]
        o = f"{OUT}/{b['id']}"; shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
        for n in ('demo.cpp', 'demo.sh'): shutil.copy(f'{d}/{n}', o)
        open(f'{o}/patch.diff', 'w').write(diff)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{o}/meta.json', 'w'), indent=1)
        return b['id'], 'ok: ' + msg
    finally:
        shutil.rmtree(w, ignore_errors=True)
if __name__ == '__main__':
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    bugs = [b for b in ns['BUGS'] if len(sys.argv) < 3 or re.search(sys.argv[2], b['id'])]
    with ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(one, bugs): print(i, '->', m, flush=True)
