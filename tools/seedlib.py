"""Writes planted bugs to /verif/seeded/<id>/ from (file, old, new) edits and a demonstration program."""
import os, subprocess, json, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
DEMO = '''#!/bin/bash
# exit 0: the behaviour is as documented; nonzero: broken
H=$(cd "$(dirname "$0")" && pwd); D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
mkdir -p "$D/ftk"; cp "$H/config.hh.txt" "$D/ftk/config.hh"
g++ -std=c++17 -O1 -g -w %s -I"$D" -I/repo/include -I/repo/include/ftk/external "$H/demo.cpp" -o "$D/demo" -pthread || exit 3
cd "$D" && timeout 120 ./demo
'''
def seed(id, prop, edits, needs, breaks, demo, flags=''):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    if not os.path.exists(W): sh(f'git clone -q /repo {W}')
    sh('git fetch -q origin && git reset -q --hard origin/main 2>/dev/null || git reset -q --hard origin/master', cwd=W)
    for f, a, b, *k in edits: # k: number of occurrences, which one
        p = os.path.join(W, f); s = open(p).read(); n, i = k or (1, 0); assert s.count(a) == n, (id, f, s.count(a), a)
        q = s.split(a); open(p, 'w').write(a.join(q[:i + 1]) + b + a.join(q[i + 1:]))
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd=W).stdout)
    open(d + '/demo.cpp', 'w').write(demo); shutil.copy('/tmp/config.hh', d + '/config.hh.txt')
    open(d + '/demo.sh', 'w').write(DEMO % flags); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    # quick look: unpatched / patched in a private namespace
    a = sh(f'cd /repo && bash {d}/demo.sh'); b = sh(f'unshare -m bash -c "mount --bind {W} /repo && cd /repo && bash {d}/demo.sh"')
    print(id, 'base', a.returncode, 'patched', b.returncode, (a.stdout + a.stderr)[-300:] if a.returncode else '', b.stderr[-200:] if b.returncode == 3 else '', flush=True)
    sh('git checkout -q -- .', cwd=W)
