"""Helpers to write and confirm a planted bug under /verif/seeded/<id>/ (used by hand, never by a check)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Compiles demo.cpp against the headers in the current directory and runs it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -O1 -w -Iinclude -I/usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" || exit 2
"$t/demo"
'''


def sh(c):
    return subprocess.run(c, shell=True, capture_output=True, text=True)


def plant(pid, prop, edits, demo, needs, breaks, test=True):
    d = '%s/seeded/%s' % (V, pid)
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --short').stdout.strip(), 'repo not clean'
    try:
        for f, a, b in edits:
            p = '/repo/include/tinyopt/' + f
            s = open(p).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(p, 'w').write(s.replace(a, b))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    finally:
        sh('git -C /repo checkout -- .')
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    confirm(pid, test)


def confirm(pid, test=True, check=True):
    d = '%s/seeded/%s' % (V, pid)
    prop = json.load(open(d + '/meta.json'))['property']
    r0 = sh('cd /repo && timeout 300 bash %s/demo.sh' % d)
    a = sh('git -C /repo apply %s/patch.diff' % d)
    try:
        r1 = sh('cd /repo && timeout 300 bash %s/demo.sh' % d)
        t = sh('bash %s/tools/runtests.sh' % V).stdout.strip() if test else '-'
        c = sh('cd %s && timeout 900 python3-vt engine/run.py %s' % (V, prop)) if check else None
    finally:
        sh('git -C /repo checkout -- .')
    print('%s [%s] apply %d demo %d -> %d | tests: %s | check rc %s' % (pid, prop, a.returncode, r0.returncode, r1.returncode, t, c and c.returncode))
    if r0.returncode or not r1.returncode or r1.returncode == 2:
        print(r0.stderr[-800:], r1.stdout[-300:], r1.stderr[-800:])
    if c:
        print('\n'.join(x[:200] for x in c.stdout.split('\n')[:4]))


if __name__ == '__main__':
    for x in sys.argv[1:]:
        confirm(x)
