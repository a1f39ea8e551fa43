#!/usr/bin/env python3
"""replay.py FILE: runs a reported counterexample on the library compiled from /repo's current tree."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

import run


def main():
    r = json.load(open(sys.argv[1]))
    hdir = os.path.join(run.VERIF, 'harness')
    wd = tempfile.mkdtemp(prefix='vf_replay_')
    try:
        for f in sorted(os.listdir(hdir)):
            if not re.match(re.escape(r['property']) + r'(\.\w+)?\.cpp$', f):
                continue
            src = open(os.path.join(hdir, f)).read()
            if 'void %s()' % r['function'] not in src:
                continue
            m = re.search(r'^// VF-FLAGS: (.*)$', src, re.M)
            extra = m.group(1).split() if m else []
            b = os.path.join(wd, 'p')
            subprocess.run(['g++'] + run.NATFLAGS + extra + run.INC + [os.path.join(hdir, f), os.path.join(hdir, 'vf_native.cpp'), '-o', b, '-ldl'], check=True)
            inp = os.path.join(wd, 'in.txt')
            with open(inp, 'w') as o:
                for k, v in r['inputs'].items():
                    o.write('%s %s\n' % (k, v))
            print('obligation: ' + r['obligation'])
            try:
                c = subprocess.run([b, r['function'], str(r['case']), '0', inp, 'trace'], timeout=60).returncode
            except subprocess.TimeoutExpired:
                print('does not terminate')
                c = 1
            return c
        print('no harness with ' + r['function'])
        return 2
    finally:
        shutil.rmtree(wd, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
