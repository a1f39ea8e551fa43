#!/usr/bin/env python3
"""fixed.py <property> <commit> <what failed>: records a repair in known_findings.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
pid, commit, what = sys.argv[1:4]
e = {'property': pid, 'status': 'fixed', 'commit': commit, 'what': 'fixed: property=%s %s %s' % (pid, commit, what)}
k = d['findings'] if isinstance(d, dict) else d
k.append(e)
json.dump(d, open(p, 'w'), indent=1)
