#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
na = {'C33': 'The Lie-group libraries this code depends on (Sophus, Lie++) are not installed and cannot be fetched, so the headers cannot be compiled to IR or run natively; nothing can be encoded from the real code.'}
try:
    na.update(json.load(open(V + '/tools/na.json')))
except OSError:
    pass
checks, nas = [], []
for p in props:
    i = p['id']
    h = [f for f in os.listdir(V + '/harness') if re.match(i + r'(\.\w+)?\.cpp$', f)]
    if h and i not in na:
        checks.append({'property': i, 'quick_cmd': 'python3-vt engine/run.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt engine/run.py %s --tier thorough' % i,
                       'technique': 'symbolic execution of the library\'s LLVM IR with SMT solving (z3, nlsat, cvc5) over exact reals; counterexamples replayed on the compiled code',
                       'level': 'model_checking',
                       'level_note': 'All values within the bounds stated in harness/%s.cpp (BOUND lines); floats as exact extended reals, logging text stubbed, transcendental functions uninterpreted.' % i})
    else:
        nas.append({'property': i, 'reason': na.get(i, 'No check has been built for it yet.')})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, cvc5" && test -x /usr/bin/clang++-18 && g++ --version >/dev/null',
     'hooks': {'guard': 'none', 'enable': 'no hooks: the checks compile the headers of /repo unchanged', 'source_commits': []},
     'checks': checks, 'not_applicable': nas,
     'notes': 'Repairs made in /repo are listed in known_findings.json with status "fixed".'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(nas), 'not applicable')
