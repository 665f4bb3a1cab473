"""writes MANIFEST.json from spec/registry.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'irv'), os.path.join(V, 'spec')]
import registry
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in ids:
    r = registry.PROPS.get(p)
    if not r: continue
    checks.append(dict(property=p, quick_cmd='./check %s' % p, thorough_cmd='./check %s --thorough' % p, evidence_file='evidence/%s.json' % p, level=r.get('level', 'proof'),
                       technique=r.get('technique', 'function contracts on the LLVM IR of the real sources, discharged by z3/cvc5 (deductive verification); counterexamples replayed on the sanitized real code'),
                       level_note=r.get('note', '') + ' Trusted: clang -O0 IR, the VC generator in irv/, z3/cvc5, allocation succeeds. Bounded stand-in / replay harness (never counted as proved): ' + r.get('bounded', '')))
na = [dict(property=p, reason=registry.NA.get(p, 'No contract for this part has been built; no verdict is given.')) for p in ids if p not in registry.PROPS]
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na, notes='see DESIGN.md'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
