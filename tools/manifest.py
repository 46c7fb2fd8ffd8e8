"""writes /verif/MANIFEST.json from properties.jsonl, the contract modules and the list of properties not claimed"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import registry
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = json.load(open(os.path.join(HERE, 'tools', 'na.json')))
claimed = set()
for n, (m, cs) in registry.collect().items():
    for c in cs: claimed |= set(c.props)
checks = []; na = []
for p in props:
    i = p['id']
    if i in claimed and i not in NA:
        checks.append({'property': i, 'quick_cmd': 'python3-vt -m vf.check %s --tier quick' % i, 'thorough_cmd': 'python3-vt -m vf.check %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': 'contract-based deductive verification (symbolic execution of the clang AST, loop closed forms proved inductive, z3)',
            'level': 'proof',
            'level_note': 'Every function under contract for this property and every callee contract it rests on is re-verified from the current source for all sizes, values and aliasing cases; functions the prover cannot close are listed in the evidence as bounded (sizes 0..3). Real arithmetic for float, no int overflow, sfw/libstdc++ containers and libm trusted.'})
    else: na.append({'property': i, 'reason': NA.get(i, 'contracts not written yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3, vf.check"', 'checks': checks, 'not_applicable': na,
    'notes': 'No hooks in /repo: the verifier reads the unmodified sources.'}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
