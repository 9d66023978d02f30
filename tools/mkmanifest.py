#!/usr/bin/env python3
# Regenerates MANIFEST.json from specs.py (claimed) and NA (not claimed).
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H); sys.dont_write_bytecode = True
import specs
NA = {}
exec(open(os.path.join(H, 'tools', 'na.py')).read())
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    i = p['id']
    if i in specs.PROPS:
        s = specs.PROPS[i]
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} --tier quick', thorough_cmd=f'python3 check.py {i} --tier thorough', evidence_file=f'evidence/{i}.json', technique='bounded symbolic execution of the LLVM IR of /repo\'s current source with an SMT solver (z3, cvc5) deciding every assertion; counterexamples replayed natively', level='model_checking', level_note=(s['note'] or 'every value within the stated bounds; real-number semantics for floating point unless a run says fp') + ((' Outside: ' + s['outside']) if s['outside'] else '')))
    else: na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='bash engine/build.sh build', checks=checks, not_applicable=na, notes='exit 2 of a check means that nothing could be decided (for example the harness no longer compiles against /repo)')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not applicable')
