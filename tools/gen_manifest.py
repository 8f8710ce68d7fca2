#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from engine/config.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import config
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = ('Every obligation generated from the real code (compiled from /repo on each run) has to be accepted by a prover for all inputs; '
        'floating point is treated as exact real arithmetic. Trusted: clang front end, our IR semantics/VC generator, the SMT solvers, the models of '
        'the C++ runtime and libm listed in the evidence. ')
NOTES = getattr(config, 'NOTES', {})
NA = {
 'C21': 'iterative numerical algorithms over sparse factorisations: the documented accuracy is about convergence and floating point error, which no contract over exact real arithmetic within reach of the available provers expresses',
 'C22': 'text/binary stream parsing through iostreams and third-party readers: the stream library is outside the reach of the verifier, and the files concerned are not even compiled by the stable build',
}
checks = []
na = []
for i in ids:
    if i in config.PROPS:
        checks.append(dict(property=i, quick_cmd='python3-vt engine/check.py %s' % i, thorough_cmd='python3-vt engine/check.py %s --thorough' % i,
                           technique='contract-based deductive verification of the compiled real code (VC generation over LLVM IR, SMT / algebraic discharge)',
                           level='proof', level_note=NOTE + NOTES.get(i, '')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not yet under contract')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, sympy" && clang++-18 --version && python3-vt engine/selftest.py', checks=checks, not_applicable=na,
               notes='See DESIGN.md'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
