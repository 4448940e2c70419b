import json, sys
C = {}
T = 'contract-based deductive verification of the compiled IR (own symbolic verifier, Z3)'
C['C01'] = (T, 'proof', 'For each of the lengths 2^0..2^24, each of the 8 modes and each backend: for all inputs the array afterwards equals the DFT with the documented factor (real arithmetic). 648 kernel contracts fwdfft/invfft<n,s,eo,mode> are verified against their bodies and used at call sites; loops are summarised for all iterations. Trusted: clang IR, the engine in /verif/engine, Z3, libm, OpenMP runtime; floating-point rounding is not modelled.')
NA = {}
PEND = 'check under construction: not claimed yet'
for i in range(1, 14):
    k = 'C%02d' % i
    if k not in C:
        NA[k] = PEND
exec(open('/verif/tools/claims.py').read())
M = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, sys; print(z3.get_version_string())"',
     'checks': [{'property': k, 'quick_cmd': 'VERIF_TIER=quick python3-vt check.py ' + k, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + k,
                 'technique': t, 'level': l, 'level_note': n} for k, (t, l, n) in sorted(C.items())],
     'not_applicable': [{'property': k, 'reason': r} for k, r in sorted(NA.items()) if k not in C],
     'notes': 'No hooks in /repo: the sources are compiled to IR as they are. check.py builds in /verif/.work and removes it.'}
json.dump(M, open('/verif/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(M, json.load(open('/root/.vp/MANIFEST.schema.json')))
