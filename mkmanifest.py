#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed checks and the reasons for the others."""
import json
CL = {
 # id: (technique, level, note)
 'C01': ('CBMC dfcc function contracts on MockedFunction.c', 'proof', 'contracts with frame on every queue operation for all states, all data sizes; byte-precise memcpy companion and short histories bounded'),
 'C02': ('CBMC dfcc function contracts on MockedFunction.c', 'proof', 'contracts with frame for all counters'),
 'C03': ('CBMC dfcc function contracts on MockedFunction.c', 'proof', 'contracts with frame from arbitrary states'),
 'C04': ('CBMC dfcc function contracts on MockedFunction.c', 'proof', 'exceptional postconditions (process end) and memory-safety obligations'),
 'C07': ('CBMC contracts on cstring.c', 'proof', 'contracts for all lengths and all allocation outcomes with the C library by contract; byte-precise companions bounded'),
 'C12': ('CBMC contracts on every generated mock of a corpus (real generator output, regenerated from /repo)', 'translation_validation', 'per generated mock the contract is discharged for all argument values and runtime answers; the corpus of headers is finite'),
 'C13': ('CBMC contracts on every generated mock of a corpus (real generator output, regenerated from /repo)', 'translation_validation', 'as C12'),
 'C14': ('CBMC contracts on every generated mock of a corpus (real generator output, regenerated from /repo)', 'translation_validation', 'as C12'),
 'C15': ('CBMC contracts on every generated mock of a corpus (real generator output, regenerated from /repo)', 'translation_validation', 'as C12'),
 'C16': ('CBMC contracts on every generated struct/union comparator of a corpus (real generator output, regenerated from /repo)', 'translation_validation', 'per generated comparator the contract is discharged for all values of both objects; the corpus of types is finite; multi-dimensional array members are a known finding'),
 'C17': ('CBMC contracts on the load/reset/verify/unload functions of every generated file of a corpus', 'translation_validation', 'as C12'),
}
NA = {
 'C24': 'totality of the generator over all C/C++ headers runs through libclang, which no available deductive verifier can bring under contract',
}
ALL = ['C%02d' % i for i in range(1, 25)]
try:
    from manifest_more import CL as C2, NA as N2
    CL.update(C2); NA.update(N2)
except ImportError: pass
m = dict(version=1, setup_cmd='python3 setup.py', checks=[], not_applicable=[])
for p in ALL:
    if p in CL:
        t, l, n = CL[p]
        m['checks'].append(dict(property=p, quick_cmd='python3 run.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 run.py ' + p, evidence_file='evidence/%s.json' % p, technique=t, level=l, level_note=n))
    else:
        m['not_applicable'].append(dict(property=p, reason=NA.get(p, 'contracts not built yet')))
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
