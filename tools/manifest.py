"""Regenerates MANIFEST.json: a property is claimed when it has a blessed expectation in engine/expect."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = json.load(open(os.path.join(V, 'tools', 'notes.json')))
NA = {
    'C20': 'Floating-point error of SIMD kernels in an external crate: inner products of symbolic length with symbolic '
           'multiplications of doubles are outside what a solver can decide; C12/C13 decide everything on this side of the kernel.',
    'C21': 'A distributional statement over generator seeds: there is no per-input assertion for a solver to decide; '
           'C16 decides that every element is the next draw of the generator.',
}
checks, na = [], []
for i in ids:
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(os.path.join(V, 'engine', 'expect', i + '.json')):
        checks.append({'property': i, 'quick_cmd': 'python3-vt engine/check.py ' + i,
                       'thorough_cmd': 'python3-vt engine/check.py %s --tier thorough' % i,
                       'technique': 'symbolic execution of the LLVM IR of the current tree, every assertion decided by z3; counterexamples replayed natively',
                       'level': 'model_checking',
                       'level_note': NOTE['common'] + ' ' + NOTE.get(i, '')})
    else:
        na.append({'property': i, 'reason': 'Check not built yet.'})
json.dump({'version': 1, 'setup_cmd': 'python3-vt engine/check.py setup', 'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: only the public API is used', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'VERIF_TIER=thorough deepens the bounds (harness feature "deep").'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print('claimed', len(checks), 'not applicable', len(na))
