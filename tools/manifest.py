"""Writes MANIFEST.json from the table below."""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, HERE)
NA = {
 'C39': 'a quantitative rounding-error bound over arbitrarily long runs of doubles: no static argument in reach bounds the accumulated floating-point error (the exact recurrence that implies the bound is decided as C13)',
 'C40': 'a statement about the distribution of random draws; static analysis decides the deterministic draw-to-index map (C32), the uniformity of the engine is outside the source',
 'C41': 'false for the current code on strongly elongated non-orthogonal lattices (e.g. a triangular 2x40 lattice), whose global minimum lies outside the first image shell; finding the minimum over all images is a closest-vector problem over runtime bases for which no static rule exists; the documented first-shell minimum is decided as C09',
 'C42': 'an average-case performance statement over data distributions, not decidable from the source',
}
G = 'gated value-graph abstract interpretation over the clang AST, normal-form equality with a specification'
N = {p: G for p in ('C%02d' % i for i in range(1, 39))}
N.update({
 'C13': G + ' in strict floating-point mode; scan of the build and headers for value-changing floating-point options',
 'C33': G + '; inductive loop invariants (Houdini) over an order abstraction of the sorted range',
 'C35': 'compile/link witnesses over all headers and a declared-implies-defined query on the clang AST',
 'C38': 'AST effect lint: mutable members, static storage, const_cast, references to locals, writes reachable from const members',
})
NOTE = {
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    have = os.path.exists(os.path.join(HERE, 'driver', i + '.cpp')) or os.path.exists(os.path.join(HERE, 'sa', 'special', i + '.py'))
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif not have:
        na.append({'property': i, 'reason': 'check not built yet'})
    else:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': N[i], 'level': 'other',
                       'level_note': NOTE.get(i, 'sound static decision for all inputs within the modelled semantics (DESIGN.md section 2); an obligation the analysis cannot decide is reported UNDECIDED, never as held')})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Pure static analysis: clang -ast-dump of /repo\'s current sources, analysed by sa/. No hooks in /repo.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
