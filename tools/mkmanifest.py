"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NOTES = {
 'C01': ('property-based testing: interval histories against an exact set model', 'Random histories against an independent exact model of interval sets.'),
 'C02': ('property-based testing: operation histories against an exact slab-decomposition model', 'Each result is compared with the Boolean combination of its operands exactly (complete trapezoid decomposition), not by sampled points; the operands and histories are generated.'),
 'C03': ('property-based testing: exact well-formedness invariants on generated histories', 'Each generated result is checked exactly and completely.'),
 'C04': ('property-based testing: queries and conversions against an exact reference model', 'Exact comparison on generated geometries and query points.'),
 'C05': ('property-based testing: Minkowski inclusion tests against an exact reference model', 'Inner and outer inclusions are decided at structured probe points and features with exact distances; between the two radii nothing is demanded.'),
 'C06': ('property-based testing: differential against exact all-pairs enumeration', 'Exact comparison on generated segment sets.'),
 'C07': ('property-based testing: arrangement against brute-force subdivision; randomised merge orders', 'Exact comparison on generated arrangements and shuffled merge orders.'),
 'C08': ('property-based testing: differential against linear scan', 'Exact comparison on generated items and queries.'),
 'C09': ('property-based testing: algebraic laws and exact reference formulas', 'Exact comparison on generated numbers, points and polygons.'),
 'C10': ('property-based testing: generated plate models with known ground truth', 'Sheet data compared with the solid the mesh was generated from, within float tolerance of mesh sections.'),
 'C11': ('property-based testing: metamorphic relations between both sides of generated joints and 3D', 'Compared in 3D within float rounding.'),
 'C12': ('stateful property-based testing against a model of decisions', 'Random legal and illegal decision histories on generated models.'),
 'C13': ('property-based testing: step invariants over generated models and parameters', 'Every step of the real pipeline is observed on generated models.'),
 'C14': ('property-based testing: parts reassembled in 3D and compared with the generated solid', 'Exact rectilinear reassembly with a small stated tolerance for the sliver the code leaves at joint ends.'),
 'C15': ('property-based testing: division of generated stretches against the stated limits', 'All generated stretches; existence of a division is decided exactly.'),
 'C16': ('property-based testing: DXF read back and compared with the input', 'Files are read back with ezdxf and compared within float rounding.'),
 'C17': ('property-based testing: generated command lines end to end, failure injection', 'Compared with the library pipeline run in parallel; stubbed pipeline for option parsing.'),
 'C18': ('metamorphic property-based testing: moved, rotated and reordered meshes', 'Results compared with the unmoved model within float tolerance.'),
 'C19': ('property-based testing: lookups and restrictions against the definition', 'Exact comparison on generated models and subsets.'),
 'C20': ('property-based fault injection at every step', 'Failures injected at generated steps; outcome compared with the contract.'),
 'C21': ('differential property-based testing: same case in several processes and histories', 'Exact comparison between processes with different hash seeds and earlier work.'),
 'C22': ('property-based testing: every heuristic step against its own specification', 'Each step of the real pipeline is compared with what it is there for, from generated states; places closer than the slack of the heuristics to a change are left out.'),
}
checks, na = [], []
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    pid = json.loads(l)['id']
    if not os.path.exists(os.path.join(ROOT, 'pbt/props/%s.py' % pid.lower())):
        na.append({'property': pid, 'reason': 'check not built yet'})
        continue
    t, n = NOTES[pid]
    checks.append({'property': pid,
                   'quick_cmd': 'python3 pbt/check.py %s quick' % pid,
                   'thorough_cmd': 'python3 pbt/check.py %s thorough' % pid,
                   'technique': t, 'level': 'exploration',
                   'level_note': n + ' Trusts CPython, gmpy2 and the oracle code in pbt/. Evidence counts generated and non-trivial cases.'})
m = {'version': 1, 'setup_cmd': 'python3 pbt/setup.py', 'checks': checks,
     'not_applicable': na,
     'notes': 'No hooks: every check drives the public behaviour of the code in /repo\'s working tree.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
