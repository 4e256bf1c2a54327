"""writes MANIFEST.json from the checks that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = {
 'C01': 'property-based testing (Hypothesis): differential against an independent numeric model of the transforms, algebraic laws',
 'C02': 'property-based testing: random DH mechanisms, differential against an independent numeric forward kinematics',
 'C03': 'property-based testing: Jacobian against central differences of an independent forward kinematics, on random mechanisms and poses',
 'C04': 'property-based testing: every matrix/scalar equation evaluated at random true poses of random mechanisms',
 'C05': 'property-based testing: semantic equality (numeric, over random environments) before and after each rewrite',
 'C06': 'property-based testing: classification of random equation sets against a reference count',
 'C07': 'property-based testing: constructed solvable/unsolvable equation sets, solutions evaluated numerically',
 'C08': 'property-based testing: constructed equation sets, solutions evaluated numerically, completeness of the solution set',
 'C09': 'property-based testing: constructed equation sets, solutions evaluated numerically, completeness of the solution set',
 'C10': 'property-based testing: constructed equation sets, solutions evaluated numerically, completeness of the solution set',
 'C11': 'property-based testing: constructed equation pairs, solutions evaluated numerically',
 'C12': 'property-based testing: random candidate lists against a reference selection',
 'C13': 'stateful property-based testing: random solving histories, invariants of the dependency graph after every step',
 'C14': 'stateful property-based testing: random solving histories against a reference enumeration of solution combinations',
 'C15': 'property-based testing: generated Python programs executed and compared with the numerically evaluated solution table',
 'C16': 'property-based testing: generated C++ programs compiled, run and compared with the numerically evaluated solution table',
 'C17': 'property-based testing: generated Python programs executed and compared with an independent numeric forward kinematics',
 'C18': 'property-based testing: reports of random solving histories parsed (balance, required content)',
 'C19': 'property-based testing: round trip random joint pose -> target -> evaluated solution table on catalogue and random robots',
 'C20': 'property-based testing with fault injection: cached against fresh result, random truncation and byte damage',
 'C21': 'exhaustive enumeration of the catalogue plus generated load sequences and names, invariant oracle',
 'C22': 'model-based property testing: random trees and status scripts against a reference interpreter',
 'C23': 'model-based property testing: random decorator trees, status scripts and clocks against a reference interpreter',
 'C24': 'stateful model-based property testing: random operation sequences against reference dictionaries and a life-cycle monitor',
 'C25': 'property-based testing: round trip dump/load of random trees, structural and behavioural comparison',
 'C26': 'stateful property-based testing: random histories against a reference round-robin model',
 'C27': 'property-based testing: algebraic laws of equality/hash on random items against semantic equality',
 'C28': 'stateful property-based testing: random step sequences on random robots and equation sets, invariants of the whole record before/after each step, truth of solutions and equations at random poses',
 'C30': 'differential property-based testing: the same generated robot solved in two processes with different hash seeds and histories',
 'C29': 'stateful property-based testing: differential (traced against untraced run) over random step sequences',
}
NOTE = {
}
DEF = ('Exploration only: no violation among the generated cases (counts, classes and samples in the evidence file); '
       'trusts the independent numeric oracle in vlib/ and sympy\'s numeric evaluation.')
checks, na = [], []
for p in props:
    i = p['id']
    f = 'checks/%s.py' % i.lower()
    if os.path.exists(os.path.join(V, f)):
        checks.append(dict(property=i, quick_cmd='python3-vt ' + f, thorough_cmd='python3-vt ' + f,
                           technique=TECH[i], level='exploration', level_note=NOTE.get(i, DEF)))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='python3-vt tools/selfcheck.py', checks=checks, not_applicable=na,
         notes='No hooks were needed; all checks drive the public classes and functions of /repo directly.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
