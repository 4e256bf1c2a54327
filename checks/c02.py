import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, num, gens, solver
env.setup()
import ikbtbasics.kin_cl   # before ik_classes (the modules import each other)
import random
import numpy as np, sympy as sp
from hypothesis import strategies as st
import ikbtbasics.kin_cl as kc


def nontriv(case):
    rows = case['rows']
    if gens.joint_count(rows) < 2:
        return None
    return ['prismatic' if any(r[0] == 'P' for r in rows) else 'rotary', 'odd twist' if any(gens.is_odd(r[1]) for r in rows) else 'right angles',
            '%d joints' % gens.joint_count(rows), 'rerun' if case['seed'] % 3 == 0 else 'once']


def fkine(case, repeat=3):
    g = gens.Mech(case['rows'], case['seed'])
    m = g.mechanism()
    dh0 = g.dh.copy()
    m.forward_kinematics()
    expect(m.DH == dh0, 'the DH table was changed')
    base = gens.pvals_env(g.pvals)
    allp = gens.pvals_env(m.pvals)
    for k, v in base.items():
        expect(k in allp and abs(allp[k] - v) < 1e-12, 'parameter value of %s changed', k)
    rng = random.Random(case['seed'])
    links = [m.T_01, m.T_12, m.T_23, m.T_34, m.T_45, m.T_56]
    joint_names = {s.name for s in g.joints}
    used = set().union(*[M.free_symbols for M in links + [m.T_06]])
    pnames = [str(p) for p in m.params]
    for s in used:
        if s.name not in joint_names:
            expect(s.name in pnames, 'constant %s is used in the kinematics but is not among the parameters', s)
            expect(s.name in allp, 'parameter %s has no numerical value', s)
    for p in g.params:
        expect(pnames.count(str(p)) == 1, 'parameter %s is listed %d times', p, pnames.count(str(p)))
    expect(len(set(pnames)) == len(pnames), 'parameters listed twice: %s', pnames)
    tests = []
    for n in range(3):
        q = g.pose(rng)
        e = {s.name: v for s, v in q.items()}
        ref_links = num.dh_links(g.dh, {**base, **e})
        e.update(allp)
        ref = np.eye(4)
        for L in ref_links:
            ref = ref @ L
        for i, (L, R) in enumerate(zip(links, ref_links)):
            expect(num.close(num.evm(L, e), R), 'link transform %d is wrong at %s:\n%s\nexpected\n%s', i + 1, e, num.evm(L, e), R)
        for i, (L, R) in enumerate(zip(m.Ts, ref_links)):
            expect(num.close(num.evm(L, e), R), 'stored list of link transforms, entry %d is wrong', i + 1)
        expect(num.close(num.evm(m.T_06, e), ref), 'base-to-tip transform wrong at %s:\n%s\nexpected\n%s', e, num.evm(m.T_06, e), ref)
        if n < repeat:
            pose = dict(q)
            vals = {s: v for s, v in ((sp.Symbol(k), v) for k, v in allp.items())}
            before = (dict(pose), dict(vals))
            N = kc.forward_kinematics_N(m, pose, vals)
            expect(num.close(np.array(N).astype(float), ref), 'numerical forward kinematics wrong at %s:\n%s\nexpected\n%s', e, N, ref)
            expect((pose, vals) == before, 'numerical forward kinematics changed its arguments')
        tests.append((e, ref))
    n1 = [str(p) for p in m.params]
    if case['seed'] % 3:
        return nontriv(case)
    m.forward_kinematics()
    expect([str(p) for p in m.params] == n1, 'a second run changed the parameters: %s -> %s', n1, m.params)
    for e, ref in tests:
        expect(num.close(num.evm(m.T_06, e), ref), 'base-to-tip transform wrong after a second run')
    return nontriv(case)


def partial_eval(case):
    """the numeric evaluation must not return anything when a symbol has no value"""
    g = gens.Mech(case['rows'], case['seed'])
    m = g.mechanism()
    m.forward_kinematics()
    need = sorted({s.name for s in m.T_06.free_symbols})
    if not need:
        return None
    allp = gens.pvals_env(m.pvals)
    rng = random.Random(case['seed'])
    vals = {sp.Symbol(k): v for k, v in allp.items()}
    vals.update(g.pose(rng))
    miss = need[case['seed'] % len(need)]
    vals.pop(sp.Symbol(miss))
    try:
        N = kc.forward_kinematics_N(m, vals, {})
    except (SystemExit, TypeError, ValueError):
        return True
    raise Violation('a value was returned although %s has none: %s' % (miss, N))


def unsimplified(case):
    with solver.plain():
        return fkine(case, 1)


SUBS = [Sub('forward_kinematics', st.fixed_dictionaries(dict(rows=gens.dh_rows(1, 6, first_var=False, rich=True), seed=gens.seeds)), fkine, weight=3, case_timeout=25),
        Sub('unsimplified', st.fixed_dictionaries(dict(rows=st.one_of(gens.dh_rows(1, 6, first_var=False, rich=True), gens.long_rows()), seed=gens.seeds)), unsimplified, weight=3),
        Sub('missing_values', st.fixed_dictionaries(dict(rows=gens.dh_rows(1, 3, first_var=False, rich=True), seed=gens.seeds)), partial_eval, weight=1)]
if __name__ == '__main__':
    main('C02', SUBS, 'random DH tables of 1 to 6 rotary/prismatic/fixed rows with right-angle, flipped and odd twists and symbolic parameters, three '
         'random poses each; non-trivial: at least two joints', quick=45, thorough=900)
