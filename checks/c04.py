import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, num, gens, solver
env.setup()
import ikbtbasics.kin_cl   # before ik_classes (the modules import each other)
import random
import numpy as np, sympy as sp
from hypothesis import strategies as st
import ikbtbasics.kin_cl as kc
import ikbtbasics.ik_classes as ic

# (links moved to the left side at the front, at the end)
SHAPES = [(0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (1, 1), (2, 2)]


def equations(case):
    g = gens.Mech(case['rows'], case['seed'])
    m = g.mechanism()
    m.forward_kinematics()
    if case['robot']:
        if all(g.dh[i, c] == 0 for i in range(1, 6) for c in (2, 3)) or (g.dh[0, 2] == 0 and g.dh[0, 3] == 0):
            return None      # Robot() needs a variable in the first row and a second one
        r = ic.Robot(m, 'x')
        eqs = r.mequation_list
    else:
        eqs = m.get_mequation_set()
    base, allp = gens.pvals_env(g.pvals), gens.pvals_env(m.pvals)
    rng = random.Random(case['seed'])
    found = None
    for _ in range(2):
        q = g.pose(rng)
        e = {s.name: v for s, v in q.items()}
        L = num.dh_links(g.dh, {**base, **e})
        T = np.eye(4)
        for x in L:
            T = T @ x
        # a second target that is not the forward kinematics, to see what the left side does with it
        U = num.link(*[rng.uniform(-2, 2) for _ in range(4)]) @ num.link(*[rng.uniform(-2, 2) for _ in range(4)])
        here = set()
        for k, me in enumerate(eqs):
            lhs = num.evm(me.Td, {**allp, **e, **num.target_env(T)})
            rhs = num.evm(me.Ts, {**allp, **e})
            expect(num.close(lhs, rhs, 1e-6), 'matrix equation %d does not hold at %s:\n%s\n!=\n%s', k, e, lhs, rhs)
            lu = num.evm(me.Td, {**allp, **e, **num.target_env(U)})
            for n, (i, j) in enumerate(SHAPES):
                pre, post, mid = np.eye(4), np.eye(4), np.eye(4)
                for x in L[:i]:
                    pre = pre @ x
                for x in L[6 - j:]:
                    post = post @ x
                for x in L[i:6 - j]:
                    mid = mid @ x
                if num.close(rhs, mid, 1e-6) and num.close(lu, np.linalg.inv(pre) @ U @ np.linalg.inv(post), 1e-6):
                    here.add(n)
        found = here if found is None else found & here
    missing = [SHAPES[n] for n in range(len(SHAPES)) if n not in found]
    expect(not missing, 'no equation with (leading, trailing) links moved to the left side: %s', missing)
    for me in eqs:
        ks = me.get_kequation_list()
        expect(len(ks) == 12 and all(x.LHS == me.Td[i // 4, i % 4] and x.RHS == me.Ts[i // 4, i % 4] for i, x in enumerate(ks)),
               'list of the scalar equations does not match the matrix equation')
    return gens.joint_count(case['rows']) >= 2 and ('odd-twist' if any(gens.is_odd(r[1]) for r in case['rows']) else 'right angles')


def unsimplified(case):
    with solver.plain():
        return equations(case)


SUBS = [Sub('equation_set', st.fixed_dictionaries(dict(rows=gens.dh_rows(1, 6, first_var=False, rich=True), robot=st.booleans(), seed=gens.seeds)), equations, case_timeout=25),
        Sub('unsimplified', st.fixed_dictionaries(dict(rows=st.one_of(gens.dh_rows(1, 6, first_var=False, rich=True), gens.long_rows()), robot=st.booleans(), seed=gens.seeds)), unsimplified)]
if __name__ == '__main__':
    main('C04', SUBS, 'random DH tables as for C02, two poses and two non-reachable targets each; non-trivial: at least two joints', quick=45, thorough=900)
