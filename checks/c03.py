import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, num, gens, solver
env.setup()
import ikbtbasics.kin_cl   # before ik_classes (the modules import each other)
import random
import numpy as np, sympy as sp
from hypothesis import strategies as st
import ikbtbasics.kin_cl as kc


def jacobian(case):
    g = gens.Mech(case['rows'], case['seed'])
    m = g.mechanism()
    m.forward_kinematics()
    J = sp.Matrix(m.J66)
    expect(J.shape == (6, 6), 'Jacobian has shape %s', J.shape)
    base, allp = gens.pvals_env(g.pvals), gens.pvals_env(m.pvals)
    rng = random.Random(case['seed'])
    h = 1e-6
    for _ in range(2):
        q = g.pose(rng)
        e = {s.name: v for s, v in q.items()}
        Jn = num.evm(J, {**allp, **e})
        R = num.fk(g.dh, {**base, **e})[:3, :3]
        tot = np.zeros(6)
        totJ = np.zeros(6)
        for s in g.joints:
            col = int(s.name.split('_')[1]) - 1
            Tp = num.fk(g.dh, {**base, **e, s.name: e[s.name] + h})
            Tm = num.fk(g.dh, {**base, **e, s.name: e[s.name] - h})
            dT = (Tp - Tm) / (2 * h)
            v = R.T @ dT[:3, 3]
            W = R.T @ dT[:3, :3]
            w = np.array([W[2, 1], W[0, 2], W[1, 0]])
            ref = np.concatenate([v, w])
            expect(bool(np.all(np.abs(Jn[:, col] - ref) < 1e-5 * (1 + np.abs(ref)))),
                   'Jacobian column of %s is wrong at %s:\n%s\nexpected\n%s', s, e, Jn[:, col], ref)
            qd = rng.uniform(-1, 1)
            tot += qd * ref
            totJ += qd * Jn[:, col]
        expect(bool(np.all(np.abs(tot - totJ) < 1e-4 * (1 + np.abs(tot)))), 'J qdot is not the velocity')
    kinds = {r[0] for r in case['rows']}
    return gens.joint_count(case['rows']) >= 2 and ('with prismatic' if 'P' in kinds else 'rotary')


def unsimplified(case):
    with solver.plain():
        return jacobian(case)


SUBS = [Sub('jacobian', st.fixed_dictionaries(dict(rows=gens.dh_rows(1, 6, first_var=False, rich=True), seed=gens.seeds)), jacobian, case_timeout=25),
        Sub('unsimplified', st.fixed_dictionaries(dict(rows=st.one_of(gens.dh_rows(1, 6, first_var=False, rich=True), gens.long_rows()), seed=gens.seeds)), unsimplified)]
if __name__ == '__main__':
    main('C03', SUBS, 'random DH tables as for C02, two poses each, every joint column against central differences of an independent numeric '
         'forward kinematics; non-trivial: at least two joints', quick=45, thorough=900)
