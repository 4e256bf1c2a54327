import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, num, gens, solver, catalogue
env.setup()
import ikbtbasics.kin_cl as kc   # before ik_classes (the modules import each other)
import math, random, re
import sympy as sp
from hypothesis import strategies as st

TARGET = [sp.Symbol('r_%d%d' % (i, j)) for i in (1, 2, 3) for j in (1, 2, 3)] + [sp.Symbol(n) for n in ('Px', 'Py', 'Pz')]
FUNCS = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan2', 'atan', 'Abs', 'sign'}


def target(H):
    d = {'r_%d%d' % (i + 1, j + 1): float(H[i, j]) for i in range(3) for j in range(3)}
    d.update(Px=float(H[0, 3]), Py=float(H[1, 3]), Pz=float(H[2, 3]))
    return d


def sums_of(R, joints):
    """name of a sum variable -> names of the joint variables it stands for, from its definition"""
    out = {}
    names = [s.name for s in joints]
    for e in R.kequation_aux_list:
        x = sp.expand(e.RHS - e.LHS)
        for s in x.free_symbols:
            if s.name not in names:
                c = x.coeff(s)
                y = sp.expand(-(x - c * s) / c)
                if not y.free_symbols - set(joints):
                    out[s.name] = y
    return out


def truth(R, unks, joints, q):
    """true values of all unknowns at the pose q (name -> float)"""
    d = dict(q)
    d.update({n: num.ev(y, q) for n, y in sums_of(R, joints).items()})
    return d


def wrap(x):
    return (x + math.pi) % (2 * math.pi) - math.pi


def same(name, a, b, scale):
    d = a - b
    if not name.startswith('d_'):
        d = wrap(d)
        return abs(d) < 2e-4
    return abs(d) < 2e-4 * max(1, scale)


def degenerate(R, unks, joints, dh, pv):
    """names of unknowns solved from an equation in which the factor of the unknown (of its sine and cosine) vanishes at every pose of this robot
    (the known defect: the methods regard all target entries as independent)"""
    S, C = sp.Dummy('S'), sp.Dummy('C')
    bad = []
    for u in unks:
        for q in (u.eqntosolve, u.secondeqn):
            if not u.solved or q is None or u.name in bad or not hasattr(q, 'RHS'):
                continue
            e = sp.expand(q.RHS - q.LHS).subs({sp.sin(u.symbol): S, sp.cos(u.symbol): C})
            parts = [sp.diff(e, v) for v in (S, C, u.symbol) if e.has(v)]
            if not parts:
                continue
            zero = True
            for k in range(3):
                q = pose(joints, random.Random(k))
                d = dict(pv)
                d.update(truth(R, unks, joints, q))
                d.update(target(num.fk(dh, {**pv, **q})))
                d.update({str(S): math.sin(d.get(u.name, 0)), str(C): math.cos(d.get(u.name, 0))})
                try:
                    zero = zero and all(abs(num.ev(x, d)) < 1e-8 for x in parts)
                except num.Undefined:
                    zero = False
            if zero:
                bad.append(u.name)
    return bad


def pose(joints, rng):
    return {s.name: rng.uniform(-3.1, 3.1) if not s.name.startswith('d_') else rng.uniform(.3, 2.0) for s in joints}


def judge(name, G, dh, params, pvals, vv, joints, seed, poses=3):
    R, unks = G['R'], G['unks']
    solved = [u for u in unks if u.solved]
    order = {u.symbol: u.solveorder for u in solved}
    known = set(R.params) | set(params) | set(TARGET)
    for u in solved:
        expect(u.solutions and u.nsolutions == len(u.solutions), '%s: %s is solved but has %d solutions', name, u.name, len(u.solutions))
        for s in u.solutions:
            s = sp.sympify(s)
            for x in s.free_symbols - known:
                expect(x in order and order[x] < order[u.symbol], '%s: the solution of %s uses %s, which is not solved earlier: %s', name, u.name, x, s)
            for f in s.atoms(sp.Function):
                expect(f.func.__name__ in FUNCS, '%s: solution of %s is no explicit formula: %s', name, u.name, s)
    for d, ext in (('LaTex', '.tex'), ('CodeGen/Python', '.py'), ('CodeGen/Cpp', '.cpp')):
        fs = [f for f in os.listdir(d) if f.endswith(ext) and R.name in f and os.path.getsize(os.path.join(d, f)) > 50]
        expect(fs, '%s: no output in %s: %s', name, d, os.listdir(d))
        for f in fs:
            os.remove(os.path.join(d, f))
    lab = ['all %d solved' % len(unks) if len(solved) == len(unks) else 'part solved' if solved else 'nothing solved']
    lab += sorted({m for u in solved for m in ('arcsin', 'arccos', 'atan2', 'algebra', 'simultaneous', 'sinANDcos') if m in u.solvemethod})
    if not solved:
        return None
    rng = random.Random(seed)
    pv = {str(p): rng.uniform(.3, 1.5) for p in params}
    pv.update(gens.pvals_env({k: v for k, v in pvals.items()}))
    full = dict(pv)
    full.update(gens.pvals_env({**{sp.Symbol(k): v for k, v in pv.items()}, **R.Mech.pvals}))
    done = 0
    for k in range(poses + 4):
        if done == poses:
            break
        q = pose(joints, rng)
        T = num.fk(dh, {**pv, **q})
        want = truth(R, unks, joints, q)
        base = dict(full)
        base.update(target(T))
        best, undefined, shown = None, 0, []
        # column by column: a version may be used by other rows than the one it is computed in
        d, dead, table = dict(base), set(), R.FinalEqnMatrix
        for c in range(max(map(len, table))):
            for row in table:
                expect(len(row) == len(table[0]), '%s: rows of different length', name)
                n = str(row[c].LHS)
                rhs = sp.sympify(row[c].RHS)
                try:
                    if dead & {x.name for x in rhs.free_symbols}:
                        raise num.Undefined
                    d[n] = num.ev(rhs, d)
                except num.Undefined:
                    dead.add(n)
        for row in table:
            if dead & {str(e.LHS) for e in row}:
                undefined += 1
                continue
            vals = {}
            for u in solved:
                c = [d[str(e.LHS)] for e in row if re.fullmatch(re.escape(u.name) + r'v\d+', str(e.LHS))]
                expect(len(c) == 1, '%s: row %s has %d values of %s', name, [str(e.LHS) for e in row], len(c), u.name)
                vals[u.name] = c[0]
            wrong = [n for n in vals if not same(n, vals[n], want[n], abs(want[n]))]
            shown.append(vals)
            if best is None or len(wrong) < len(best):
                best = wrong
        if best == []:
            done += 1
            continue
        # a pose where a formula divides by something tiny is not in general position
        if best is None and undefined and k < 3:
            continue
        bad = degenerate(R, unks, joints, dh, pv)
        key = None
        if bad:
            key = name if name in catalogue.PINNED else 'degenerate'
        raise Violation('%s: the pose %s is in none of the %d rows (%d undefined); closest row is wrong in %s%s; order %s\nrows %s' % (
            name, {n: round(v, 4) for n, v in want.items()}, len(R.FinalEqnMatrix), undefined, best,
            ' (the factors of the unknown in the equations used for %s vanish at every pose)' % bad if bad else '', [str(n.symbol) for n in R.solution_nodes], shown[:8]), key)
    return lab


def robot(case):
    """a robot of the catalogue, through the whole solver"""
    import ikbtfunctions.ik_robots as ikr
    name = case['name']
    with env.quiet():
        dh, vv, params, pvals, unks = ikr.robot_params(name)
    dh, params, pvals, vv, joints = sp.Matrix(dh), list(params), dict(pvals), list(vv), [u.symbol for u in unks]
    G = solver.solve(name)
    return judge(name, G, dh, params, pvals, vv, joints, case.get('seed', 1), 5)


def generated(case):
    g = gens.Mech(case['rows'], case['seed'])
    for f in os.listdir('fk_eqns'):
        os.remove('fk_eqns/' + f)

    def mod():
        return [g.dh.copy(), list(g.vv), list(g.params), dict(g.pvals), g.unknowns()]
    with solver.light():
        G = solver.solve('Gen', mod)
    lab = judge('Gen', G, g.dh, g.params, g.pvals, g.vv, g.joints, case['seed'])
    return lab and lab + ['%d joints' % len(g.joints)]


# seconds each takes (measured), to start the long ones first
TIMES = dict(Issue4=153, KR16=134, Pumaoffset=117, DZhang=77, Puma=66, Khat6DOF=65, KawasakiRS007L=57, UR5=54, Stanford=41, Craig417=41, Mackler13=34, Chair_Helper=31,
             Parkman13=29, Frei13=28, MiniDD=22, JennyGuoSp24=20, Arm_3=19)
# robots which quick runs with a faster simplification (the whole solver still runs, in the same way); nothing is solved for the others
LIGHT = ['KR16', 'DZhang', 'Pumaoffset', 'Puma', 'Khat6DOF', 'KawasakiRS007L', 'UR5', 'Parkman13', 'Mackler13', 'Stanford', 'Craig417', 'MiniDD']
REST = ['Issue4', 'ArmRobo', 'Raven-II', 'KawasakiRS05L']
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'


def exhaustive():
    ns = sorted(catalogue.names(), key=lambda n: -TIMES.get(n, 15))
    return [dict(name=n, seed=int(os.environ.get('VERIF_SEED', '1'))) for n in ns if THOROUGH or n not in LIGHT + REST]


def quicker():
    return [dict(name=n, seed=int(os.environ.get('VERIF_SEED', '1'))) for n in LIGHT]


def robot_light(case):
    with solver.light():
        return robot(case)


SUBS = [Sub('catalogue_light', None, robot_light, exhaustive=quicker, case_timeout=400, dynamic=True),
        Sub('catalogue', None, robot, exhaustive=exhaustive, case_timeout=600, dynamic=True),
        Sub('generated', st.fixed_dictionaries(dict(rows=gens.dh_rows(2, 4, odd=False), seed=st.integers(0, 999))), generated, case_timeout=200 if THOROUGH else 30,
            examples=[dict(rows=[['R', '-pi/2', 0, 0], ['F', '0', 0, 0], ['F', '0', 0, 0], ['F', '0', 0, 0], ['P', '-pi/2', 0, 0], ['P', '0', 0, 0]], seed=881)])]
if __name__ == '__main__':
    main('C19', SUBS, 'every robot of the catalogue (quick: twelve of them with a faster simplification; not those for which nothing is solved) and random mechanisms through the whole solver, then random joint poses: target by an independent forward '
         'kinematics, solution table evaluated column by column; non-trivial: every solved robot', quick=110, thorough=1800)
