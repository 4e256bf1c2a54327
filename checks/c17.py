import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, num, gens, solver
env.setup()
import ikbtbasics.kin_cl as kc   # before ik_classes (the modules import each other)
import ast, contextlib, math, random, re
import numpy as np, sympy as sp
from hypothesis import strategies as st

NAMES = ['Puma', 'Raven-II', 'My_Robot', 'R2 D2', 'a.b', 'KR16', '3R']


def clean():
    for d in ('fk_eqns', 'CodeGen/Python', 'LaTex'):
        for f in os.listdir(d):
            if not f.startswith(('IK_preamble', 'IK_close', 'ik_report')):
                os.remove(os.path.join(d, f))


def program(src, joints, vals, q):
    """the generated program with its joint variables (and missing parameter values) set: what it prints, its globals"""
    for n, v in vals.items():
        src = re.sub(r'^(\s*%s\s*=\s*)XXXXX' % re.escape(n), lambda m: m.group(1) + repr(v), src, flags=re.M)
    for n in joints:
        pat = r'^(%s\s*=\s*)-?[\d.]+(?=\s*(#|$))' % re.escape(n)
        expect(len(re.findall(pat, src, re.M)) == 1, 'joint variable %s is set in %d places of the program', n, len(re.findall(pat, src, re.M)))
        src = re.sub(pat, lambda m: m.group(1) + repr(q[n]), src, flags=re.M)
    try:
        tree = ast.parse(src)
    except SyntaxError as e:
        raise Violation('the generated program is not valid Python: %s, line %s: %s' % (e.msg, e.lineno, e.text))
    g = {'__name__': '__main__'}
    with env.captured() as out:
        try:
            exec(compile(tree, 'generated', 'exec'), g)
        except Exception as e:
            raise Violation('the generated program fails: %r' % e)
    return out.getvalue(), g


def printed(text):
    """last four lines of four numbers"""
    rows = []
    for l in text.splitlines():
        try:
            r = [float(x) for x in l.replace('[', ' ').replace(']', ' ').replace(',', ' ').split()]
        except ValueError:
            continue
        if len(r) == 4:
            rows.append(r)
    return np.array(rows[-4:]) if len(rows) >= 4 else None


def compare(src, joints, dh, base, seeds, soa):
    for s in seeds:
        rng = random.Random(s)
        q = {n: (round(rng.uniform(-3.1, 3.1), 6) if n[0] == 't' else round(rng.uniform(0.3, 2.0), 6)) for n in joints}
        ref = num.fk(dh, {**base, **q})
        text, g = program(src, joints, base, q)
        for n, y in soa.items():
            expect(isinstance(g.get(n), (int, float)) and num.close(g[n], num.ev(y, q), 1e-9), 'the program has %s = %s at %s, it stands for %s', n, g.get(n), q, y)
        mats = [v.A if hasattr(v, 'A') else v for k, v in g.items() if k.startswith('T') and not isinstance(v, type)]
        mats = [np.array(m, dtype=float) for m in mats if np.shape(m) == (4, 4)]
        if mats:
            expect(num.close(mats[-1], ref, 1e-6), 'transform computed by the program at %s:\n%s\nexpected\n%s', q, mats[-1], ref)
        p = printed(text)
        expect(p is not None or mats, 'the program neither holds nor prints a 4x4 transform')
        if p is not None:
            expect(np.all(np.abs(p - ref) < 0.00051 * (1 + 1e-3)), 'transform printed by the program at %s:\n%s\nexpected\n%s', q, p, ref)


def sums(R, joints):
    """variables that stand for a sum of joint angles -> that sum, from their definitions"""
    out = {}
    for v in map(str, R.variables):
        if v not in joints:
            y = sp.Symbol(v)
            for _ in range(4):
                y = y.subs({e.LHS: e.RHS for e in R.kequation_aux_list})
            if {s.name for s in y.free_symbols} <= set(joints):
                out[v] = y
    return out


def fk_program(case):
    g = gens.Mech(case['rows'], case['seed'])
    base = gens.pvals_env(g.pvals)
    pv = dict(g.pvals)
    if case['values'] == 'text' and len(g.params) >= 2:
        a, b = g.params[0], g.params[-1]
        k = case['seed'] % 4
        pv[b] = ['np.cos(%s)' % a, '2*%s' % a, 'sqrt(%s)' % a, 'pi/4'][k]
        x = base[str(a)]
        base[str(b)] = [math.cos(x), 2 * x, math.sqrt(x), math.pi / 4][k]
    elif case['values'] == 'none':
        pv = {}
    elif case['values'] == 'some':
        pv = {p: v for i, (p, v) in enumerate(pv.items()) if (case['seed'] >> i) & 1}
    name = case['name']
    clean()

    def model():
        return [g.dh.copy(), list(g.vv), list(g.params), dict(pv), g.unknowns()]
    src = None
    for turn in range(2 if case['again'] else 1):       # the second time the kinematics come from the cache
        for f in os.listdir('CodeGen/Python'):
            os.remove('CodeGen/Python/' + f)
        with solver.light():
            G = solver.run_script('fkOnly.py', name, model)
        import gc; gc.collect()
        files = os.listdir('CodeGen/Python')
        expect(len(files) == 1 and files[0].endswith('.py'), 'generated files: %s', files)
        src = open('CodeGen/Python/' + files[0]).read()
        soa = sums(G['R'], [s.name for s in g.joints])
        compare(src, [s.name for s in g.joints], g.dh, base, case['poses'], soa)
    if len(g.joints) < 2:
        return None
    return [case['values'], 'sum of angles' if soa else 'no sum', 'cached' if case['again'] else 'fresh', '%d joints' % len(g.joints)]


def catalogue(case):
    import ikbtfunctions.ik_robots as ikr
    with env.quiet():
        dh, vv, params, pvals, unks = ikr.robot_params(case['robot'])
    joints = [u.name for u in unks]
    clean()
    with solver.light() if case['light'] else contextlib.nullcontext():
        G = solver.run_script('fkOnly.py', case['robot'])
    import gc; gc.collect()
    files = os.listdir('CodeGen/Python')
    expect(len(files) == 1 and files[0].endswith('.py'), 'generated files: %s', files)
    src = open('CodeGen/Python/' + files[0]).read()
    base = gens.pvals_env(pvals)
    rng = random.Random(case['seed'])
    for p in params:
        if str(p) not in base:
            base[str(p)] = round(rng.uniform(0.3, 1.5), 3)
    soa = sums(G['R'], joints)
    compare(src, joints, dh, base, [case['seed'] + i for i in range(3)], soa)
    return [case['robot']] + ['sum of angles' if soa else 'no sum']


@st.composite
def cases(draw, mj=4):
    rows = draw(gens.dh_rows(2, mj, rich=True))
    if draw(st.integers(0, 5)) == 0:            # parallel axes: sums of two, three and more angles
        k = draw(st.integers(0, 2))
        rows = [[r[0] if i < k or r[0] == 'F' else 'R', r[1] if i <= k else '0'] + r[2:] for i, r in enumerate(rows)]
    return dict(rows=rows, seed=draw(gens.seeds), name=draw(st.sampled_from(NAMES)),
                values=draw(st.sampled_from(['numbers', 'text', 'some', 'none'])), again=draw(st.booleans()),
                poses=draw(st.lists(gens.seeds, min_size=2, max_size=3)))


QUICK = ['Wrist', 'Bartell', 'Chair_Helper', 'Olson13', 'Srisuan11', 'Sims11', 'Brad', 'MiniDD']
LIGHT = ['Puma', 'Raven-II', 'Stanford', 'Khat6DOF', 'Frei13', 'Parkman13', 'UR5', 'KR16']


def robots():
    if os.environ.get('VERIF_TIER') == 'thorough':
        from vlib import catalogue as c
        return [dict(robot=n, seed=i, light=0) for i, n in enumerate(c.names())]
    return [dict(robot=n, seed=i, light=1) for i, n in enumerate(QUICK + LIGHT)]


SUBS = [Sub('fk_program', cases(4), fk_program, weight=3, case_timeout=90), Sub('fk_program_large', cases(6), fk_program, weight=2, case_timeout=120),
        Sub('fk_catalogue', None, catalogue, exhaustive=robots, case_timeout=300)]
if __name__ == '__main__':
    main('C17', SUBS, 'random DH tables (1-5 joints, fixed rows, odd twists, prismatic joints) and catalogue robots are given to the repository\'s forward kinematics script; the '
         'generated program is parsed and run at 2-3 random poses and compared with independent DH kinematics; parameter values numerical, textual or missing; '
         'non-trivial: at least two joints', quick=40, thorough=500)
