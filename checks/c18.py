import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, num, gens, report, solver
env.setup()
import ikbtbasics.kin_cl as kc   # before ik_classes (the modules import each other)
import functools, json, random
import sympy as sp
from hypothesis import strategies as st
import ikbtbasics.ik_classes as ic
import ikbtfunctions.output_latex as ol
from vlib import leaf, hist

NAMES = ['Puma', 'Raven-II', 'My_Robot', 'R2 D2', 'test: Wrist', 'a.b', 'KR16', 'x_1_y']


@functools.lru_cache(maxsize=40)
def mech(rows, seed):
    g = gens.Mech(json.loads(rows), seed)
    m = g.mechanism()
    m.forward_kinematics()
    return m


def tex():
    return [f for f in os.listdir('LaTex') if f.endswith('.tex') and not f.startswith(('IK_preamble', 'IK_close', 'ik_report_template', 'HOWTO'))]


def clean():
    for f in tex():
        os.remove('LaTex/' + f)


def written(want=1):
    import gc; gc.collect()
    fs = tex()
    expect(len(fs) == want, 'report files: %s', fs)
    return 'LaTex/' + fs[0]


def robot(case):
    m = mech(json.dumps(case['rows']), case['seed'])
    R = ic.Robot(m, case['name'])
    R.params = list(m.params)
    return R


def ik_report(case):
    R = robot(case)
    clean()
    R, unks, by = hist.build(case, case['unsolved'], R)
    R.create_solution_set()
    ol.output_latex_solution(R, unks, R.solutionSet)
    report.ik(written(), R, unks, case['seed'])
    n = len(case['steps'])
    return ['nothing solved' if not n else 'partly solved' if case['unsolved'] else 'all solved',
            'branching' if any(len(s) > 1 for _, s in case['steps']) else 'no branching', 'edges' if R.notation_graph_edges else 'no edges'] if n or case['unsolved'] else None


def fk_report(case):
    R = robot(case)
    clean()
    ol.output_FK_equations(R)
    report.fk(written(), R, case['seed'])
    return gens.joint_count(case['rows']) > 1 and '%d joints' % gens.joint_count(case['rows'])


def full(case):
    import shutil
    clean()
    for f in os.listdir('fk_eqns'):
        os.remove('fk_eqns/' + f)
    G = solver.solve(case['robot'])
    report.ik(written(), G['R'], G['unks'], 1)
    return case['robot']


@st.composite
def cases(draw, mu=5):
    # few mechanisms (their kinematics take long), many histories
    rows = draw(gens.dh_rows(2, 3))
    h = draw(st.one_of(st.just(dict(steps=[], params=[], listed=[])), *[hist.histories(max_unknowns=mu, max_two=3)] * 8))
    if h['steps'] and draw(st.integers(0, 5)) == 0:         # three solutions
        x = draw(st.sampled_from(h['steps']))
        x[1] = x[1] + ['atan2(Pz, %d)' % k for k in range(3 - len(x[1]))]
    free = [n for n in hist.NAMES if n not in h['listed']]
    un = draw(st.permutations(free))[:draw(st.integers(0, 2))] if h['steps'] else free[:draw(st.integers(1, 3))]
    return dict(h, rows=rows, seed=draw(st.integers(0, 50)), name=draw(st.sampled_from(NAMES)), unsolved=un)


@st.composite
def widecases(draw):
    h = draw(st.one_of(hist.wide(7, 8, False), hist.wide(2, 14, 'all')))
    return dict(h, rows=draw(gens.dh_rows(2, 2)), seed=draw(st.integers(0, 5)), name=draw(st.sampled_from(NAMES)), unsolved=[])


TH = ['th_%d' % i for i in range(1, 7)]


@st.composite
def entry(draw):
    out = []
    for _ in range(draw(st.integers(0, 3))):
        f = [draw(st.sampled_from(['1', '-1', 'l_1', '-l_2', 'a_2', '2', 'd_3', '1/3', 'a_3*l_4', 'sqrt(2)']))]
        for _ in range(draw(st.integers(1, 3))):
            a, b, c = draw(st.permutations(TH))[:3]
            if draw(st.integers(0, 3)):
                i = draw(st.integers(0, 4))
                a, b = TH[i:i + 2]
            x = draw(st.sampled_from(['%s', '%s', '%s', '%s+%s', '%s+%s', '%s-%s', '-%s-%s', '2*%s', '2*%s+%s', '%s+%s+%s', '%s+%s-%s', '%s+al_1', '%s+pi/4']))
            f.append('%s(%s)' % (draw(st.sampled_from(['sin', 'cos'])), x % (a, b, c)[:x.count('%s')]))
            if draw(st.integers(0, 7)) == 0:
                f[-1] += '**2'
        out.append('*'.join(f))
    return '+'.join(out) or draw(st.sampled_from(['0', '1', '-1', 'l_3']))


@st.composite
def showncases(draw):
    return dict(name=draw(st.sampled_from(NAMES)), seed=draw(gens.seeds), T=[[draw(entry()) for _ in range(4)] for _ in range(3)],
                J=[[draw(entry()) for _ in range(draw(st.just(3)))] for _ in range(6)], ik=draw(st.booleans()))


def shown(case):
    """kinematics of any form (sums, differences, multiples of joint angles) are shown as they are"""
    import copy
    R = robot(dict(rows=[['R', 'pi/2', 0, 1], ['R', '0', 1, 0]], seed=1, name=case['name']))
    R.Mech = copy.copy(R.Mech)
    R.Mech.T_06 = sp.Matrix([[leaf.expr(x) for x in r] for r in case['T']] + [[0, 0, 0, 1]])
    R.Mech.J66 = sp.Matrix([[leaf.expr(x) for x in r] for r in case['J']])
    clean()
    if case['ik']:
        h = dict(steps=[['th_1', ['atan2(Px, Py)']]], params=[], listed=['th_1'])
        R, unks, by = hist.build(h, [], R)
        R.create_solution_set()
        ol.output_latex_solution(R, unks, R.solutionSet)
        report.ik(written(), R, unks, case['seed'])
    else:
        ol.output_FK_equations(R)
        report.fk(written(), R, case['seed'])
    args = {a.args[0] for a in (R.Mech.T_06.atoms(sp.sin, sp.cos) | R.Mech.J66.atoms(sp.sin, sp.cos))}
    return [k for k, t in (('sums', any(a.is_Add and len(a.args) == 2 for a in args)), ('longer sums', any(a.is_Add and len(a.args) > 2 for a in args)), ('single', any(a.is_Symbol for a in args))) if t]


@st.composite
def fkcases(draw):
    return dict(rows=draw(gens.dh_rows(2, 4)), seed=draw(gens.seeds), name=draw(st.sampled_from(NAMES)))


def robots():
    if os.environ.get('VERIF_TIER') == 'thorough':
        return [dict(robot=r) for r in ('Wrist', 'Bartell', 'Chair_Helper', 'Brad', 'ArmRobo', 'Raven-II', 'Olson13', 'Srisuan11')]
    return [dict(robot='Wrist')]


SUBS = [Sub('kinematics_shown', showncases(), shown, weight=1.5), Sub('ik_report', cases(), ik_report, weight=4), Sub('large', cases(8), ik_report, weight=1), Sub('wide', widecases(), ik_report, weight=.7), Sub('fk_report', fkcases(), fk_report, weight=1, case_timeout=90),
        Sub('solver', None, full, exhaustive=robots, case_timeout=400)]
if __name__ == '__main__':
    main('C18', SUBS, 'mechanisms with real forward kinematics, synthetic solution histories (nothing, some or all of 1-8 unknowns solved, up to 64 rows), robot names; the report is tokenised '
         '(braces, environments, math, left/right), its matrices and equations are parsed back to formulas and compared numerically with the robot; non-trivial: at least one unknown',
         quick=35, thorough=400)
