import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, num, gens
env.setup()
import ikbtbasics.kin_cl   # before ik_classes (the modules import each other)
import sympy as sp
from hypothesis import strategies as st
import ikbtbasics.ik_classes as ic
import ikbtbasics.kin_cl as kc
from vlib import leaf, eqs
from ikbtleaves.rank_leaf import rank
from ikbtleaves.sincos_solver import sincos_id, sincos_solve
from ikbtleaves.tan_solver import tan_id, tan_solve
import b3

SOLVED = ['th_2', 'th_3', 'd_3', 'th_23']
ATOM = ['Px', 'l_1', 'r_11', 'cos(th_2)', 'sin(th_3)', 'd_3', 'th_23', 'sin(th_2)', 'cos(th_3)', 'd_3**2']


@st.composite
def ex(draw):
    return '*'.join(draw(st.lists(st.sampled_from(ATOM), min_size=1, max_size=4)))


@st.composite
def cases(draw):
    nsc = draw(st.sampled_from([0, 1, 2, 2, 2, 2]))
    nt = draw(st.sampled_from([0, 1, 1, 2, 2, 2, 2]))
    sc = [draw(st.sampled_from(['asin', 'acos'])) + '(' + draw(ex()) + ')' for _ in range(nsc)]
    tn = ['atan2(%s, %s)' % (draw(ex()), draw(ex())) for _ in range(nt)]
    return dict(sc=sc, tan=tn, nsol={n: draw(st.integers(1, 2)) for n in SOLVED}, order=draw(st.permutations(range(6))),
                flags=[draw(st.booleans()), draw(st.booleans())], first=draw(st.sampled_from(['sc', 'tan'])))


def setup(case):
    R = ic.Robot()
    names = [(SOLVED + ['th_1', 'th_5'])[i] for i in case['order']]
    unknowns = [leaf.unknown(n) for n in names]
    by = {u.name: u for u in unknowns}
    for n in SOLVED:
        leaf.solve(by[n], R, unknowns, [leaf.expr(s) for s in (['Py', '-Py'][:case['nsol'][n]])])
    return R, unknowns, by


def winner(unknowns, sc, tn):
    if not sc or not tn:
        return 'sc' if sc else 'tan' if tn else None
    if len(sc) != len(tn):
        return 'sc' if len(sc) < len(tn) else 'tan'
    n = lambda e: sum(1 for v in unknowns if v.symbol in e.free_symbols)
    return 'sc' if n(sc[0]) < n(tn[0]) else 'tan'


def outcome(R, unknowns, u, sc, tn, e_sc, e_tan, n0, others):
    w = winner(unknowns, sc, tn)
    if w is None:
        expect(not u.solved and not u.solutions and len(R.solution_nodes) == n0, 'no candidates but solved: %s', u.solutions)
        return 'none'
    want = sc if w == 'sc' else tn
    expect(u.solved and list(u.solutions) == want, 'candidates %s and %s: adopted %s, expected %s', sc, tn, u.solutions, want)
    expect(u.nsolutions == len(want), 'nsolutions is %s', u.nsolutions)
    expect(len(R.solution_nodes) == n0 + 1 and u.solveorder == n0 + 1, 'recorded %d times in the solution graph, order %s after %d', len(R.solution_nodes) - n0, u.solveorder, n0)
    expect(len(u.solutionNames) == len(want), 'names %s for %s', u.solutionNames, want)
    deps = {v.name for v in unknowns if any(v.symbol in e.free_symbols for e in want)}
    expect({d.name for d in u.dependencies} == deps, 'dependencies of %s: %s', want, u.dependencies)
    if sc and tn:
        if w == 'sc':
            expect(u.eqntosolve == e_sc[0], 'equation recorded is %s', u.eqntosolve)
        else:
            expect(u.eqntosolve == e_tan[0] and u.secondeqn == e_tan[1], 'equations recorded are %s, %s', u.eqntosolve, u.secondeqn)
    expect(others == eqs.snapshot([v for v in unknowns if v is not u]), 'another unknown was changed')
    tie = sc and tn and len(sc) == len(tn)
    return [w] + (['tie'] if tie else []) + (['both'] if sc and tn else [])


def run(case):
    R, unknowns, by = setup(case)
    u = by['th_1']
    sc, tn = [leaf.expr(x) for x in case['sc']], [leaf.expr(x) for x in case['tan']]
    e_sc = [kc.kequation(leaf.expr('Pz'), leaf.expr('sin(th_1)'))]
    e_tan = [kc.kequation(sp.S.Zero, leaf.expr('l_1*sin(th_1) - Px')), kc.kequation(sp.S.Zero, leaf.expr('cos(th_1) - Py'))]
    u.solvable_sincos = bool(sc) or case['flags'][0]
    u.solvable_tan = bool(tn) or case['flags'][1]
    u.sincos_solutions, u.tan_solutions = list(sc), list(tn)
    u.sincos_eqnlist, u.tan_eqnlist = (e_sc if sc else []), (e_tan if tn else [])
    u.solutions = (sc + tn) if case['first'] == 'sc' else (tn + sc)
    u.nsolutions = len(sc) or len(tn)
    u.eqntosolve, u.secondeqn = e_sc[0], e_tan[1]
    n0 = len(R.solution_nodes)
    others = eqs.snapshot([v for v in unknowns if v is not u])
    bb = leaf.board(R, unknowns, [], u)
    s = leaf.tick(bb, rank())
    expect(s == b3.SUCCESS, 'ranking returned %s', s)
    return outcome(R, unknowns, u, sc, tn, e_sc, e_tan, n0, others)


@st.composite
def combos(draw):
    """equations solvable by one, both or none of the methods, run through the sub-tree the solver builds"""
    kn = ['Px', 'l_1', 'r_11', 'cos(th_2)', 'sin(th_3)', 'd_3', '2']
    k = lambda: draw(st.sampled_from(kn))
    es = []
    if draw(st.booleans()):
        es.append(['Pz', '%s*%s(th_1) + %s*%s' % (k(), draw(st.sampled_from(['sin', 'cos'])), k(), k())])
    if draw(st.booleans()):
        g = draw(st.sampled_from(['sin(th_5)', 'cos(th_5)', '1', '1']))
        es.append(['r_23*%s' % k(), '%s*%s*sin(th_1)' % (g, k())])
        es.append(['r_13*%s' % k(), '%s*%s*cos(th_1)' % (g, k())])
    if draw(st.booleans()):
        es.append(['r_31', draw(st.sampled_from(['sin(th_1)**2', 'l_1*sin(th_1)+l_2*cos(th_1)', 'th_1 + l_1', 'sin(th_1)*sin(th_5)']))])
    return dict(eqs=[list(x) for x in draw(st.permutations(es))], nsol={n: draw(st.integers(1, 2)) for n in SOLVED}, order=draw(st.permutations(range(6))))


def tree(case):
    R, unknowns, by = setup(case)
    u = by['th_1']
    E = [kc.kequation(leaf.expr(l), leaf.expr(r)) for l, r in case['eqs']]
    n0 = len(R.solution_nodes)
    others = eqs.snapshot([v for v in unknowns if v is not u])
    # the candidates each method produces on its own
    cand = {}
    for name, nodes in (('sc', (sincos_id, sincos_solve)), ('tan', (tan_id, tan_solve))):
        R2, un2, by2 = setup(case)
        leaf.tick(leaf.board(R2, un2, E, by2['th_1']), *[x() for x in nodes])
        cand[name] = by2['th_1']
    bb = leaf.board(R, unknowns, E, u)
    t = b3.BehaviorTree()
    t.root = b3.Sequence([b3.OrNode([b3.Sequence([tan_id(), tan_solve()]), b3.Sequence([sincos_id(), sincos_solve()])]), rank()])
    s = t.tick('check', bb)
    sc, tn = list(cand['sc'].sincos_solutions), list(cand['tan'].tan_solutions)
    expect((s == b3.SUCCESS) == bool(sc or tn), 'sub-tree returned %s with candidates %s and %s', s, sc, tn)
    return outcome(R, unknowns, u, sc, tn, cand['sc'].sincos_eqnlist, cand['tan'].tan_eqnlist, n0, others)


SUBS = [Sub('candidates', cases(), run, weight=2), Sub('with_solvers', combos(), tree, weight=1)]
if __name__ == '__main__':
    main('C12', SUBS, 'candidate solution lists of 0-2 entries per method with random dependencies on solved unknowns, in random list order, plus stale flags without '
         'candidates; and equations run through the OrNode/rank sub-tree the solver uses, compared with each method run alone; non-trivial: every case with a candidate', quick=20, thorough=300)
