import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, num, gens
env.setup()
import ikbtbasics.kin_cl   # before ik_classes (the modules import each other)
import random
import sympy as sp
from hypothesis import strategies as st
from vlib import leaf, eqs
from ikbtleaves.algebra_solver import algebra_id, algebra_solve
import b3

KINDS = ['lin', 'lin', 'lin', 'linlhs', 'soa', 'zero', 'quad', 'quadlin', 'recip', 'sin', 'sinsum', 'mixed', 'cancel', 'other', 'two', 'angle']


@st.composite
def equation(draw, u, solved, others, kinds=KINDS):
    k = draw(st.sampled_from(kinds))
    c = lambda: draw(eqs.scoef(solved))
    lin = lambda x: draw(eqs.linear_in(x, solved))
    lhs = draw(st.sampled_from(['0', 'Pz', 'r_23', c(), 'Px - l_3']))
    r = None
    if k == 'lin':
        r = lin(u)
    elif k == 'linlhs':
        r, lhs = lhs, lin(u)
    elif k == 'soa':
        th = draw(st.sampled_from(['th_1', 'th_5', 'th_12']))
        lhs, r = draw(st.sampled_from([('th_12', 'th_1 + th_2'), ('th_45', 'th_4 + th_5'), ('th_12 + l_1', 'th_1+th_2'), ('0', 'th_1 + th_2 - th_12')]))
    elif k == 'zero':
        lhs, r = '0', lin(u)
    elif k == 'quad':
        r = '%s*%s**2 + %s' % (c(), u, c())
    elif k == 'quadlin':
        r = '%s*%s**2 + %s*%s + %s' % (c(), u, c(), u, c())
    elif k == 'recip':
        r = '%s/%s + %s' % (c(), u, c())
    elif k == 'sin':
        r = '%s*%s(%s) + %s' % (c(), draw(st.sampled_from(['sin', 'cos'])), u, c())
    elif k == 'sinsum':
        r = '%s*%s(%s + th_2) + %s' % (c(), draw(st.sampled_from(['sin', 'cos'])), u, c())
    elif k == 'mixed':
        r = '%s*%s(%s) + %s*%s' % (c(), draw(st.sampled_from(['sin', 'cos'])), u, c(), u)
    elif k == 'cancel':
        x = draw(eqs.coef(solved))
        r = '%s*(%s + %s) - %s*%s' % (x, u, c(), x, u) if x not in ('2', '3', '1/2') else 'l_1*(%s+%s) - l_1*%s' % (u, c(), u)
    elif k == 'other':
        r = lin(draw(st.sampled_from(others or ['d_5'])))
    elif k == 'two':
        r = '%s*%s + %s*%s' % (c(), u, c(), draw(st.sampled_from(others or ['d_5'])))
    elif k == 'angle':
        r = '%s*%s + %s*sin(%s)' % (c(), u, c(), draw(st.sampled_from(others or ['th_5'])))
    return [lhs, r, k]


@st.composite
def cases(draw):
    solved = draw(eqs.solved_set())
    names = {n for n, _ in solved}
    u = draw(st.sampled_from(['th_1', 'd_1', 'd_1', 'th_5', 'th_12']))
    others = [n for n in ['th_5', 'd_5', 'th_12', 'th_1'] if n != u and draw(st.booleans())]
    other_solved = [n for n in ['th_12', 'th_1', 'th_5'] if n not in others and n != u]
    es = draw(st.lists(equation(u, solved, others), min_size=1, max_size=4))
    solved = solved + [[n, ['r_13 + l_1']] for n in other_solved]
    return dict(u=u, solved=solved, others=others, eqs=es, rot=draw(st.integers(0, 5)), presolved=draw(st.integers(0, 9)) == 0, note=draw(eqs.NOTES))


def run(case):
    R, unknowns, u, E = eqs.build(case)
    if case['presolved']:
        leaf.solve(u, R, unknowns, [sp.Symbol('l_2')])
    bb = leaf.board(R, unknowns, E, u)
    L1 = list(bb.get('eqns_1u'))
    src = [(sp.sympify(e.LHS), sp.sympify(e.RHS)) for e in E]
    usable = [e for e in L1 if eqs.linear(eqs.F(e), u.symbol)]
    should = bool(usable) and not case['presolved']
    before = eqs.snapshot(unknowns)
    nodes = (len(R.solution_nodes), len(R.notation_graph_edges))
    s = leaf.tick(bb, algebra_id(), algebra_solve())
    after = eqs.snapshot(unknowns)
    expect(src == [(sp.sympify(e.LHS), sp.sympify(e.RHS)) for e in E], 'the equations were changed: %s', E)
    if not should:
        expect(s == b3.FAILURE, 'the method claims %s from %s', u, L1)
        expect(before == after, 'nothing to solve for %s in %s, but: %s', u, L1, eqs.diff(before, after))
        expect(nodes == (len(R.solution_nodes), len(R.notation_graph_edges)), 'solution graph changed without a solution')
        return 'left alone' if any(e.LHS.has(u.symbol) or e.RHS.has(u.symbol) for e in L1) else False
    expect(s == b3.SUCCESS and u.solved, '%s is not solved although %s is linear in it', u, usable)
    expect(len(u.solutions) == 1 and u.nsolutions == 1, 'solutions of %s: %s', u, u.solutions)
    sol = sp.sympify(u.solutions[0])
    expect(not eqs.free_ok(sol, unknowns, u), 'solution %s = %s refers to unsolved unknowns', u, sol)
    ok = []
    for e in usable:
        good = True
        for k in range(3):
            env_ = eqs.rand_env(random.Random(k + 11))
            x = num.ev(sol, env_)
            env_[u.name] = x
            r, scale = num.ev(eqs.F(e), env_), abs(num.ev(e.RHS, env_)) + abs(num.ev(e.LHS, env_)) + 1
            good &= abs(r) < 1e-7 * scale * (1 + abs(x))
        ok.append(good)
    expect(any(ok), '%s = %s satisfies none of %s', u, sol, usable)
    expect('algebra' in u.solvemethod, 'method recorded: %r', u.solvemethod)
    f = u.eqntosolve
    env_ = eqs.rand_env(random.Random(3))
    env_[u.name] = num.ev(sol, env_)
    expect(abs(num.ev(f.RHS, env_) - num.ev(f.LHS, env_)) < 1e-6 * (1 + abs(env_[u.name])) * 10, 'recorded equation %s is not satisfied by %s', f, sol)
    for v, a, b in zip(unknowns, before, after):
        if v is not u:
            expect(a == b, 'another unknown was changed: %s', eqs.diff([a], [b]))
    return 'solved' if len(L1) == 1 else 'solved among several'


SUBS = [Sub('linear', cases(), run)]
if __name__ == '__main__':
    main('C07', SUBS, 'one to four equations of known shape (linear on either side, quadratic, reciprocal, trigonometric, cancelling, sum of angles, other unknown), '
         'with random known factors incl. solved unknowns, classified by number of unsolved unknowns and offered to the algebra leaf; '
         'non-trivial: an equation containing the unknown was offered', quick=20, thorough=400)
