import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, num, gens
env.setup()
import ikbtbasics.kin_cl   # before ik_classes (the modules import each other)
import math, random
import sympy as sp
from hypothesis import strategies as st
from vlib import leaf, eqs
from ikbtleaves.sinANDcos_solver import sinandcos_id, sinandcos_solve
import b3

KINDS = ['form', 'form', 'form', 'zero', 'zero', 'equal', 'numbers', 'factored', 'square', 'product', 'onlysin', 'linear', 'two', 'plusu', 'gone', 'entangled']


@st.composite
def equation(draw, u, solved, others, kinds=KINDS):
    k = draw(st.sampled_from(kinds))
    c = lambda: draw(eqs.scoef(solved))
    s, co = 'sin(%s)' % u, 'cos(%s)' % u
    lhs = draw(st.sampled_from(['Pz', 'r_23', 'r_31', 'Pz - l_3', '2*Py', '-r_23', 'Py*a_1', '0']))
    o = draw(st.sampled_from(others or ['th_5']))
    if k in ('form', 'zero', 'plusu', 'two'):
        a, b = draw(eqs.sumcoef(solved)), draw(eqs.sumcoef(solved))
        r = ' + '.join(['%s*%s' % (x, s) for x in a] + ['%s*%s' % (x, co) for x in b])
        if k == 'zero':
            lhs = '0'
        elif draw(st.booleans()):
            r += ' + ' + c()
        if k == 'plusu':
            r += ' + %s*%s' % (c(), u)
        if k == 'two':
            r += ' + %s*sin(%s)' % (c(), o)
        if k == 'zero' and draw(st.booleans()):
            lhs, r = '%s*%s' % (c(), s), '%s*%s' % (c(), co)
    elif k == 'equal':
        x = draw(eqs.coef(solved))
        m = draw(st.sampled_from([('', ''), ('', ''), ('-', '-'), ('', '-'), ('-', '')]))
        r = '%s(%s)*%s + %s(%s)*%s' % (m[0], x, s, m[1], x, co)
        if draw(st.integers(0, 3)) == 0:
            lhs = draw(st.sampled_from(['', '-'])) + '(' + x + ')'
    elif k == 'numbers':
        r = '%s*%s + %s*%s' % (draw(st.sampled_from(['3', '-2', '1/2', '-1'])), s, draw(st.sampled_from(['-3', '2', '1', '-1'])), co)
        lhs = draw(st.sampled_from(['1', '-1', '0', 'r_23', '1/3', '2']))
    elif k == 'factored':
        x, y = draw(eqs.sumcoef(solved)), draw(eqs.sumcoef(solved))
        r = '(%s)*%s + (%s)*%s' % (' + '.join(x), s, ' + '.join(y), co)
        if draw(st.booleans()):
            r = '%s*(%s*%s + %s*%s + %s)' % (c(), c(), s, c(), co, c())
    elif k == 'entangled':
        r = '%s*%s + %s*%s + %s*%s(%s)' % (c(), s, c(), co, c(), draw(st.sampled_from(['sin', 'cos'])), draw(st.sampled_from([u + ' + th_2', u + ' - th_2', '2*' + u, u + ' + al_1'])))
    elif k == 'square':
        r = '%s*%s**2 + %s*%s' % (c(), s, c(), co)
    elif k == 'product':
        r = '%s*%s*%s + %s*%s' % (c(), s, co, c(), s)
    elif k == 'onlysin':
        r = '%s*%s + %s' % (c(), s, c())
    elif k == 'linear':
        r = '%s*%s + %s' % (c(), u, c())
    elif k == 'gone':
        r = 'l_1*(%s + %s + a_2) - l_1*%s - l_1*%s' % (s, co, s, co) if draw(st.booleans()) else 'l_1*(%s + %s + a_2) - l_1*%s' % (s, co, s)
    return [lhs, r, k]


@st.composite
def cases(draw):
    solved = draw(eqs.solved_set())
    u = draw(st.sampled_from(['th_1', 'th_1', 'th_5', 'th_12']))
    others = [n for n in ['th_5', 'd_5', 'th_12', 'th_1'] if n != u and draw(st.booleans())]
    es = draw(st.lists(equation(u, solved, others), min_size=1, max_size=3))
    if 'th_5' not in others and u != 'th_5':
        solved = solved + [['th_5', ['r_13 + l_1']]]
    return dict(u=u, solved=solved, others=others, eqs=es, rot=draw(st.integers(0, 5)), presolved=draw(st.integers(0, 9)) == 0, note=draw(eqs.NOTES))


def exact(form, env_):
    a, b, c = (num.ev(x, env_) for x in form)
    r = math.hypot(a, b)
    if r < 1e-3:
        return None
    w = -c / r
    if abs(abs(w) - 1) < 1e-6:
        return None
    if abs(w) > 1:
        return []
    p = math.atan2(a, b)
    return [p + math.acos(w), p - math.acos(w)]


def check(u, e, form, sols):
    rng = random.Random(17)
    n = 0
    f = eqs.F(e)
    adj = [a for a in eqs.ADJ if f.has(sp.Symbol(a))]
    for k in range(7):
        env_ = eqs.rand_env(rng)
        theta = rng.uniform(-3.1, 3.1)
        if adj and k < 5 and not eqs.fit(f, u.symbol, theta, env_, adj[0]):
            continue
        env_.pop(u.name, None)
        want = exact(form, env_)
        if want is None:
            continue
        where = {k: v for k, v in env_.items() if f.has(sp.Symbol(k))}
        if want:
            got = [num.ev(x, env_) for x in sols]
            r = math.sin((want[0] - want[1]) / 2)
            expect(eqs.sameset(got, want, 1e-6 / max(1e-4, abs(r))), '%s: solutions %s are %s at %s, the angles satisfying it are %s', e, sols, got, where, want)
            n += 1
        else:
            for x in sols:
                try:
                    v = num.ev(x, env_)
                except num.Undefined:
                    continue
                raise Violation('%s has no solution at %s, but %s has the value %s' % (e, where, x, v))
    return n


def run(case):
    R, unknowns, u, E = eqs.build(case)
    if case['presolved']:
        leaf.solve(u, R, unknowns, [sp.Symbol('l_2')])
    bb = leaf.board(R, unknowns, E, u)
    L1 = list(bb.get('eqns_1u'))
    src = [(sp.sympify(e.LHS), sp.sympify(e.RHS)) for e in E]
    usable = []
    for e in L1:
        f = eqs.F(e)
        if not (f.has(sp.sin(u.symbol)) and f.has(sp.cos(u.symbol))):
            continue
        d = eqs.sincosform(f, u.symbol)
        if d is not None and (d[0] != 0 or d[1] != 0):
            usable.append((e, d))
    both = [e for e, d in usable if d[0] != 0 and d[1] != 0]
    before = eqs.snapshot(unknowns)
    s = leaf.tick(bb, sinandcos_id(), sinandcos_solve())
    after = eqs.snapshot(unknowns)
    expect(src == [(sp.sympify(e.LHS), sp.sympify(e.RHS)) for e in E], 'the equations were changed: %s', E)
    for v, a, b in zip(unknowns, before, after):
        if v is not u:
            expect(a == b, 'another unknown was changed: %s', eqs.diff([a], [b]))
    if s != b3.SUCCESS:
        expect(before == after, 'failed but recorded: %s', eqs.diff(before, after))
        expect(case['presolved'] or not both, '%s is not solved from %s', u, both)
        return 'left alone' if any(eqs.F(e).has(u.symbol) for e in L1) else False
    expect(not case['presolved'], 'an already solved unknown was claimed')
    expect(usable, '%s = %s is claimed but none of %s is of the form A sin + B cos = C', u, u.solutions, L1)
    expect(u.solved and len(u.solutions) == 2 and u.nsolutions == 2, 'solutions %s', u.solutions)
    for x in u.solutions:
        expect(not eqs.free_ok(x, unknowns, u), 'solution %s of %s refers to unsolved unknowns', x, u)
    use = [(e, d) for e, d in usable if sp.expand(eqs.F(e) - eqs.F(u.eqntosolve)) == 0 or sp.expand(eqs.F(e) + eqs.F(u.eqntosolve)) == 0]
    expect(use, 'recorded equation %s is none of the suitable ones offered: %s', u.eqntosolve, usable)
    n = check(u, use[0][0], use[0][1], u.solutions)
    return n > 0 and ['C zero' if use[0][1][2] == 0 else 'C not zero'] + (['several'] if len(L1) > 1 else [])


SUBS = [Sub('sinandcos', cases(), run)]
if __name__ == '__main__':
    main('C10', SUBS, 'one to three equations of known shape (A sin + B cos = C with several addends, factored, C zero, A equal B, pure numbers, on either side; squares, '
         'products, other unknowns, extra terms in x itself), random known factors incl. solved unknowns; solution sets compared with the exact one at solvable and '
         'unsolvable points; non-trivial: solutions compared, or an equation with the unknown declined', quick=25, thorough=400)
