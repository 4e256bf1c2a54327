import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, num, gens
env.setup()
import ikbtbasics.kin_cl   # before ik_classes (the modules import each other)
import math, random
import sympy as sp
from hypothesis import strategies as st
from vlib import leaf, eqs
from ikbtleaves.two_eqn_m7 import simu_id, simu_solver
import b3


def tx(fs, x, sign=1):
    return ' + '.join('%s%s*%s' % ('-' if sign < 0 else '', f if sign > 0 else '(%s)' % f, x) for f in fs)


@st.composite
def cases(draw):
    solved = draw(eqs.solved_set())
    u = draw(st.sampled_from(['th_1', 'th_1', 'th_23', 'th_12']))
    others = ['th_5', 'd_5']
    kind = draw(st.sampled_from(['pair', 'pair', 'pair', 'pair', 'bzero', 'azero', 'onezero', 'onezero', 'homog', 'mixedsign', 'othercoef', 'extra', 'square', 'twounk', 'single', 'linear']))
    s, c = 'sin(%s)' % u, 'cos(%s)' % u
    A, B = draw(eqs.sumcoef(solved)), draw(eqs.sumcoef(solved))
    if kind == 'bzero':
        B = []
    if kind == 'azero':
        A = []
    C = draw(eqs.sumcoef(solved, 1)) if draw(st.booleans()) else []
    D = draw(eqs.sumcoef(solved, 1)) if draw(st.booleans()) else []
    j = lambda *ts: ' + '.join(t for t in ts if t) or '0'
    e1 = j(tx(A, s), tx(B, c), ' + '.join(C))
    e2 = j(tx(A, c), tx(B, s, -1), ' + '.join(D))
    a1, a2 = draw(st.sampled_from(['Pz', '-Pz', '2*Pz', 'Pz - l_3'])), draw(st.sampled_from(['r_23', '-r_23', 'r_23*a_1', 'r_23 + a_2']))
    if kind == 'homog':
        e1, e2, a1, a2 = j(tx(A, s), tx(B, c)), j(tx(A, c), tx(B, s, -1)), '0', '0'
    elif kind == 'onezero':      # one of the two says that its combination vanishes
        if draw(st.booleans()):
            e1, a1 = j(tx(A, s), tx(B, c)), '0'
        else:
            e2, a2 = j(tx(A, c), tx(B, s, -1)), '0'
    elif kind == 'mixedsign':
        e2 = j(tx(A, c), tx(B, s), ' + '.join(D))
    elif kind == 'othercoef':
        e2 = j(tx(A, c), tx(draw(eqs.sumcoef(solved)), s, -1), ' + '.join(D))
    elif kind == 'extra':
        t = draw(st.sampled_from(['l_1*%s' % u, 'd_3*sin(%s)**2' % u, 'sin(%s)*cos(%s)' % (u, u), 'cos(2*%s)' % u, 'a_2*cos(%s)**2' % u, 'l_1*sin(%s + th_2)' % u, 'a_2*cos(%s - th_2)' % u]))
        if draw(st.booleans()):
            e1 += ' + ' + t
        else:
            e2 += ' + ' + t
    elif kind == 'twounk':
        e2 += ' + d_5'
    pair = [['e1', a1, e1], ['e2', a2, e2]]
    if kind == 'single':
        pair = pair[:1]
    if kind == 'linear':
        pair[1][2] = 'l_1*%s + l_2' % u
    out = []
    for n, l, r in pair:
        sg = draw(st.sampled_from(['', '-']))
        l, r = (sg + '(' + l + ')', sg + '(' + r + ')') if sg else (l, r)
        if draw(st.integers(0, 3)) == 0:
            l, r = r, l
        elif draw(st.integers(0, 2)) == 0:
            l, r = '0', '%s - (%s)' % (r, l)
        out.append([l, r, kind])
    for _ in range(draw(st.integers(0, 2))):
        out.append(draw(st.sampled_from([['r_31', 'l_1*sin(%s) + l_2*cos(%s)' % (u, u), 'both'], ['r_31', 'sin(th_5)', 'other'], ['r_31', 'l_1*%s + l_2' % u, 'linear'],
                                         ['r_31', 'a_3*sin(%s)' % u, 'sin'], ['r_31', 'a_3*cos(%s)' % u, 'cos'], [out[0][0], out[0][1], 'dup'],
                                         ['-(%s)' % out[0][0], '-(%s)' % out[0][1], 'negdup']])))
    out = [list(x) for x in draw(st.permutations(out))]
    return dict(u=u, solved=solved, others=others, eqs=out, rot=draw(st.integers(0, 5)), presolved=draw(st.integers(0, 9)) == 0, note=draw(eqs.NOTES))


def eqx(a, b):
    return sp.expand(a - b) == 0


def fits(f, g, s):
    """f: A sin + B cos + k1 = 0 and g: +-(A cos - B sin) + k2 = 0; returns True / 'homogeneous' / False"""
    d, e = eqs.sincosform(f, s), eqs.sincosform(g, s)
    if d is None or e is None or (d[0] == 0 and d[1] == 0):
        return False
    if not (eqx(e[1], d[0]) and eqx(e[0], -d[1]) or eqx(e[1], -d[0]) and eqx(e[0], d[1])):
        return False
    return 'homogeneous' if d[2] == 0 and e[2] == 0 else True


def run(case):
    R, unknowns, u, E = eqs.build(case)
    if case['presolved']:
        leaf.solve(u, R, unknowns, [sp.Symbol('l_2')])
    bb = leaf.board(R, unknowns, E, u)
    L1 = list(bb.get('eqns_1u'))
    src = [(sp.sympify(e.LHS), sp.sympify(e.RHS)) for e in E]
    cand = [e for e in L1 if any(eqs.F(e).has(t) for t in (sp.sin(u.symbol), sp.cos(u.symbol)))]
    pairs = [(e, f, fits(eqs.F(e), eqs.F(f), u.symbol)) for e in cand for f in cand if e is not f and not eqx(eqs.F(e), eqs.F(f)) and not eqx(eqs.F(e), -eqs.F(f))]
    good = [p for p in pairs if p[2] is True]
    homog = [p for p in pairs if p[2] == 'homogeneous']
    before = eqs.snapshot(unknowns)
    s = leaf.tick(bb, simu_id(), simu_solver())
    after = eqs.snapshot(unknowns)
    expect(src == [(sp.sympify(e.LHS), sp.sympify(e.RHS)) for e in E], 'the equations were changed: %s', E)
    for v, a, b in zip(unknowns, before, after):
        if v is not u:
            expect(a == b, 'another unknown was changed: %s', eqs.diff([a], [b]))
    if s != b3.SUCCESS:
        if homog:        # recognised, but says nothing about the angle: no solution may be recorded
            expect(not u.solved and not u.solutions or case['presolved'], 'failed but recorded %s', u.solutions)
            return False
        expect(before == after, 'failed but recorded: %s', eqs.diff(before, after))
        expect(case['presolved'] or not good, '%s is not solved from %s', u, good)
        return 'left alone' if cand else False
    expect(not case['presolved'], 'an already solved unknown was claimed')
    expect(good, '%s = %s is claimed but no two of %s fit', u, u.solutions, L1)
    expect(u.solved and len(u.solutions) == 1 and u.nsolutions == 1, 'solutions %s', u.solutions)
    sol = sp.sympify(u.solutions[0])
    expect(not eqs.free_ok(sol, unknowns, u), 'solution %s of %s refers to unsolved unknowns', sol, u)
    rec = [u.eqntosolve, u.secondeqn]
    use = []
    for q in rec:
        m = [e for e in cand if eqx(eqs.F(e), eqs.F(q)) or eqx(eqs.F(e), -eqs.F(q))]
        expect(m, 'recorded equation %s is none of those offered: %s', q, L1)
        use.append(m[0])
    rng = random.Random(23)
    n = 0
    for k in range(8):
        env_ = eqs.rand_env(rng)
        theta = rng.uniform(-3.1, 3.1)
        ok = True
        adjust = [[a for a in eqs.ADJ if eqs.F(e).has(sp.Symbol(a))] for e in use]
        for e, adj in zip(use, adjust):
            if not adj:          # nothing in it can be adjusted: take a pose that satisfies it
                a, b, c = (num.ev(x, env_) for x in eqs.sincosform(eqs.F(e), u.symbol))
                r = math.hypot(a, b)
                if abs(c) > r * .999 or len([1 for x in adjust if not x]) > 1:
                    ok = False
                    break
                theta = math.atan2(a, b) + rng.choice([1, -1]) * math.acos(-c / r)
        for e, adj in zip(use, adjust):
            if ok and adj:
                ok = eqs.fit(eqs.F(e), u.symbol, theta, env_, adj[0])
            else:
                env_[u.name] = theta
        if not ok or not all(abs(num.ev(eqs.F(e), env_)) < 1e-6 for e in use):
            continue
        a, b, _ = (num.ev(x, env_) for x in eqs.sincosform(eqs.F(use[0]), u.symbol))
        if math.hypot(a, b) < 1e-2:
            continue
        env_.pop(u.name)
        got = num.ev(sol, env_)
        expect(num.adiff(got, theta) < 1e-5, '%s = %s is %s at a pose where the angle is %s; equations %s', u, sol, got, theta, use)
        n += 1
    return n > 0 and ['solved'] + (['several'] if len(cand) > 2 else []) + (['one equation without an adjustable term'] if [] in adjust else [])


SUBS = [Sub('simultaneous', cases(), run)]
if __name__ == '__main__':
    main('C11', SUBS, 'pairs A sin + B cos = C, A cos - B sin = D with random known factors (one of them possibly absent), either order, sign and side, with up to two '
         'distractors (also duplicates and negated duplicates), and pairs that nearly fit (mixed signs, other factor, extra terms in the unknown, a second '
         'unknown); solution evaluated at poses chosen first; non-trivial: evaluated, or candidates declined', quick=25, thorough=400)
