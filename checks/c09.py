import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, num, gens
env.setup()
import ikbtbasics.kin_cl   # before ik_classes (the modules import each other)
import math, random
import sympy as sp
from hypothesis import strategies as st
from vlib import leaf, eqs
from ikbtleaves.tan_solver import tan_id, tan_solve
from ikbtleaves.rank_leaf import rank
import b3

FACTORS = ['sin(th_5)', 'cos(th_5)', 'd_5', 'l_1*sin(th_5)', 'd_5*l_2', 'sin(th_5)*d_5', 'sin(th_5)*cos(th_2)']


@st.composite
def offset(draw, solved):
    return '' if draw(st.booleans()) else ' + ' + ' + '.join(draw(eqs.sumcoef(solved)))


@st.composite
def term(draw, fn, u, fac, solved, style=None):
    """addend(s) with sin(u) or cos(u); fac: common factor of unknown sign or ''"""
    x = '%s(%s)' % (fn, u)
    if fac:
        x = fac + '*' + x
    style = style or draw(st.sampled_from(['bare', 'coef', 'coef', 'sum']))
    if style == 'bare':
        return draw(st.sampled_from(['', '-'])) + x
    if style == 'coef':
        return draw(eqs.scoef(solved)) + '*' + x
    return ' + '.join('%s*%s' % (a, x) for a in draw(eqs.sumcoef(solved)))


@st.composite
def cases(draw):
    solved = draw(eqs.solved_set())
    u = draw(st.sampled_from(['th_1', 'th_1', 'th_12', 'th_6']))
    kind = draw(st.sampled_from(['known', 'known', 'common', 'common', 'mixed', 'offset', 'onlysin', 'square', 'entangled']))
    others = ['th_5', 'd_5']
    es = []
    fac = draw(st.sampled_from(FACTORS)) if kind in ('common',) else ''
    pair = []
    for fn, adj in (('sin', 'Pz'), ('cos', 'r_23')):
        lhs = draw(st.sampled_from([adj, adj, '-' + adj, '2*' + adj, adj + ' - l_3', 'Px*a_1 + ' + adj]))
        f = fac
        if kind == 'mixed':
            f = draw(st.sampled_from(FACTORS + ['', '']))
        r = draw(term(fn, u, f, solved)) + draw(offset(solved))
        if kind == 'offset' and draw(st.booleans()):
            r += ' + ' + draw(st.sampled_from(['d_5', 'sin(th_5)', 'l_1*cos(th_5)']))
        if kind == 'entangled' and draw(st.booleans()):
            r += ' + ' + draw(st.sampled_from(['l_1*%s', 'a_2*cos(%s + th_2)', 'sin(%s - th_2)', 'l_1*cos(2*%s)', '-a_3*sin(%s + al_1)', 'd_3*cos(%s/2)'])) % u
        if kind == 'square':
            r += ' + %s(%s)**2' % (fn, u)
        if draw(st.integers(0, 5)) == 0:
            lhs, r = r, lhs
        if kind == 'onlysin':
            r, lhs = r.replace('cos(%s)' % u, 'sin(%s)' % u), lhs.replace('cos(%s)' % u, 'sin(%s)' % u)
        pair.append([lhs, r, kind])
    extra = []
    if kind in ('offset', 'entangled', 'square', 'mixed') and draw(st.integers(0, 2)) == 0:      # and a usable pair as well
        for fn, adj in (('sin', 'Py'), ('cos', 'r_31')):
            if draw(st.integers(0, 3)):
                extra.append([adj, draw(term(fn, u, '', solved)) + draw(offset(solved)), 'good'])
    for _ in range(draw(st.integers(0, 2))):
        extra.append(draw(st.sampled_from([
            ['r_31', 'l_1*sin(%s) + l_2*cos(%s)' % (u, u), 'both'], ['r_31', 'sin(th_5)', 'other'], ['r_31', 'l_1*%s + l_2' % u, 'linear'],
            ['r_31', 'sin(%s)*cos(%s)' % (u, u), 'product'], ['r_31', 'd_5*l_1 + cos(th_5)*sin(th_5)', 'other'],
            ['r_31', 'sin(%s)*d_5 + l_1' % u, 'sinother'], ['r_31', 'cos(%s)*sin(th_5)' % u, 'cosother'], ['r_31', 'sin(%s + th_5)' % u, 'sum']])))
    eqs_ = [list(x) for x in draw(st.permutations(pair + extra))]
    return dict(u=u, solved=solved, others=others, eqs=eqs_, rot=draw(st.integers(0, 5)), presolved=draw(st.integers(0, 9)) == 0, note=draw(eqs.NOTES))


def usable_pair(L, u, unknowns):
    """a pair sin/cos with known coefficients, written as sums, whose only unsolved unknown is u"""
    sin_, cos_ = [], []
    for e in L:
        f = eqs.F(e)
        if not f.has(sp.sin(u.symbol)) and not f.has(sp.cos(u.symbol)):
            continue
        d = eqs.sincosform(f, u.symbol)
        if d is None or any(v is not u and not v.solved and f.has(v.symbol) for v in unknowns):
            continue
        if d[0] != 0 and d[1] == 0:
            sin_.append(e)
        if d[1] != 0 and d[0] == 0:
            cos_.append(e)
    return bool(sin_ and cos_)


def run(case):
    R, unknowns, u, E = eqs.build(case)
    if case['presolved']:
        leaf.solve(u, R, unknowns, [sp.Symbol('l_2')])
    bb = leaf.board(R, unknowns, E, u)
    L = list(bb.get('eqns_1u')) + list(bb.get('eqns_2u'))
    src = [(sp.sympify(e.LHS), sp.sympify(e.RHS)) for e in E]
    before = eqs.snapshot(unknowns)
    s = leaf.tick(bb, tan_id(), tan_solve())
    after = eqs.snapshot(unknowns)
    expect(src == [(sp.sympify(e.LHS), sp.sympify(e.RHS)) for e in E], 'the equations were changed: %s', E)
    for v, a, b in zip(unknowns, before, after):
        if v is not u:
            expect(a == b, 'another unknown was changed: %s', eqs.diff([a], [b]))
    if case['presolved']:
        expect(s == b3.FAILURE and before == after, 'an already solved unknown was claimed: %s', eqs.diff(before, after))
        return 'already solved'
    if s != b3.SUCCESS:
        expect(not u.solutions and not u.tan_solutions and not u.solved, 'failed but recorded %s', u.solutions)
        expect(not usable_pair(L, u, unknowns), '%s is not solved although %s contain its sine and cosine with known coefficients', u, L)
        return 'left alone' if any(eqs.F(e).has(u.symbol) for e in L) else False
    expect(u.solutions and u.solutions == u.tan_solutions and len(u.solutions) == u.nsolutions and len(u.solutions) in (1, 2), 'solutions %s (%s)', u.solutions, u.tan_solutions)
    for x in u.solutions:
        expect(not eqs.free_ok(x, unknowns, u), 'solution %s of %s refers to unsolved unknowns', x, u)
    expect(len(u.tan_eqnlist) == 2, 'recorded equations %s', u.tan_eqnlist)
    # which of the offered equations were used
    used = []
    for q in u.tan_eqnlist:
        m = [e for e in L if sp.expand(eqs.F(e) - eqs.F(q)) == 0 or sp.expand(eqs.F(e) + eqs.F(q)) == 0]
        expect(m, 'recorded equation %s is none of those offered: %s', q, L)
        used.append(m[0])
    rng = random.Random(13)
    n, signs = 0, set()
    for k in range(8):
        env_ = eqs.rand_env(rng)
        theta = rng.uniform(-3.1, 3.1)
        env_['d_5'] = rng.choice([-1, 1]) * env_['d_5']
        ok = True
        for e in used:
            f = eqs.F(e)
            adj = [a for a in eqs.ADJ if f.has(sp.Symbol(a))]
            ok = ok and adj and eqs.fit(f, u.symbol, theta, env_, adj[0])
        if not ok or not all(abs(num.ev(eqs.F(e), env_)) < 1e-6 for e in used):
            continue
        d = [eqs.sincosform(eqs.F(e), u.symbol) for e in used]
        mags = [max(abs(num.ev(a, env_)), abs(num.ev(b, env_))) for a, b, c in d]
        if min(mags) < 1e-3:
            continue
        e2 = dict(env_)
        e2.pop(u.name)
        got = [num.ev(x, e2) for x in u.solutions]
        expect(any(num.adiff(g, theta) < 1e-5 / min(1, min(mags)) for g in got), '%s = %s does not contain the true angle %s at a pose (values %s); equations %s',
               u, u.solutions, theta, got, used)
        n += 1
    sols = list(u.solutions)
    unk = [v for v in unknowns if v is not u and not v.solved and any(eqs.F(e).has(v.symbol) for e in used)]
    if not unk:
        expect(len(sols) == 1, 'one angle satisfies %s, but %d solutions were recorded: %s', used, len(sols), sols)
    else:
        expect(len(sols) == 2, 'a factor of unknown sign (%s) was cancelled, but only %s was recorded', unk, sols)
    expect(leaf.tick(bb, rank()) == b3.SUCCESS and u.solved and u.solutions == sols and u.nsolutions == len(sols), 'after ranking: %s', u.solutions)
    return n > 0 and ['single' if len(sols) == 1 else 'pair']


SUBS = [Sub('tan', cases(), run)]
if __name__ == '__main__':
    main('C09', SUBS, 'a sine and a cosine equation with random known coefficients, offsets and common (or differing) factors of unknown sign, on either side and with '
         'either sign, mixed with up to two other equations in any order; solutions evaluated at poses chosen first (target entries adjusted so that the '
         'equations hold); non-trivial: evaluated at a pose or an equation with the unknown offered and declined', quick=30, thorough=400)
