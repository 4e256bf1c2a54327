import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, num, gens
env.setup()
import ikbtbasics.kin_cl   # before ik_classes (the modules import each other)
import random
import sympy as sp
from hypothesis import strategies as st
import ikbtbasics.kin_cl as kc
import ikbtbasics.ik_classes as ic
import ikbtfunctions.helperfunctions as hf
from vlib import leaf
from ikbtleaves.updateL import updateL
import b3

UNK = ['th_1', 'th_2', 'th_3', 'th_4', 'd_2', 'd_3']
ATOMS = ['th_1', 'sin(th_1)', 'cos(th_2)', 'sin(th_2)', 'th_3', 'sin(th_3+th_4)', 'cos(th_4)', 'd_2', 'd_3', 'l_1', 'a_2', 'Px', 'r_11', 'r_23',
         '0', '1', 'sin(th_23)', 'cos(th_23)', '-Pz', 'cos(th_1+l_1)', 'th_34', '2']


@st.composite
def side(draw):
    k = draw(st.integers(1, 3))
    return ' + '.join('*'.join(draw(st.sampled_from(ATOMS)) for _ in range(draw(st.integers(1, 2)))) for _ in range(k))


@st.composite
def cases(draw):
    pool = draw(st.lists(side(), min_size=2, max_size=7))
    meqs = []
    for _ in range(draw(st.integers(1, 3))):
        meqs.append([[draw(st.sampled_from(pool)) if draw(st.booleans()) else '0', draw(st.sampled_from(pool)) if draw(st.booleans()) else '0']
                     for _ in range(12)])
    soa = draw(st.lists(st.sampled_from([['th_23', 'th_2+th_3'], ['th_34', 'th_3+th_4'], ['th_234', 'th_2+th_3+th_4']]), max_size=2, unique_by=lambda x: x[0]))
    hist = draw(st.lists(st.integers(0, 8), max_size=4))
    return dict(meqs=meqs, soa=soa, hist=hist)


def same(a, b):
    return sp.sympify(a.LHS) == sp.sympify(b.LHS) and sp.sympify(a.RHS) == sp.sympify(b.RHS)


def nunk(unknowns, e):
    return len(leaf.unsolved_in(unknowns, e.LHS)) + len(leaf.unsolved_in(unknowns, e.RHS))


def length(e):
    return int(sp.count_ops(e.LHS)) + int(sp.count_ops(e.RHS))


def build(case):
    R = ic.Robot()
    unknowns = [leaf.unknown(n, i + 1) for i, n in enumerate(UNK)]
    for n, d in case['soa']:
        unknowns.append(leaf.unknown(n))
        R.kequation_aux_list.append(kc.kequation(leaf.LOC[n], leaf.expr(d)))
    for m in case['meqs']:
        Td, Ts = sp.zeros(4), sp.zeros(4)
        for k, (a, b) in enumerate(m):
            Td[k // 4, k % 4] = leaf.expr(a)
            Ts[k // 4, k % 4] = leaf.expr(b)
        R.mequation_list.append(kc.matrix_equation(Td, Ts))
    src = [kc.kequation(m.Td[i, j], m.Ts[i, j]) for m in R.mequation_list for i in range(4) for j in range(4)]
    return R, unknowns, src


def compare(lists, src, defs, unknowns, what, norm=()):
    """lists: three lists; src: matrix equations in order; defs: definitions; norm: definitions allowed in normalised form at the end"""
    for k in (1, 2, 3):
        got = list(lists[k - 1])
        want = []
        for e in src:
            n = nunk(unknowns, e)
            if min(n, 3) == k and not any(same(e, w) for w in want):
                want.append(e)
        order = {id(w): i for i, w in enumerate(want)}
        wd = [d for d in defs if nunk(unknowns, d) == k and k < 3]
        # normalised definitions (0 = lhs - rhs) at the end
        tail = []
        while got and any(is_norm(got[-1], d) for d in norm) and not any(same(got[-1], w) for w in want + wd):
            tail.insert(0, got.pop())
        for d in norm:
            n = len(leaf.unsolved_in(unknowns, d.LHS, d.RHS))
            cnt = sum(1 for t in tail if is_norm(t, d))
            expect(cnt <= 1, '%s: definition %s appears %d times in normalised form in list %d', what, d, cnt, k)
            if cnt:
                expect(n == k, '%s: definition %s with %d unsolved unknowns is in list %d', what, d, n, k)
        for e in got:
            expect(any(same(e, w) for w in want + wd), '%s: list %d contains %s, which is not one of the equations with %d unsolved unknowns', what, k, e, k)
        for w in want:
            c = sum(1 for e in got if same(e, w))
            expect(c >= 1, '%s: equation %s with %d unsolved unknowns (solved: %s) is missing from list %d: %s', what, w, k, [u for u in unknowns if u.solved], k, got)
            expect(c <= 1 + sum(1 for d in wd if same(d, w)), '%s: equation %s is %d times in list %d', what, w, c, k)
        for d in wd:
            expect(any(same(e, d) for e in got), '%s: definition %s with %d unsolved unknowns is missing from list %d: %s', what, d, k, k, got)
        seq = want + [d for d in wd]
        pos = []
        for e in got:
            pos.append((length(e), next(i for i, w in enumerate(seq) if same(e, w))))
        expect([p[0] for p in pos] == sorted(p[0] for p in pos), '%s: list %d is not sorted by length: %s', what, k, [(p[0], e) for p, e in zip(pos, got)])
        expect(pos == sorted(pos), '%s: equations of the same length changed their order in list %d: %s', what, k, got)


def is_norm(e, d):
    return sp.sympify(e.LHS) == 0 and sp.expand(sp.sympify(e.RHS) - (d.LHS - d.RHS)) == 0 or \
        sp.sympify(e.RHS) == 0 and sp.expand(sp.sympify(e.LHS) - (d.LHS - d.RHS)) == 0


def run(case):
    R, unknowns, src = build(case)
    defs = list(R.kequation_aux_list)
    bb = leaf.board(R, unknowns, [])
    sizes = set()
    frozen = [(m.Td.copy(), m.Ts.copy()) for m in R.mequation_list]
    for step in [None] + case['hist']:
        if step is not None:
            u = unknowns[step % len(unknowns)]
            if not u.solved:
                leaf.solve(u, R, unknowns, [sp.Symbol('l_1')])
        L = R.scan_for_equations(unknowns)
        expect(len(L) == 3, 'scan returned %d lists', len(L))
        compare(L, src, defs, unknowns, 'scan')
        expect(all(a[0] == m.Td and a[1] == m.Ts for a, m in zip(frozen, R.mequation_list)), 'scanning changed a matrix equation')
        s = leaf.tick(bb, updateL())
        expect(s == b3.SUCCESS, 'refresh leaf returned %s', s)
        LL = [bb.get(n) for n in ('eqns_1u', 'eqns_2u', 'eqns_3pu')]
        compare(LL, src, defs, unknowns, 'refresh leaf', norm=defs)
        for d in defs:        # a definition with one or two unsolved unknowns is always offered
            n = len(leaf.unsolved_in(unknowns, d.LHS, d.RHS))
            if n in (1, 2):
                expect(any(same(e, d) or is_norm(e, d) for e in LL[n - 1]), 'definition %s with %d unsolved unknowns is not in its list', d, n)
        expect(len(R.kequation_aux_list) == len(defs), 'refreshing changed the definitions')
        sizes.update(i for i in range(3) if L[i])
    return len(sizes) >= 2 and ('with history' if case['hist'] else 'initial')


def single(case):
    R, unknowns, src = build(case)
    for step in case['hist']:
        unknowns[step % len(unknowns)].solved = True
    m = R.mequation_list[0]
    aux = [kc.kequation(leaf.LOC[n], leaf.expr(d)) for n, d in case['soa']]
    src = [kc.kequation(m.Td[i, j], m.Ts[i, j]) for i in range(3) for j in range(4)]
    L = R.scan_Mequation(m, unknowns)
    compare(L, src, [], unknowns, 'scan of one matrix equation')
    for e in src:
        for x in (e.LHS, e.RHS):
            want = [u for u in unknowns if x.has(u.symbol) and not u.solved]
            expect(hf.count_unknowns(unknowns, x) == len(want), 'number of unsolved unknowns in %s is %s', x, hf.count_unknowns(unknowns, x))
            expect(hf.get_unknowns(unknowns, x) == want, 'unsolved unknowns of %s are %s', x, hf.get_unknowns(unknowns, x))
            expect(hf.get_variables(unknowns, x) == [u for u in unknowns if x.has(u.symbol)], 'variables of %s', x)
    for u in unknowns:
        expect(hf.find_obj(u.symbol, unknowns) is u, 'find_obj(%s) is %s', u, hf.find_obj(u.symbol, unknowns))
    expect(hf.find_obj(sp.Symbol('zz_9'), unknowns) is None, 'find_obj of a symbol that is no unknown')
    return any(L)


def rank_order(case):
    es = [kc.kequation(leaf.expr(a), leaf.expr(b)) for a, b in case['eqs']]
    out = ic.erank(list(es))
    expect(len(out) == len(es) and all(sum(1 for o in out if o is e) == sum(1 for x in es if x is e) for e in es), 'ordering lost or repeated an equation: %s -> %s', es, out)
    want = sorted(es, key=length)
    expect(all(a is b for a, b in zip(out, want)), 'order is %s, expected %s', [(length(e), e) for e in out], want)
    return len({length(e) for e in es}) > 1


SUBS = [Sub('history', cases(), run, weight=3), Sub('single_matrix', cases(), single, weight=1),
        Sub('length_order', st.fixed_dictionaries(dict(eqs=st.lists(st.tuples(side(), side()).map(list), max_size=8))), rank_order, weight=1)]
if __name__ == '__main__':
    main('C06', SUBS, 'one to three random matrix equations with repeated entries, sum-of-angle definitions, random histories of unknowns becoming solved '
         '(lists compared after every step); non-trivial: at least two of the three lists are non-empty (history), something listed, different lengths', quick=35, thorough=600, strict=True)
