import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, num, gens
env.setup()
import ikbtbasics.kin_cl   # before ik_classes (the modules import each other)
import random
import sympy as sp
from hypothesis import strategies as st
import ikbtbasics.kin_cl as kc
import ikbtbasics.ik_classes as ic
from vlib import leaf
from ikbtleaves.sub_transform import sub_transform
from ikbtleaves.x2y2_transform import x2z2_transform
from ikbtleaves.sum_id import sum_id
import b3

TH = ['th_%d' % i for i in range(1, 7)]


def base_env(rng):
    e = {n: rng.uniform(-3, 3) for n in leaf.JOINTS + leaf.TARGET}
    e.update({n: rng.uniform(0.4, 2.2) for n in leaf.PARAMS})
    return e


# ---------------------------------------------------------------- sums of angles
@st.composite
def angle(draw):
    k = draw(st.sampled_from(['one', 'one', 'sum2', 'sum2', 'sum2', 'sum3', 'diff', 'double', 'off', 'mixed', 'neg']))
    a, b, c = draw(st.permutations(TH))[:3]
    if draw(st.integers(0, 3)):
        i = draw(st.integers(0, 3))
        a, b, c = TH[i:i + 3]
    return dict(one=a, sum2='%s+%s' % (a, b), sum3='%s+%s+%s' % (a, b, c), diff='%s-%s' % (a, b), double='2*%s' % a,
                off='%s+al_1' % a, mixed='%s+%s-%s' % (a, b, c), neg='-%s-%s' % (a, b))[k]


@st.composite
def term(draw):
    f = [draw(st.sampled_from(['sin', 'cos'])) + '(' + draw(angle()) + ')' for _ in range(draw(st.integers(1, 2)))]
    c = draw(st.sampled_from(['1', '-1', 'l_1', '-l_2', 'a_2', '2', 'd_3', 'a_3*l_4']))
    return '*'.join([c] + f)


exprs = st.lists(term(), min_size=1, max_size=3).map('+'.join)


def check_vars(R, unknowns, before):
    names = [str(u.symbol) for u in unknowns]
    expect(len(set(names)) == len(names), 'an unknown appears twice: %s', names)
    ns = [u.n for u in unknowns]
    expect(names[:len(before)] == before, 'the original unknowns changed: %s -> %s', before, names)
    defs = {}
    for e in R.kequation_aux_list:
        expect(sp.sympify(e.LHS).is_Symbol, 'definition with a non-symbol left side: %s', e)
        defs.setdefault(str(e.LHS), []).append(e)
    for n in names[len(before):]:
        expect(len(defs.get(n, [])) == 1, 'new variable %s has %d definitions: %s', n, len(defs.get(n, [])), R.kequation_aux_list)
    for n in defs:
        expect(n in names, 'defined variable %s is not an unknown', n)

    def expand(e, depth=0):
        expect(depth < 6, 'circular definition of %s', e)
        e = sp.sympify(e)
        for s in list(e.free_symbols):
            if s.name in defs:
                e = e.subs(s, expand(defs[s.name][0].RHS, depth + 1))
        return e
    for n in defs:
        c = sp.expand(expand(sp.Symbol(n)))
        co = c.as_coefficients_dict()
        expect(len(co) >= 2 and all(k.is_Symbol and str(k) in before and v == 1 for k, v in co.items()),
               'variable %s stands for %s, which is not a sum of distinct joint variables', n, c)
    for u in unknowns[len(before):]:
        expect(not u.solved and not u.solutions, 'new variable %s is already solved', u)


def has_new(M, before):
    return any(s.name.startswith('th_') and s.name not in before for s in M.free_symbols)


def soa_sub(case):
    R = ic.Robot()
    unknowns = [leaf.unknown(n) for n in TH] + [leaf.unknown('d_3', 7)]
    before = [str(u.symbol) for u in unknowns]
    rng = random.Random(case['seed'])
    nt = False
    pairs = []
    for s in case['exprs']:
        e0 = leaf.expr(s)
        out = ic.sum_of_angles_sub(R, e0, unknowns)
        expect(isinstance(out, tuple) and len(out) == 3, 'result is %r', out)
        pairs.append((e0, out[0]))
        # repeated application on its own result
        again = ic.sum_of_angles_sub(R, out[0], unknowns)
        pairs.append((e0, again[0]))
        nt = nt or out[0] != e0
    check_vars(R, unknowns, before)
    for _ in range(3):
        e = leaf.soa_env(R, base_env(rng))
        for a, b in pairs:
            expect(num.close(num.ev(b, e), num.ev(a, e)), '%s was rewritten to %s, which has another value (definitions %s)', a, b, R.kequation_aux_list)
    return nt


def fill(case, R):
    """one matrix equation per entry list; entries {position: expression} on either side"""
    meqs = []
    for spec in case['meqs']:
        Td, Ts = sp.zeros(4), sp.zeros(4)
        for i in range(3):
            for j in range(4):
                Td[i, j] = sp.Symbol('Td%d%d' % (i, j))
        for i, j, s, side in spec:
            if side:
                Td[i, j] = leaf.expr(s)
                Ts[i, j] = sp.Symbol('Td%d%d' % (i, j))
            else:
                Ts[i, j] = leaf.expr(s)
        meqs.append(kc.matrix_equation(Td, Ts))
    R.mequation_list = meqs
    return [(m.Td.copy(), m.Ts.copy()) for m in meqs]


def same_meqs(old, R, rng, what, envs=2):
    expect(len(R.mequation_list) == len(old), 'number of matrix equations changed')
    for _ in range(envs):
        e = base_env(rng)
        for i in range(3):
            for j in range(4):
                e['Td%d%d' % (i, j)] = rng.uniform(-2, 2)
        e = leaf.soa_env(R, e)
        for (Td, Ts), m in zip(old, R.mequation_list):
            for i in range(4):
                for j in range(4):
                    expect(num.close(num.ev(m.Td[i, j], e), num.ev(Td[i, j], e)) and num.close(num.ev(m.Ts[i, j], e), num.ev(Ts[i, j], e)),
                           '%s changed the meaning of entry %d,%d:\n%s = %s became\n%s = %s\ndefinitions %s', what, i, j, Td[i, j], Ts[i, j], m.Td[i, j], m.Ts[i, j],
                           R.kequation_aux_list)


def soa_robot(case):
    R = ic.Robot()
    unknowns = [leaf.unknown(n) for n in TH] + [leaf.unknown('d_3', 7)]
    before = [str(u.symbol) for u in unknowns]
    old = fill(case, R)
    rng = random.Random(case['seed'])
    R.sum_of_angles_transform(unknowns)
    check_vars(R, unknowns, before)
    same_meqs(old, R, rng, 'sum-of-angles transform')
    n = len(unknowns)
    if case['seed'] % 2:
        R.sum_of_angles_transform(unknowns)
        check_vars(R, unknowns, before)
        same_meqs(old, R, rng, 'second sum-of-angles transform')
    return len(unknowns) > len(before)


def sumid(case):
    R = ic.Robot()
    unknowns = [leaf.unknown(n) for n in TH] + [leaf.unknown('d_3', 7)]
    before = [str(u.symbol) for u in unknowns]
    old = fill(case, R)
    rng = random.Random(case['seed'])
    if case['first']:
        R.sum_of_angles_transform(unknowns)
        check_vars(R, unknowns, before)
    bb = leaf.board(R, unknowns, [])
    for _ in range(2):
        st_ = leaf.tick(bb, sum_id())
        expect(st_ == b3.SUCCESS, 'sum-of-angles leaf returned %s', st_)
        R2, unk2 = bb.get('Robot'), bb.get('unknowns')
        check_vars(R2, unk2, before)
        same_meqs(old, R2, rng, 'sum-of-angles leaf')
    return len(unk2) > len(before)


@st.composite
def meqs(draw, maxe=3):
    out = []
    for _ in range(draw(st.integers(1, 2))):
        ent = draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 3), exprs, st.integers(0, 1)).map(list), min_size=1, max_size=maxe,
                            unique_by=lambda t: (t[0], t[1])))
        out.append(ent)
    return out


# ---------------------------------------------------------------- substitution
@st.composite
def subcase(draw):
    """entries of the full-chain equation in which some entries contain others"""
    atoms = [draw(term()) for _ in range(draw(st.integers(1, 3)))]
    ents = []
    pos = draw(st.permutations([(i, j) for i in range(3) for j in range(4)]))
    for k, p in enumerate(pos[:draw(st.integers(2, 6))]):
        kind = draw(st.integers(0, 5))
        a, b = draw(st.sampled_from(atoms)), draw(st.sampled_from(atoms))
        rest = draw(st.sampled_from(['l_1', 'd_3', 'a_2*cos(th_1)', 'sin(th_5)', '0', 'a_1*d_2']))
        s = [a, '-(%s)' % a, '%s+%s' % (a, rest), '%s-(%s)' % (rest, a), 'l_3*(%s)+%s' % (a, rest), '(%s)*(%s)+%s' % (a, b, rest)][kind]
        ents.append([p[0], p[1], s])
    if draw(st.integers(0, 3)) == 0:
        p = pos[-1]
        ents.append([p[0], p[1], draw(st.sampled_from(['1', '-1', '0', 'l_1']))])
    return dict(ents=ents, solved=draw(st.lists(st.sampled_from(TH), max_size=2, unique=True)), seed=draw(gens.seeds))


def subst(case):
    R = ic.Robot()
    unknowns = [leaf.unknown(n) for n in TH] + [leaf.unknown('d_3', 7), leaf.unknown('d_2', 8)]
    for u in unknowns:
        if str(u.symbol) in case['solved']:
            leaf.solve(u, R, unknowns, [sp.Symbol('a_1')])
    Td, Ts = sp.zeros(4), sp.zeros(4)
    for i in range(3):
        for j in range(4):
            Td[i, j] = sp.Symbol('r_%d%d' % (i + 1, j + 1) if j < 3 else 'P' + 'xyz'[i])
            Ts[i, j] = sp.Symbol('k_1') * (i + 1) + j
    for i, j, s in case['ents']:
        Ts[i, j] = leaf.expr(s)
    m = kc.matrix_equation(Td, Ts)
    other = kc.matrix_equation(Td, Ts)
    R.mequation_list = [m, other]
    old = m.Ts.copy()
    from ikbtfunctions.helperfunctions import count_unknowns
    nold = [len(leaf.unsolved_in(unknowns, x)) for x in old]
    bb = leaf.board(R, unknowns, [])
    st_ = leaf.tick(bb, sub_transform())
    expect(st_ == b3.SUCCESS, 'substitution leaf returned %s', st_)
    m2 = bb.get('Robot').mequation_list[0]
    rng = random.Random(case['seed'])
    for _ in range(2):
        e = base_env(rng)
        for i in range(3):
            for j in range(4):
                e[str(Td[i, j])] = num.ev(old[i, j], e)
        for k, mm in enumerate(bb.get('Robot').mequation_list):
            for i in range(3):
                for j in range(4):
                    expect(num.close(num.ev(mm.Td[i, j], e), num.ev(mm.Ts[i, j], e)),
                           'substitution made entry %d,%d of equation %d false: %s = %s became %s = %s', i, j, k, Td[i, j], old[i, j], mm.Td[i, j], mm.Ts[i, j])
    changed = False
    for x, y, n in zip(old, m2.Ts, nold):
        nn = len(leaf.unsolved_in(unknowns, y))
        expect(nn <= n, 'substitution increased the number of unknowns of %s to %d: %s', x, nn, y)
        changed = changed or x != y
    return changed and 'substituted'


# ---------------------------------------------------------------- squares
@st.composite
def sqcase(draw):
    """two equations  L1 = A cos(x+..)-..., L2 = ...  whose squares add up to an equation in one unknown"""
    flip = draw(st.booleans())
    v = draw(st.sampled_from(['th_23', 'th_23', 'th_23', 'th_34', 'free']))
    signs = [draw(st.sampled_from([1, -1])) for _ in range(2)]
    sides = [draw(st.sampled_from([False, False, False, False, True])) for _ in range(2)]
    extra = draw(st.lists(st.sampled_from(['Px', 'Pz*cos(th_1)', 'a_2*sin(th_2)+Pz', 'Py-sin(th_23)', 'cos(th_4)*Px']), max_size=2))
    return dict(flip=flip, v=v, signs=signs, sides=sides, extra=extra, off=draw(st.sampled_from(['0', '0', 'l_1'])),
                a3=draw(st.sampled_from(['a_3', '0'])), d4=draw(st.sampled_from(['d', 'l_4', '0'])), solved1=draw(st.integers(0, 4)) > 0,
                curr=draw(st.sampled_from(['th_2', 'th_3', 'th_3', 'th_4'])), seed=draw(gens.seeds), order=draw(st.booleans()),
                spare=draw(st.booleans()))


def squares(case):
    L = leaf.LOC
    R = ic.Robot()
    names = ['th_1', 'th_2', 'th_3', 'th_4', 'th_5']
    unknowns = [leaf.unknown(n) for n in names]
    v = case['v']
    if v != 'free':
        unknowns.append(leaf.unknown(v))
        i, j = v[3], v[4]
        R.kequation_aux_list.append(kc.kequation(L[v], L['th_' + i] + L['th_' + j]))
        x, y = L[v], L['th_' + i]
    else:
        x, y = L['th_3'], L['th_2']
    if case['solved1']:
        leaf.solve(unknowns[0], R, unknowns, [L['a_1']])
    if case['spare']:      # something solved that also appears in the result
        leaf.solve(unknowns[4], R, unknowns, [L['a_1']])
    s1 = L['th_1']
    a3, d4 = leaf.expr(case['a3']), {'d': L['l_3'], 'l_4': L['l_4'], '0': sp.S(0)}[case['d4']]
    if a3 == 0 and d4 == 0:
        a3 = L['a_3']
    if case['spare']:
        a3 = a3 * sp.cos(L['th_5'])
    off = leaf.expr(case['off'])
    l1 = sp.cos(s1) * L['Px'] + sp.sin(s1) * L['Py'] - off
    r1 = a3 * sp.cos(x) - d4 * sp.sin(x) + L['a_2'] * sp.cos(y)
    l2 = -L['Pz']
    r2 = a3 * sp.sin(x) + d4 * sp.cos(x) + L['a_2'] * sp.sin(y)
    if case['flip']:
        r1, r2 = r2, r1
    eqs = []
    for k, (l, r) in enumerate(((l1, r1), (l2, r2))):
        l, r = l * case['signs'][k], r * case['signs'][k]
        eqs.append(kc.kequation(r, l) if case['sides'][k] else kc.kequation(l, r))
    n_true = 2
    if case['order']:
        eqs.reverse()
    rng = random.Random(case['seed'])
    naux = len(R.kequation_aux_list)
    bb = leaf.board(R, unknowns, eqs, curr=[u for u in unknowns if str(u.symbol) == case['curr']][0])
    st_ = leaf.tick(bb, x2z2_transform())
    R = bb.get('Robot')
    new = R.kequation_aux_list[naux:]
    if st_ != b3.SUCCESS:
        expect(not new, 'the leaf failed but added %s', new)
        return None
    expect(len(new) == 1, 'the leaf succeeded and added %d equations: %s', len(new), new)
    e1 = new[0]
    expect(len(leaf.unsolved_in(bb.get('unknowns'), e1.LHS, e1.RHS)) == 1, 'the new equation does not have one unsolved unknown: %s', e1)
    for _ in range(3):
        e = base_env(rng)
        if v != 'free':
            e[v] = e['th_' + v[3]] + e['th_' + v[4]]
        e['Pz'] = -num.ev(r2, e)
        e['Px'] = (num.ev(r1, e) - num.ev(sp.sin(s1) * L['Py'] - off, e)) / num.ev(sp.cos(s1), e)
        e = {**e, **{k: vv for k, vv in soa_plain(e).items() if k not in e}}
        expect(num.close(num.ev(e1.LHS, e), num.ev(e1.RHS, e), 1e-6), 'the new equation is false at a pose where both source equations hold:\n%s\nfrom\n%s', e1, eqs)
    return 'new equation'


def soa_plain(e):
    out = {}
    for n in leaf.LOC:
        if n.startswith('th_') and len(n) > 4:
            out[n] = sum(e['th_' + c] for c in n[3:])
    return out


SUBS = [
    Sub('sum_of_angles_expression', st.fixed_dictionaries(dict(exprs=st.lists(exprs, min_size=1, max_size=4), seed=gens.seeds)), soa_sub, weight=2),
    Sub('sum_of_angles_robot', st.fixed_dictionaries(dict(meqs=meqs(), seed=gens.seeds)), soa_robot, weight=3),
    Sub('sum_id_leaf', st.fixed_dictionaries(dict(meqs=meqs(), first=st.booleans(), seed=gens.seeds)), sumid, weight=2),
    Sub('substitution_leaf', subcase(), subst, weight=2),
    Sub('squares_leaf', sqcase(), squares, weight=2),
]
if __name__ == '__main__':
    main('C05', SUBS, 'random trigonometric expressions containing sums of two and three joint angles, differences, multiples and offsets, on both sides of '
         'matrix equations; entry sets in which entries contain each other; position equation pairs in all orders, signs and sides. Non-trivial: '
         'the rewriting changed something', quick=50, thorough=900)
