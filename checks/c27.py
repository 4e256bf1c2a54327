import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, num
env.setup()
import ikbtbasics.kin_cl as kc   # before ik_classes (the modules import each other)
import copy, itertools, pickle, random
import sympy as sp
from hypothesis import strategies as st
from ikbtbasics.solutionGraphV3 import Node, Edge
from vlib import leaf

SYM = ['th_1', 'th_2', 'th_23', 'd_1', 'd_11', 'l_1', 'r_11', 'Px']
for n in SYM:
    leaf.LOC.setdefault(n, sp.Symbol(n))


def symbol(n):
    # th_1!: another symbol of the same name
    return sp.Symbol(n[:-1], real=True) if n.endswith('!') else sp.Symbol(n)


@st.composite
def text(draw, d=2):
    k = draw(st.integers(0, 9)) if d else 0
    if k < 3:
        return draw(st.sampled_from(SYM + ['0', '1', '-1', '2', '1/2', '12', 'pi']))
    if k < 5:
        return '%s(%s)' % (draw(st.sampled_from(['sin', 'cos'])), draw(text(d - 1)))
    if k == 5:
        return '-(%s)' % draw(text(d - 1))
    if k == 6:
        return '(%s)**2' % draw(text(d - 1))
    return '(%s)%s(%s)' % (draw(text(d - 1)), draw(st.sampled_from('++-**')), draw(text(d - 1)))


def value(e, seed):
    rng = random.Random(seed)
    d = {n: rng.uniform(0.3, 2.0) for n in SYM}
    try:
        return num.ev(e, d)
    except num.Undefined:
        return None


def differ(a, b):
    """True: surely different, False: the same formula, None: undecided (same value, written differently)"""
    if a == b:
        return False
    for s in range(3):
        x, y = value(a, s), value(b, s)
        if x is None or y is None:
            return None
        if abs(x - y) > 1e-7 * (1 + abs(x)):
            return True
    return None


def laws(items, same, what):
    """same(i, j): True, False or None (undecided)"""
    n = len(items)
    eq = {}
    for i, j in itertools.product(range(n), repeat=2):
        a, b = items[i], items[j]
        e, ne = a == b, a != b
        expect(isinstance(e, bool) or e in (True, False), 'comparison gives %r', e)
        expect(bool(e) != bool(ne), '%s and %s are %sequal, but != gives %s', a, b, '' if e else 'not ', ne)
        w = same(i, j)
        expect(w is None or bool(e) == w, '%s %s and %s: equality gives %s', what, a, b, e)
        eq[i, j] = bool(e)
    for i in range(n):
        expect(eq[i, i], '%s is not equal to itself', items[i])
        expect(not (items[i] == None) and items[i] != None and not (None == items[i]), '%s is equal to nothing' % items[i])      # noqa
        for j in range(n):
            expect(eq[i, j] == eq[j, i], 'equality of %s and %s is not symmetric', items[i], items[j])
            for k in range(n):
                expect(not (eq[i, j] and eq[j, k]) or eq[i, k], 'equality of %s, %s and %s is not transitive', items[i], items[j], items[k])
    certain = all(same(i, j) is not None for i in range(n) for j in range(n))
    for i, j in itertools.product(range(n), repeat=2):
        if same(i, j) is True:
            expect(hash(items[i]) == hash(items[j]), '%s and %s are equal but have different hashes', items[i], items[j])
            expect(items[i] in {items[j]}, '%s is not found in a set with %s', items[i], items[j])
        if same(i, j) is False:
            expect(items[i] not in {items[j]} and items[i] not in [items[j]], '%s is found in a set with %s', items[i], items[j])
    if certain:
        classes = []
        for i in range(n):
            if not any(same(i, j) for j in classes):
                classes.append(i)
        expect(len(set(items)) == len(classes), 'a set of %s has %d elements instead of %d', items, len(set(items)), len(classes))
    return eq


def equations(case):
    es = [(leaf.expr(a), leaf.expr(b)) for a, b in case]
    items = [kc.kequation(a, b) for a, b in es]
    items = items + [pickle.loads(pickle.dumps(items[0]))]
    es.append(es[0])

    def same(i, j):
        d = [differ(es[i][k], es[j][k]) for k in (0, 1)]
        return False if True in d else None if None in d else True
    laws(items, same, 'equations')
    out = []
    for i, j in itertools.combinations(range(len(case)), 2):
        s = same(i, j)
        out.append({True: 'equal', False: 'different', None: 'same value'}[s])
    return sorted(set(out))


@st.composite
def eqlists(draw):
    sides = draw(st.lists(text(), min_size=1, max_size=4))
    pick = st.sampled_from(sides + ['0', 'Px'])
    return draw(st.lists(st.tuples(pick, pick).map(list), min_size=2, max_size=5))


def unknowns(case):
    items = []
    for n, k, solved in case:
        u = kc.unknown(symbol(n))
        u.n, u.solved = k, bool(solved)
        items.append(u)
    items.append(pickle.loads(pickle.dumps(items[0])))
    names = [c[0] for c in case] + [case[0][0]]
    laws(items, lambda i, j: names[i] == names[j], 'unknowns')
    for u, n in zip(items, names):
        expect(u.symbol == symbol(n) and str(u) == n.rstrip('!'), 'unknown %s is shown as %s', n, u)
    return len(set(names)) < len(case) and 'repeated' or 'all different'


def nodes(case):
    items = []
    for n, k, _ in case:
        x = Node(kc.unknown(symbol(n)))
        x.solveorder = k
        items.append(x)
    names = [c[0] for c in case]
    laws(items, lambda i, j: names[i] == names[j], 'nodes')
    o = [x.solveorder for x in sorted(items)]
    expect(o == sorted(c[1] for c in case), 'nodes sorted by solving order: %s', o)
    return len(set(names)) < len(case) and 'repeated' or 'all different'


def edges(case):
    mk = {'unknown': lambda n: kc.unknown(symbol(n)), 'node': lambda n: Node(kc.unknown(symbol(n))), 'symbol': symbol}[case['of']]
    items = [Edge(mk(a), mk(b), m) if m else Edge(mk(a), mk(b)) for a, b, m in case['edges']]
    keys = [(a, b, m or 1) for a, b, m in case['edges']]
    laws(items, lambda i, j: keys[i] == keys[j], 'edges')
    for (a, b, m), e in zip(case['edges'], items):
        expect(str(e.StartNode) == a.rstrip('!') and str(e.dependsOn) == b.rstrip('!') and a.rstrip('!') in str(e) and b.rstrip('!') in str(e), 'edge %s to %s is %s', a, b, e)
    rev = any((b, a) in [k[:2] for k in keys] and a != b for a, b, _ in keys)
    return ['repeated' if len(set(keys)) < len(keys) else 'all different'] + (['reversed'] if rev else [])


names = st.one_of(st.sampled_from(SYM[:5]), st.sampled_from(SYM[:2] + ['th_1!', 'th_2!']))
SUBS = [Sub('equations', eqlists(), equations, weight=2), Sub('unknowns', st.lists(st.tuples(names, st.integers(0, 6), st.integers(0, 1)).map(list), min_size=2, max_size=6), unknowns, weight=.7),
        Sub('nodes', st.lists(st.tuples(names, st.integers(0, 6), st.just(0)).map(list), min_size=2, max_size=6), nodes, weight=.7),
        Sub('edges', st.fixed_dictionaries(dict(of=st.sampled_from(['unknown', 'node', 'symbol']), edges=st.lists(st.tuples(names, names, st.sampled_from([0, 0, 1, 2])).map(list), min_size=2, max_size=6))),
            edges, weight=1)]
if __name__ == '__main__':
    main('C27', SUBS, 'lists of 2-6 equations, unknowns, nodes and edges over few symbols, with repeated and reversed ones and copies through pickle; laws of equality, hashing, membership; '
         'the oracle is the formula itself and its numerical value; every case is non-trivial (labels give the class)', quick=20, thorough=250, strict=True)
