"""Generated equations for the solver leaves, and their numeric oracles."""
import math, random
import sympy as sp
from hypothesis import strategies as st
from . import leaf, num

CONST = ['l_1', 'l_2', 'a_1', 'r_11', 'r_12', 'Px', '2', '3', '1/2', 'l_3']
SOLV = {'th_2': ['cos(th_2)', 'sin(th_2)'], 'th_3': ['sin(th_3)', 'cos(th_3)'], 'd_3': ['d_3'], 'th_4': ['cos(th_4)', 'sin(th_4)']}
SOLNS = {'th_2': [['atan2(Px, Py)'], ['asin(r_33)', 'pi - asin(r_33)']], 'th_3': [['acos(r_33)', '-acos(r_33)'], ['atan2(Py, Pz)']],
         'd_3': [['Pz - l_1'], ['Px/l_2']], 'th_4': [['atan2(r_13, r_23)']]}
ADJ = ['Pz', 'r_23', 'r_31', 'Py']      # adjusted so that an equation holds at a chosen pose; one per equation


NOTES = st.sampled_from(['', '', '', '', 'x2z2 transform', 'x2z2 transform and ', ', '])


@st.composite
def solved_set(draw, never=()):
    out = []
    for n in ['th_2', 'th_3', 'd_3', 'th_4']:
        if n not in never and draw(st.integers(0, 2)) > 0:
            out.append([n, draw(st.sampled_from(SOLNS[n]))])
    return out


@st.composite
def coef(draw, solved, simple=False, number=False):
    """nonzero known factor, as text without a leading sign"""
    atoms = CONST + [a for n, _ in solved for a in SOLV[n]] * 2
    k = 1 if simple else draw(st.sampled_from([1, 1, 2]))
    fs = [draw(st.sampled_from(atoms)) for _ in range(k)]
    return '*'.join(fs)


@st.composite
def scoef(draw, solved):
    """signed factor"""
    return draw(st.sampled_from(['', '-', '-', ''])) + '(' + draw(coef(solved)) + ')'


@st.composite
def sumcoef(draw, solved, n=2):
    """list of signed factors (a sum), distinct so that they do not cancel"""
    fs = draw(st.lists(coef(solved), min_size=1, max_size=n, unique_by=lambda t: str(leaf.expr(t))))
    fs = [f for i, f in enumerate(fs) if not any(sp.sympify(leaf.expr(f) / leaf.expr(g)).is_number for g in fs[:i])]
    return [draw(st.sampled_from(['', '-'])) + '(' + f + ')' for f in fs]


@st.composite
def linear_in(draw, x, solved):
    """text  A*x + B, expanded (each addend of A times x), nonzero A"""
    A = draw(sumcoef(solved))
    style = draw(st.sampled_from(['bare', 'expanded', 'expanded', 'factored']))
    if style == 'bare':
        t = draw(st.sampled_from(['', '-'])) + x
    elif style == 'factored':
        t = '(' + ' + '.join(A) + ')*' + x
    else:
        t = ' + '.join('%s*%s' % (a, x) for a in A)
    B = [] if draw(st.integers(0, 2)) == 0 else draw(sumcoef(solved))
    return ' + '.join([t] + B)


def build(case, extra=()):
    """case: u, solved [[name, sols]], eqs [[l, r, kind]], others [names]"""
    import ikbtbasics.ik_classes as ic
    import ikbtbasics.kin_cl as kc
    R = ic.Robot()
    names = [case['u']] + [n for n, _ in case['solved']] + list(case['others'])
    names.sort(key=lambda n: (n[0] != 't', n))
    k = case.get('rot', 0) % len(names)
    names = names[k:] + names[:k]
    unknowns = [leaf.unknown(n) for n in names]
    by = {u.name: u for u in unknowns}
    by[case['u']].solvemethod = case.get('note', '')    # what earlier steps (a transform, say) noted about it
    for n, sols in case['solved']:
        leaf.solve(by[n], R, unknowns, [leaf.expr(s) for s in sols])
    eqs = [kc.kequation(leaf.expr(l), leaf.expr(r)) for l, r, *_ in case['eqs']]
    return R, unknowns, by[case['u']], eqs


def snapshot(unknowns):
    out = []
    for u in unknowns:
        d = {}
        for k, v in vars(u).items():
            d[k] = repr(sorted(map(str, v))) if isinstance(v, set) else repr(v)
        out.append(d)
    return out


def diff(a, b):
    return ['%s.%s: %s -> %s' % (x['name'], k, x.get(k), y.get(k)) for x, y in zip(a, b) for k in sorted(set(x) | set(y)) if x.get(k) != y.get(k)]


def F(e):
    return sp.sympify(e.RHS) - sp.sympify(e.LHS)


def has_trig(f, s):
    return any(a.has(s) for a in f.atoms(sp.sin, sp.cos, sp.tan))


def rand_env(rng, names=None):
    d = {}
    for n in leaf.LOC:
        if n.startswith('th'):
            d[n] = rng.uniform(-3.1, 3.1)
        elif n.startswith('r_'):
            d[n] = rng.uniform(-0.95, 0.95)
        elif n.startswith('P'):
            d[n] = rng.uniform(-2, 2)
        else:
            d[n] = rng.uniform(0.3, 2.0)
    return d


def linear(f, s):
    """f is A*s + B with A not identically zero, s in no trigonometric function"""
    if not f.has(s) or has_trig(f, s):
        return False
    g = sp.expand(f)
    if not g.has(s):
        return False
    try:
        p = sp.Poly(g, s)
    except sp.PolynomialError:
        return False
    if p.degree() != 1 or any(c.has(s) for c in p.all_coeffs()):
        return False
    return abs(num.ev(p.all_coeffs()[0], rand_env(random.Random(5)))) > 1e-12


def fit(f, s, theta, env, adj):
    """adjust env[adj] so that f (linear in adj) is zero at s=theta"""
    env[str(s)] = theta
    env[adj] = 0.0
    f0 = num.ev(f, env)
    env[adj] = 1.0
    f1 = num.ev(f, env)
    if abs(f1 - f0) < 1e-9:
        return False
    env[adj] = -f0 / (f1 - f0)
    return abs(num.ev(f, env)) < 1e-7 * (1 + abs(env[adj]))


def free_ok(sol, unknowns, u):
    """names of unsolved unknowns (or u itself) in a solution"""
    return [v.name for v in unknowns if sp.sympify(sol).has(v.symbol) and (v is u or not v.solved)]


def sincosform(f, s):
    """numbers-free test that f = a*sin(s) + b*cos(s) + c; returns (a, b, c) expressions or None"""
    S, C = sp.Dummy('S'), sp.Dummy('C')
    g = sp.expand(f).subs({sp.sin(s): S, sp.cos(s): C}, simultaneous=True)
    if g.has(s):
        return None
    try:
        p = sp.Poly(g, S, C)
    except sp.PolynomialError:
        return None
    if p.total_degree() > 1 or any(c.has(S) or c.has(C) for c in p.coeffs()):
        return None
    a, b, c = p.coeff_monomial(S), p.coeff_monomial(C), p.coeff_monomial(1)
    return a, b, c


def sameset(vals, want, tol=1e-6):
    """two sets of angles modulo a full turn"""
    return all(any(num.adiff(v, w) < tol for w in want) for v in vals) and all(any(num.adiff(v, w) < tol for v in vals) for w in want)
