"""Generated solution histories: unknowns solved one after the other, with formulas in constants,
target entries and earlier unknowns, and an independent evaluation of all their combinations."""
import itertools, math, random
import numpy as np
import sympy as sp
from hypothesis import strategies as st
from . import leaf, num, eqs

NAMES = ['th_1', 'th_2', 'th_3', 'th_4', 'th_5', 'th_6', 'd_1', 'd_2', 'd_3', 'th_12', 'th_23', 'th_34', 'th_234', 'th_56']
PAR = ['l_1', 'a_2', 'd_4', 'l_3', 'h', 'ca_1']
for n in PAR + ['ca_1', 'sa_1']:
    leaf.LOC.setdefault(n, sp.Symbol(n))
for n in NAMES:
    leaf.LOC.setdefault(n, sp.Symbol(n))
TARGET = leaf.TARGET


@st.composite
def small(draw, earlier, pars):
    """a factor of absolute value at most 1 at a rigid pose"""
    c = ['r_11', 'r_23', 'r_33', 'r_12', '1/2', 'r_31']
    c += ['%s(%s)' % (f, n) for n in earlier if n[0] == 't' for f in ('sin', 'cos')] * 2
    return '*'.join(draw(st.lists(st.sampled_from(c), min_size=1, max_size=3)))


@st.composite
def any_(draw, earlier, pars, top=True):
    c = ['Px', 'Py', 'Pz', 'r_11', 'r_32', '2', 'r_13'] + pars * 2 + ['%s(%s)' % (f, n) for n in earlier if n[0] == 't' for f in ('sin', 'cos')] + [n for n in earlier if n[0] == 'd'] * 2
    t = '*'.join(draw(st.lists(st.sampled_from(c), min_size=1, max_size=3)))
    if draw(st.integers(0, 3)) == 0:
        t += '**2'
    if top and draw(st.booleans()):
        t = '%s %s %s' % (t, draw(st.sampled_from(['+', '-'])), draw(any_(earlier, pars, False)))
    return draw(st.sampled_from(['', '', '-'])) + '(' + t + ')'


@st.composite
def formulas(draw, name, earlier, pars, shapes=None):
    """[solutions] for one unknown: one or two formulas as the solvers produce them"""
    a, b = any_(earlier, pars), small(earlier, pars)
    if name[0] == 'd':
        return [draw(st.sampled_from(['%s', '%s/2', '(%s)/l_1' if 'l_1' in pars else '%s*2'])) % draw(a)]
    ths = [n for n in earlier if n[0] == 't']
    kinds = ['atan', 'atan2', 'unequal', 'asin', 'acos', 'asinbig', 'sac', 'alg', 'saczero', 'atanpi', 'several'] + (['soa', 'soa'] if ths else [])
    k = draw(st.sampled_from(shapes or kinds))
    if k == 'atan':
        return ['atan2(%s, %s)' % (draw(a), draw(a))]
    if k == 'atan2':
        x, y = draw(a), draw(a)
        return ['atan2(%s, %s)' % (x, y), 'atan2(-(%s), -(%s))' % (x, y)]
    if k == 'unequal':                       # the two solutions mention different unknowns
        return draw(st.permutations(['atan2(%s, %s)' % (draw(a), draw(a)), draw(st.sampled_from(['pi/3', '-1/2', 'atan2(%s, %s)' % (draw(a), draw(a))]))]))
    if k == 'atanpi':
        x, y = draw(a), draw(a)
        return ['atan2(%s, %s)' % (x, y), 'atan2(%s, %s) + pi' % (x, y)]
    if k in ('asin', 'asinbig'):
        x = draw(b) if k == 'asin' else '%s/3' % draw(a)
        return ['asin(%s)' % x, 'pi - asin(%s)' % x]
    if k == 'several':
        return [' '.join('%s%s(%s)' % (draw(st.sampled_from('+-')), draw(st.sampled_from(['asin', 'acos'])), draw(st.one_of(b, a.map(lambda x: '%s/3' % x)))) for _ in range(draw(st.integers(2, 4))))]
    if k == 'acos':
        x = draw(b)
        return ['acos(%s)' % x, '-acos(%s)' % x]
    if k == 'sac':
        x, y, z = draw(a), draw(a), draw(a)
        r = 'sqrt((%s)**2 + (%s)**2)' % (x, y) if draw(st.booleans()) else 'sqrt((%s)**2 + (%s)**2 + 1 - (%s)**2)' % (x, y, draw(b))
        return ['atan2(%s, %s) + atan2(%s, %s)' % (x, y, r, z), 'atan2(%s, %s) + atan2(-%s, %s)' % (x, y, r, z)]
    if k == 'saczero':
        x, y = draw(a), draw(a)
        return ['atan2(-(%s), %s)' % (x, y), 'atan2(-(%s), %s) + pi' % (x, y)]
    if k == 'alg':
        return [draw(a)]
    return [' '.join(['%s%s' % (draw(st.sampled_from(['+', '-'])), n) for n in draw(st.lists(st.sampled_from(ths), min_size=1, max_size=2, unique=True))])]


@st.composite
def histories(draw, max_unknowns=6, max_two=4, pars=True, min_unknowns=1):
    order = draw(st.permutations(NAMES))
    n = draw(st.integers(min_unknowns, max_unknowns))
    p = draw(st.lists(st.sampled_from(PAR), max_size=4, unique=True)) if pars else []
    out, two = [], 0
    for k in range(n):
        earlier = [x for x, _ in out]
        if earlier and draw(st.booleans()):
            earlier = earlier[-2:]
        f = draw(formulas(order[k], earlier, p))
        if len(f) == 2:
            two += 1
            if two > max_two:
                f = f[:1]
        out.append([order[k], f])
    listed = draw(st.permutations([x for x, _ in out]))
    return dict(steps=out, params=p, listed=listed)


@st.composite
def wide(draw, max_two=7, max_unknowns=14, deps=True):
    """many unknowns or many combinations, simple formulas: the size of the table"""
    two = draw(st.integers(0, max_two))
    n = draw(st.integers(max(1, two), max(max_unknowns, two)))
    order = draw(st.permutations(NAMES))[:n]
    steps = []
    for k, x in enumerate(order):
        dep = ''.join(' + ' + x for x in (order[:k] if deps == 'all' else order[max(0, k - 1):k] if deps else ()))
        steps.append([x, ['atan2(Px + %d, Py)' % k, 'atan2(-Px - %d, -Py)' % k] if k < two else ['Pz + %d' % k + dep]])
    return dict(steps=steps, params=[], listed=order)


def build(case, unsolved=(), R=None):
    """Robot with the unknowns of the history solved in order"""
    import ikbtbasics.ik_classes as ic
    R = R or ic.Robot()
    unknowns = [leaf.unknown(n) for n in list(case['listed']) + list(unsolved)]
    by = {u.name: u for u in unknowns}
    for n, sols in case['steps']:
        leaf.solve(by[n], R, unknowns, [leaf.expr(s) for s in sols])
    return R, unknowns, by


def target(rng, reach=1.5):
    """random rigid target pose as environment"""
    T = num.rotz(rng.uniform(-3, 3)) @ num.roty(rng.uniform(-3, 3)) @ num.rotx(rng.uniform(-3, 3))
    T = T.copy()
    T[:3, 3] = [rng.uniform(-reach, reach) for _ in range(3)]
    return T


def border_target(case, rng, vals, reach=1.5):
    """a target pose very near the border of where all asin/acos arguments are in range, or None"""
    if not any('asin' in f or 'acos' in f for _, sols in case['steps'] for f in sols) or math.prod(len(s) for _, s in case['steps']) > 8:
        return None
    th, p = [rng.uniform(-3, 3) for _ in range(3)], np.array([rng.uniform(-reach, reach) for _ in range(3)])

    def pose(s):
        T = (num.rotz(s * th[0]) @ num.roty(s * th[1]) @ num.rotx(s * th[2])).copy()
        T[:3, 3] = s * p
        return T

    def ok(s):
        e = num.target_env(pose(s))
        e.update(vals)
        return domain_ok(case, e)
    last = None
    for s in (0.02, 0.2, 0.5, 1.0, 1.6, 2.5):
        v = ok(s)
        if v is not None and last is not None and v != last[1]:
            lo, hi, vlo = last[0], s, last[1]
            for _ in range(rng.randrange(8, 22)):
                mid = (lo + hi) / 2
                v = ok(mid)
                if v is None:
                    break
                if v == vlo:
                    lo = mid
                else:
                    hi = mid
            return pose(rng.choice([lo, hi]))
        if v is not None:
            last = (s, v)
    return None


def param_values(case, rng):
    """short and long decimals, large and small values, whole numbers"""
    out = {}
    for p in case['params']:
        k = rng.randrange(9)
        x = rng.uniform(0.4, 1.8)
        out[p] = round(x, 4) if k < 3 else x if k < 5 else rng.randrange(1, 5) if k == 5 else rng.uniform(100, 3000) if k == 6 else rng.uniform(0.001, 0.05) if k == 7 else 2.5e-10
    return out


def evaluate(case, env):
    """independent enumeration of all combinations of solutions: list of (choice tuple, {name: value or None})
    where None means that some needed value is undefined"""
    combos = list(itertools.product(*[range(len(s)) for _, s in case['steps']]))
    memo = {}
    out = []
    for c in combos:
        d = dict(env)
        vals = {}
        for k, (n, sols) in enumerate(case['steps']):
            key = c[:k + 1]
            if key not in memo:
                try:
                    memo[key] = num.ev(leaf.expr(sols[c[k]]), {x: v for x, v in d.items() if v is not None})
                except (num.Undefined, num.Unbound):
                    memo[key] = None
            d[n] = vals[n] = memo[key]
        out.append((c, vals))
    return out


def domain_ok(case, env):
    """False if the argument of an asin/acos of any combination is out of range, None if that is not decided
    (an argument near the border, or depending on an undefined value), else True"""
    res = True
    for c, vals in evaluate(case, env):
        d = dict(env)
        d.update({k: v for k, v in vals.items() if v is not None})
        for (n, sols), i in zip(case['steps'], c):
            e = leaf.expr(sols[i])
            for f in e.atoms(sp.asin, sp.acos):
                try:
                    x = num.ev(f.args[0], d)
                except (num.Undefined, num.Unbound):
                    res = None if res else res
                    continue
                if abs(abs(x) - 1) < 1e-9:
                    res = None if res else res
                elif abs(x) > 1:
                    res = False
    return res


def only_domain(case, env):
    """every formula that has no value at the pose, although all it uses has one, fails in the argument of an asin/acos only"""
    for c, vals in evaluate(case, env):
        d = dict(env)
        d.update({k: v for k, v in vals.items() if v is not None})
        for (n, sols), i in zip(case['steps'], c):
            e = leaf.expr(sols[i])
            if vals[n] is not None or any(s.name in vals and vals[s.name] is None for s in e.free_symbols):
                continue
            e = sp.sympify(e)
            try:
                for f in e.atoms(sp.asin, sp.acos):
                    num.ev(f.args[0], d)
                num.ev(e.replace(lambda x: isinstance(x, (sp.asin, sp.acos)), lambda x: sp.pi / 7), d)
            except (num.Undefined, num.Unbound):
                return False
    return True


def near(name, a, b, tol):
    """equal values; angles modulo a full turn (an arctangent on its branch cut gives either end)"""
    a, b = float(a), float(b)
    if name[0] == 't' and math.isfinite(a) and math.isfinite(b) and abs(math.remainder(a - b, 2 * math.pi)) < tol * (1 + abs(b)):
        return True
    return abs(a - b) < tol * (1 + abs(b))
