import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, num, gens
env.setup()
import ikbtbasics.kin_cl   # before ik_classes (the modules import each other)
import math
import numpy as np, sympy as sp
from hypothesis import strategies as st
import ikbtbasics.pykinsym as ks

KINDS = ['float', 'int', 'np.float64', 'np.int64', 'np.float32']


def typed(kind, x):
    """the value as the given numeric type (whole numbers only for the integer types)"""
    if kind == 'float':
        return float(x)
    if kind == 'np.float64':
        return np.float64(x)
    if kind == 'np.float32':
        return np.float32(round(x * 8) / 8)   # exactly representable
    return int(round(x)) if kind == 'int' else np.int64(round(x))


def vector(case):
    """the same vector as the containers a user may have it in"""
    w = [typed(k, x) for k, x in zip(case['kinds'], case['v'])]
    c = case['container']
    return w, {'list': list, 'tuple': tuple, 'array': np.array, 'Matrix': lambda v: sp.Matrix([float(x) for x in v])}[c](w)


def arg(spec):
    """a symbolic argument and the values of its symbols: name of the shape, number"""
    k, x = spec
    a, b = sp.symbols('a_x b_x')
    if k == 'symbol':
        return a, {a: x}
    if k == 'negative':
        return -a, {a: x}
    if k == 'sum':
        return a + b, {a: x, b: .3}
    if k == 'difference':
        return a - b, {a: x, b: .7}
    if k == 'multiple':
        return 2 * a, {a: x}
    if k == 'offset':
        return a + sp.pi / 2, {a: x}
    if k == 'pi':        # exact multiples of 15 degrees
        return sp.pi * (round(x * 12) % 48 - 24) / 12, {}
    if k == 'right':     # exact multiples of 90 degrees
        return sp.pi * (round(x) % 8 - 4) / 2, {}
    if k == 'zero':
        return sp.S.Zero, {}
    if k == 'int':
        return int(round(x)), {}
    if k == 'float':
        return float(x), {}
    if k == 'rational':
        return sp.Rational(round(x * 7), 7), {}


def near(a, b, tol=1e-9):
    a, b = np.asarray(np.array(a).astype(float)), np.asarray(np.array(b).astype(float))
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def sy(M, env):
    return num.evm(sp.Matrix(M), env)


def value(spec):
    e, env = arg(spec)
    return float(e.subs(env)) if hasattr(e, 'subs') else float(e)


def symbolic(specs):
    """arguments with symbols of their own, the values of all symbols, the numbers"""
    out, env = [], {}
    for i, s in enumerate(specs):
        e, v = arg(s)
        ren = {x: sp.Symbol('%s%d' % (x, i)) for x in v}
        out.append(e.subs(ren) if ren else e)
        env.update({ren[x]: y for x, y in v.items()})
    return out, env, [value(s) for s in specs]


def fresh(f, *a):
    """call twice: the result of one call must not be changed by what the user does with the result of another"""
    first = f(*a)
    keep = first.copy()
    second = f(*a)
    expect(second is not first, '%s returns the same object twice', f.__name__)
    second[0, 0] = 99
    expect((np.array(first) == np.array(keep)).all(), '%s: two results share their storage', f.__name__)
    return first


def rot(case):
    axis, t = case['axis'], typed(case['kind'], case['t'])
    make = dict(X=num.rotx, Y=num.roty, Z=num.rotz)[axis]
    (s,), e, (ts,) = symbolic([case['spec']])
    for n, size in (('', 3), ('4', 4)):
        fs = getattr(ks, 'Rot%s%s_S' % (axis, n))
        fn = getattr(ks, 'Rot%s%s_N' % (axis, n))
        got = sy(fresh(fs, s), e)
        expect(near(got, make(ts)[:size, :size]), 'symbolic rotation about %s by %s at %s wrong:\n%s', axis, s, e, got)
        expect(near(fresh(fn, t), make(float(t))[:size, :size], 1e-6 if case['kind'] == 'np.float32' else 1e-9), 'numeric rotation about %s by %r wrong:\n%s', axis, t, fn(t))
    return abs(math.sin(t)) > 1e-6 and ['numeric ' + case['kind'], 'symbolic ' + case['spec'][0]]


def rpy(case):
    r, p, y = [typed(k, x) for k, x in zip(case['kinds'], case['rpy'])]
    ref = num.rotz(float(y)) @ num.roty(float(p)) @ num.rotx(float(r))
    tol = 1e-6 if 'np.float32' in case['kinds'] else 1e-9
    abc, e, (rs, ps, ys) = symbolic(case['specs'])
    refs = num.rotz(ys) @ num.roty(ps) @ num.rotx(rs)
    for f, n in (('RPY3', 3), ('RPY4', 4)):
        got = sy(fresh(getattr(ks, f + '_S'), *abc), e)
        expect(near(got, refs[:n, :n]), '%s_S%s wrong at %s:\n%s', f, abc, e, got)
        got = fresh(getattr(ks, f + '_N'), r, p, y)
        expect(near(got, ref[:n, :n], tol), '%s_N wrong at %s:\n%s', f, (r, p, y), got)
    return abs(math.sin(r) * math.sin(p) * math.sin(y)) > 1e-6 and ['symbolic ' + s[0] for s in case['specs']]


def linkt(case):
    dh = [typed(k, x) for k, x in zip(case['dkinds'], case['dh'])]
    tol = 1e-5 if 'np.float32' in case['dkinds'] else 1e-9
    al, a, d, th = dh
    ref = num.link(*[float(x) for x in dh])
    v, e, vals = symbolic(case['specs'])
    s = sy(fresh(ks.Link_S, *v), e)
    expect(near(s, num.link(*vals)), 'Link_S%s at %s =\n%s expected\n%s', tuple(v), e, s, num.link(*vals))
    got = fresh(ks.Link_N, al, a, d, th)
    expect(near(got, ref, tol), 'Link_N%r =\n%s expected\n%s', tuple(dh), got, ref)
    w, c = vector(case)
    got = fresh(ks.Trans4_N, c)
    want = num.trans(*[float(x) for x in w])
    expect(near(got, want), 'Trans4_N(%r) =\n%s', c, got)
    inv = ks.H_inv_N(got)
    expect(np.shape(inv) == (4, 4) and near(inv, num.trans(*[-float(x) for x in w])), 'H_inv_N(Trans4_N(%r)) =\n%s', c, inv)
    vs, e, vals = symbolic(case['vspecs'])
    got = sy(fresh(ks.Trans4_S, sp.Matrix(vs) if case['container'] == 'Matrix' else vs), e)
    expect(near(got, num.trans(*vals)), 'Trans4_S(%s) at %s', vs, e)
    return len(set(w)) == 3 and ['vector in a ' + case['container']] + ['vector of ' + k for k in set(case['kinds'])]


def inverse(case):
    H, e, HS = np.eye(4), {}, sp.eye(4)
    k = 0
    for kind, specs in case['links']:
        ren, v, vals = {}, [], []
        for s in specs:
            (x,), env1, (y,) = symbolic([s])
            r = {z: sp.Symbol('%s_%d' % (z, k)) for z in env1}
            k += 1
            v.append(x.subs(r) if r else x)
            e.update({r[z]: q for z, q in env1.items()})
            vals.append(y)
        al, a, d, th = v
        S = lambda *x: sp.Matrix(4, 4, x)
        if kind == 'link':
            M, N = S(sp.cos(th), -sp.sin(th), 0, a, sp.sin(th) * sp.cos(al), sp.cos(th) * sp.cos(al), -sp.sin(al), -sp.sin(al) * d,
                     sp.sin(th) * sp.sin(al), sp.cos(th) * sp.sin(al), sp.cos(al), sp.cos(al) * d, 0, 0, 0, 1), num.link(*vals)
        elif kind == 'translation':
            M, N = S(1, 0, 0, al, 0, 1, 0, a, 0, 0, 1, d, 0, 0, 0, 1), num.trans(*vals[:3])
        elif kind == 'rotation':
            M, N = S(sp.cos(th), 0, sp.sin(th), 0, 0, 1, 0, 0, -sp.sin(th), 0, sp.cos(th), 0, 0, 0, 0, 1), num.roty(vals[3])
        else:            # target pose: a rigid transform with opaque entries
            names = [sp.Symbol('%s_%d' % (n, k)) for n in ('r11', 'r12', 'r13', 'px', 'r21', 'r22', 'r23', 'py', 'r31', 'r32', 'r33', 'pz')]
            N = num.link(*vals) @ num.rotx(vals[1])
            M = S(*names, 0, 0, 0, 1)
            e.update(zip(names, N[:3].reshape(-1)))
        H, HS = H @ N, HS * M
    tol = 1e-7
    Hm = np.matrix(H)
    if case['exact'] and near(np.round(H), H, 1e-12):
        Hm = np.matrix(np.round(H).astype(int))     # right angles and whole offsets
        H = np.array(Hm).astype(float)
    keep = Hm.copy()
    inv = ks.H_inv_N(Hm)
    expect(np.shape(inv) == (4, 4), 'H_inv_N shape %s', np.shape(inv))
    expect(near(Hm * inv, np.eye(4), tol * 100) and near(inv * Hm, np.eye(4), tol * 100), 'H_inv_N is not the inverse of\n%s\n%s', H, inv)
    expect((Hm == keep).all(), 'H_inv_N changed its argument')
    inv[0, 3] += 1
    expect((Hm == keep).all(), 'the result of H_inv_N shares storage with its argument')
    if case['immutable']:
        HS = sp.ImmutableMatrix(HS)
    S0 = HS.copy()
    si = ks.H_inv_S(HS)
    expect(HS == S0, 'H_inv_S changed its argument')
    ns = sy(si, e)
    expect(near(ns @ H, np.eye(4), tol * 100) and near(H @ ns, np.eye(4), tol * 100), 'H_inv_S is not the inverse of\n%s\n%s\nat %s', HS, si, e)
    again = sy(ks.H_inv_S(sp.Matrix(si)), e)
    expect(near(again, H, tol * 100), 'H_inv_S of the inverse of\n%s\n%s', HS, again)
    R = H[:3, :3]
    lab = ['rotation part is ' + ('the identity' if near(R, np.eye(3)) else 'diagonal' if near(R, np.diag(np.diag(R))) else 'symmetric' if near(R, R.T) else 'general')]
    return not near(H[:3, 3], np.zeros(3)) and lab


def wrap(case):
    t = case['t']
    w = float(ks.wrap_angle_N(t))
    eps = 1e-9 * (1 + abs(t))
    expect(-math.pi - eps <= w <= math.pi + eps, 'wrap(%r) = %r is outside [-pi, pi)', t, w)
    # pi itself is represented by -pi; allow rounding of the modulo only next to the seam
    if abs(t) <= math.pi:
        expect(w < math.pi, 'wrap(%r) = %r is not inside [-pi, pi)', t, w)
    expect(abs(math.remainder(w - t, 2 * math.pi)) < eps * 10, 'wrap(%r) = %r is another angle', t, w)
    if -math.pi <= t < math.pi:
        expect(abs(w - t) < 1e-12, 'wrap(%r) changed an angle that was in range to %r', t, w)
    d = case['d']
    expect(abs(d * ks.deg - math.radians(d)) < 1e-9 * (1 + abs(d)), 'deg constant %r', ks.deg)
    expect(abs(t * ks.rad2deg - math.degrees(t)) < 1e-9 * (1 + abs(math.degrees(t))), 'rad2deg constant %r', ks.rad2deg)
    return abs(t) > math.pi


kind = st.sampled_from(KINDS)
ang = st.tuples(st.sampled_from(['symbol', 'symbol', 'negative', 'sum', 'difference', 'multiple', 'offset', 'pi', 'right', 'right', 'zero', 'int', 'float']), gens.angles).map(list)
length = st.tuples(st.sampled_from(['symbol', 'symbol', 'negative', 'sum', 'difference', 'zero', 'zero', 'int', 'float', 'rational']), gens.reals).map(list)
right = st.tuples(st.sampled_from(['right', 'zero']), gens.angles).map(list)
whole = st.tuples(st.sampled_from(['int', 'zero']), gens.reals).map(list)
row = st.tuples(ang, length, length, ang).map(list)
exact = st.tuples(right, whole, whole, right).map(list)
part = st.tuples(st.sampled_from(['link', 'link', 'translation', 'rotation', 'target']), st.one_of(row, row, exact)).map(list)
wide = st.one_of(gens.angles, st.floats(-1e4, 1e4, allow_nan=False),
                 st.integers(-40, 40).flatmap(lambda k: st.sampled_from([0.0, 1e-6, -1e-6, 0.1, 1.0]).map(lambda e: k * math.pi + e)))
three = lambda s: st.tuples(s, s, s).map(list)
SUBS = [
    Sub('rotations', st.fixed_dictionaries(dict(axis=st.sampled_from('XYZ'), t=gens.angles, kind=kind, spec=ang)), rot),
    Sub('roll_pitch_yaw', st.fixed_dictionaries(dict(rpy=three(gens.angles), kinds=three(kind), specs=three(ang))), rpy),
    Sub('link_and_translation', st.fixed_dictionaries(dict(dh=st.tuples(gens.angles, gens.reals, gens.reals, gens.angles).map(list), dkinds=st.tuples(kind, kind, kind, kind).map(list), specs=row,
                                                           v=three(gens.reals), kinds=three(kind), container=st.sampled_from(['list', 'tuple', 'array', 'Matrix']), vspecs=three(length))), linkt),
    Sub('inverse', st.one_of(
        st.fixed_dictionaries(dict(links=st.lists(part, min_size=1, max_size=3), exact=st.booleans(), immutable=st.booleans())),
        st.fixed_dictionaries(dict(links=st.lists(st.tuples(st.sampled_from(['link', 'translation', 'rotation']), exact).map(list), min_size=1, max_size=3), exact=st.booleans(), immutable=st.booleans()))), inverse),
    Sub('wrap', st.fixed_dictionaries(dict(t=wide, d=gens.reals)), wrap),
]
if __name__ == '__main__':
    main('C01', SUBS, 'random angles, offsets and vectors of every numeric type, and symbolic arguments (symbols, their sums and negatives, exact multiples of 15 and 90 degrees, numbers); non-trivial: no sine in the case '
         'vanishes (rotations, links), offset not zero (inverse), angle outside [-pi,pi] (wrap)', quick=25, thorough=300)
