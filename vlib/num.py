"""Independent numerical evaluation of sympy expressions, and numeric DH kinematics."""
import math, cmath
import sympy as sp
import numpy as np


class Undefined(Exception):
    """the expression has no real value at this point (out of domain)"""


class Unbound(Exception):
    """a symbol without a value"""


EPS = 1e-9


def _real(z, tol=1e-7):
    if isinstance(z, complex):
        if abs(z.imag) > tol * (1 + abs(z.real)):
            raise Undefined('complex value')
        return z.real
    return z


def ev(e, env, names=False):
    """value of e as a Python float.  env maps symbols (or their names, names=True) to floats."""
    e = sp.sympify(e)
    d = {str(k): v for k, v in env.items()}
    z = _real(_ev(e, d))
    if z != z or z in (math.inf, -math.inf):
        raise Undefined('not finite')
    return z


def _clip(x):
    """asin/acos argument: values just outside [-1,1] are rounding"""
    x = _real(x)
    if abs(x) > 1:
        if abs(x) > 1 + 1e-9:
            raise Undefined('arcsin/arccos argument %g' % x)
        x = math.copysign(1.0, x)
    return x


def _ev(e, d):
    if e.is_Symbol:
        try:
            return d[e.name]
        except KeyError:
            raise Unbound(e.name)
    if e.is_Number:
        return float(e)
    if e is sp.pi or e is sp.E:
        return float(e)
    if e is sp.I:
        return 1j
    if e.is_Add:
        s = 0.0
        for a in e.args:
            s += _ev(a, d)
        return s
    if e.is_Mul:
        p = 1.0
        for a in e.args:
            p *= _ev(a, d)
        return p
    if e.is_Pow:
        b = _ev(e.base, d)
        x = e.exp
        if x.is_Integer:
            n = int(x)
            if n < 0 and abs(b) < 1e-12:
                raise Undefined('division by zero')
            return b ** n
        x = _ev(x, d)
        if isinstance(b, complex):
            return b ** x
        if b < 0:
            if b > -1e-11:
                b = 0.0
            else:
                return cmath.exp(x * cmath.log(b))
        if b == 0 and x < 0:
            raise Undefined('division by zero')
        return b ** x
    f = e.func.__name__
    a = [_ev(x, d) for x in e.args]
    if f in ('sin', 'cos', 'tan'):
        return getattr(math, f)(_real(a[0])) if not isinstance(a[0], complex) else getattr(cmath, f)(a[0])
    if f == 'asin':
        return math.asin(_clip(a[0]))
    if f == 'acos':
        return math.acos(_clip(a[0]))
    if f == 'atan':
        return math.atan(_real(a[0]))
    if f == 'atan2':
        y, x = _real(a[0]), _real(a[1])
        if abs(y) < 1e-9 and abs(x) < 1e-9:
            raise Undefined('atan2(0,0)')
        return math.atan2(y, x)
    if f == 'Abs':
        return abs(a[0])
    if f == 'sign':
        v = _real(a[0])
        return float((v > 0) - (v < 0))
    if f in ('sec', 'csc', 'cot'):
        v = _real(a[0])
        den = {'sec': math.cos, 'csc': math.sin, 'cot': math.tan}[f](v)
        if abs(den) < 1e-12:
            raise Undefined('pole')
        return 1 / den
    try:
        return complex(e.func(*a).evalf()) if a else complex(e.evalf())
    except TypeError as err:
        raise Undefined('%s: %s' % (f, err))


def evm(M, env):
    return np.array([[ev(M[i, j], env) for j in range(M.shape[1])] for i in range(M.shape[0])])


def adiff(a, b):
    """distance of two angles modulo a full turn"""
    return abs(math.remainder(a - b, 2 * math.pi))


# ---------------------------------------------------------------- numeric kinematics
def rotx(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[1, 0, 0, 0], [0, c, -s, 0], [0, s, c, 0], [0, 0, 0, 1.0]])


def roty(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[c, 0, s, 0], [0, 1, 0, 0], [-s, 0, c, 0], [0, 0, 0, 1.0]])


def rotz(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[c, -s, 0, 0], [s, c, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1.0]])


def trans(x, y, z):
    T = np.eye(4)
    T[:3, 3] = (x, y, z)
    return T


def link(al, a, d, th):
    """modified DH: turn about X, shift along X, turn about Z, shift along Z"""
    return rotx(al) @ trans(a, 0, 0) @ rotz(th) @ trans(0, 0, d)


def dh_rows(dh, env):
    return [[ev(dh[i, j], env) for j in range(4)] for i in range(dh.shape[0])]


def dh_links(dh, env):
    return [link(*r) for r in dh_rows(dh, env)]


def fk(dh, env):
    T = np.eye(4)
    for L in dh_links(dh, env):
        T = T @ L
    return T


def pval(v):
    """value of an entry of pvals, which may be a number, 'np.cos(...)' text or a sympy number"""
    if isinstance(v, str):
        return float(eval(v, {'np': np, 'pi': math.pi, 'sqrt': math.sqrt, '__builtins__': {}}))
    return float(v)


def target_env(T):
    """values of r_11..r_33, Px, Py, Pz"""
    d = {}
    for i in range(3):
        for j in range(3):
            d['r_%d%d' % (i + 1, j + 1)] = float(T[i, j])
    d['Px'], d['Py'], d['Pz'] = (float(T[k, 3]) for k in range(3))
    return d


def close(a, b, tol=1e-7):
    return bool(np.all(np.abs(np.asarray(a) - np.asarray(b)) <= tol * (1 + np.abs(np.asarray(b)))))
