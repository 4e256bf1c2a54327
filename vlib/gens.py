"""Generators shared by the checks.  Every case is plain JSON data."""
import math, random
from hypothesis import strategies as st
import sympy as sp

# ------------------------------------------------------------------ DH tables
AL_NICE = ['0', 'pi/2', '-pi/2']
AL_FLIP = ['pi', '-pi']
AL_ODD = ['sym', 'pi/3', '-pi/4', '2*pi/5']
# twists which are related to each other: the same, opposite or supplementary angle in several rows, own or common symbols, decimal numbers
AL_RICH = ['sym', '-sym', 'common', '-common', 'pi-common', '2*common', 'pi/3', '-pi/3', '2*pi/3', '-2*pi/3', 'pi/4', '-pi/4', '3*pi/4', '5*pi/4', '2*pi/5', '0.6', '-0.6', '-1.2', '3*pi/2', '2*pi', '11*pi/6']


def is_odd(al):
    return al in AL_ODD or al in AL_RICH and al not in ('3*pi/2', '2*pi')


def dh_rows(min_joints=1, max_joints=6, odd=True, flip=True, prismatic=True, first_var=True, gaps=True, rich=False):
    """list of row descriptions [kind, alpha, a, offset]; kind R, P or F (fixed)."""
    als = AL_NICE * 4 + (AL_FLIP if flip else []) + (AL_ODD if odd else []) + (AL_RICH if rich else [])
    if rich:
        odds = st.lists(st.sampled_from(AL_RICH), min_size=1, max_size=2)
    na, no = (5, 6) if rich else (1, 2)

    @st.composite
    def build(draw):
        n = draw(st.integers(max(1, min_joints), 6 if gaps else max_joints))
        nj = min(n, max_joints, draw(st.sampled_from([1, 2, 2, 3, 3, 3, 4, 4, 5, 6])))
        nj = max(nj, min_joints)
        if gaps:
            where = set(draw(st.permutations(range(n)))[:nj])
            if first_var and 0 not in where:
                where = {0} | set(sorted(where)[1:])
        else:
            n, where = nj, set(range(nj))
        rows = []
        nodd = 0
        mine = als
        if rich and draw(st.booleans()):
            base = draw(odds)            # few different twists, so that they occur together
            mine = AL_NICE + base + [b for b in ([x[1:] if x.startswith('-') else '-' + x for x in base]) if b in AL_RICH]
        for i in range(n):
            if i in where:
                k = draw(st.sampled_from(['R', 'R', 'R'] + (['P'] if prismatic else [])))
                al = draw(st.sampled_from(mine))
                nodd += is_odd(al)
                if nodd > (3 if nj < 4 and rich else 2):
                    al = '0'
                rows.append([k, al, draw(st.integers(0, na)), draw(st.integers(0, no))])
            elif draw(st.booleans()):
                rows.append(['F', '0', 0, 0])
            else:
                rows.append(['F', draw(st.sampled_from(mine)), draw(st.integers(0, na)), draw(st.integers(0, no))])
        return rows
    return build()


@st.composite
def long_rows(draw):
    """all six rows in use, with every mixture of equal, opposite and right twists"""
    al = st.sampled_from(draw(st.sampled_from([['0', 'pi', 'pi/2', '-pi/2', '-pi'], ['0', 'pi'], ['pi', 'pi/2'], ['0', 'pi/2', '-pi/2']])))
    kinds = draw(st.sampled_from(['R', 'RRRRP', 'RRPF', 'RF']))
    rows = [[draw(st.sampled_from(kinds)), draw(al), draw(st.integers(0, 2)), draw(st.integers(0, 2))] for _ in range(6)]
    if all(r[0] == 'F' for r in rows):
        rows[draw(st.integers(0, 5))][0] = 'R'
    return rows


def joint_count(rows):
    return sum(r[0] != 'F' for r in rows)


class Mech:
    """sympy DH table etc. built from row descriptions"""

    def __init__(self, rows, seed=0, reals=True):
        rng = random.Random(seed)
        S = sp.Symbol
        tab, self.vv, self.joints, self.params, self.pvals = [], [], [], [], {}

        def par(name, lo=0.3, hi=2.5):
            s = S(name)
            if s not in self.pvals:
                self.params.append(s)
                self.pvals[s] = round(rng.uniform(lo, hi), 4)
            return s
        for i in range(6):
            if i >= len(rows):
                tab.append([0, 0, 0, 0])
                self.vv.append(1)
                continue
            k, al, a, o = rows[i]
            n = i + 1
            if 'sym' in al or 'common' in al:
                s = par('al_%d' % i if 'sym' in al else 'alc', 0.2, 1.3)
                alv = sp.sympify(al, {'sym': s, 'common': s})
            else:
                alv = sp.sympify(al)

            def length(kind, name):
                """0: none, 1, 2: a parameter, 3: the negative of one, 4: a number, 5: a common parameter, 6: a sum"""
                if kind == 4:
                    return [round(rng.uniform(-2, 2), 5), -1, sp.Rational(1, 3), 2, rng.uniform(.3, 2), 0.35][seed % 6]
                return 0 if not kind else {1: 1, 2: 1, 3: -1}[kind] * par(name) if kind < 4 else par('h') if kind == 5 else par(name) + par('h')
            av = length(a, 'a_%d' % i)
            if k == 'R':
                th = S('th_%d' % n)
                d = length(o, 'l_%d' % n)
                self.joints.append(th)
            elif k == 'P':
                d = S('d_%d' % n)
                th = [0, sp.pi / 2, -sp.pi / 2, sp.pi, sp.pi / 4, 3 * sp.pi / 2, -sp.pi / 3][o]
                self.joints.append(d)
            else:
                d = length(o, 'l_%d' % n)
                th = [0, 0, sp.pi / 2, -sp.pi / 2, sp.pi, sp.pi / 6, 0][o]
            tab.append([alv, av, d, th])
            self.vv.append(0 if k == 'P' else 1)
        self.dh = sp.Matrix(tab)

    def pose(self, rng):
        q = {}
        for s in self.joints:
            q[s] = rng.uniform(-3.1, 3.1) if s.name.startswith('th') else rng.uniform(0.3, 2.0)
        return q

    def mechanism(self):
        import ikbtbasics.kin_cl as kc
        m = kc.mechanism(self.dh, list(self.params), list(self.vv))
        m.pvals = dict(self.pvals)
        return m

    def unknowns(self):
        import ikbtbasics.kin_cl as kc
        us = []
        for i, s in enumerate(self.joints):
            u = kc.unknown(s)
            u.n = int(s.name.split('_')[1])
            us.append(u)
        return us


def pvals_env(pvals):
    """name -> float; text values may refer to numpy, pi and to other parameters"""
    import numpy as np
    d = {}
    texts = {}
    for k, v in pvals.items():
        if isinstance(v, str):
            texts[str(k)] = v
        else:
            d[str(k)] = float(v)
    for k, v in texts.items():
        ns = dict(d)
        ns.update(np=np, pi=math.pi, sqrt=math.sqrt, cos=math.cos, sin=math.sin, acos=math.acos, asin=math.asin, atan2=math.atan2)
        ns['__builtins__'] = {}
        d[k] = float(eval(v, ns))
    return d


seeds = st.integers(0, 10 ** 6)
angles = st.one_of(st.sampled_from([0.0, 0.5, -0.5, math.pi / 2, -math.pi / 2, math.pi, -math.pi, 3.0, -3.0, 2 * math.pi, -7.0, 100.0]),
                   st.floats(-20, 20, allow_nan=False))
reals = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 2.5]), st.floats(-50, 50, allow_nan=False))
