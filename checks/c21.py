import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, num, gens, solver, catalogue
env.setup()
import ikbtbasics.kin_cl as kc   # before ik_classes (the modules import each other)
import random, subprocess
import sympy as sp
from hypothesis import strategies as st
import ikbtfunctions.ik_robots as ikr


def load(name):
    with env.captured():
        return ikr.robot_params(name)


def check(name, got):
    """the invariants of a catalogue entry"""
    expect(isinstance(got, (list, tuple)) and len(got) == 5, '%s: not the five parts of a model: %s', name, type(got))
    dh, vv, params, pvals, unks = got
    expect(tuple(dh.shape) == (6, 4), '%s: DH table is %s', name, dh.shape)
    expect(len(vv) == 6 and all(v in (0, 1) for v in vv), '%s: joint types %s', name, vv)
    syms = [u.symbol for u in unks]
    expect(syms and len(set(syms)) == len(syms), '%s: unknowns %s', name, syms)
    for u in unks:
        expect(isinstance(u, kc.unknown) and isinstance(u.symbol, sp.Symbol) and u.name == str(u.symbol), '%s: unknown %s', name, u)
        expect(not u.solved and not u.solutions and u.nsolutions == 0 and u.solvemethod in ('', None), '%s: unknown %s is already solved', name, u.name)
    expect([u.n for u in unks] == list(range(1, len(unks) + 1)), '%s: indices of the unknowns are %s', name, [u.n for u in unks])
    par = list(params)
    expect(all(isinstance(p, sp.Symbol) for p in par) and len(set(par)) == len(par), '%s: parameters %s', name, par)
    expect(not set(par) & set(syms), '%s: %s both unknown and parameter', name, set(par) & set(syms))
    order = []
    for r in range(6):
        row = [sp.sympify(x) for x in dh[r, :]]
        var = [c for c in range(4) if row[c].free_symbols & set(syms)]
        expect(len(var) <= 1, '%s: row %d has more than one variable', name, r + 1)
        if var:
            c = var[0]
            joint = [x for x in syms if x in row[c].free_symbols]
            expect(len(joint) == 1 and not (sp.expand(row[c] - joint[0])).free_symbols, '%s: row %d has %s as its variable', name, r + 1, row[c])    # (an offset is fine)
            expect(c in (2, 3) and vv[r] == (1 if c == 3 else 0), '%s: joint %d is of type %s but %s is in column %d', name, r + 1, vv[r], row[c], c + 1)
            order.append(joint[0])
        for c in range(4):
            for s in row[c].free_symbols:
                expect(s in syms or s in par, '%s: %s of row %d is neither unknown nor parameter', name, s, r + 1)
            if not row[c].free_symbols:
                expect(row[c].is_real and row[c].is_finite, '%s: entry %s', name, row[c])
    expect(order == syms, '%s: unknowns %s, variables of the table in order %s', name, syms, order)
    for k, v in pvals.items():
        expect(k in par, '%s: value for %s, which is no parameter', name, k)
        f = float(v)
        expect(f == f and abs(f) < 1e6, '%s: value %s of %s', name, v, k)
    if pvals:
        expect(all(p in pvals for p in set(par) & dh.free_symbols), '%s: values for only some of the parameters: %s of %s', name, sorted(map(str, pvals)), par)
    return ['values' if pvals else 'no values', '%d joints' % len(unks), 'prismatic' if 0 in [vv[r] for r in range(6) if dh[r, 2].free_symbols & set(syms)] else 'rotary']


def describe(got):
    dh, vv, params, pvals, unks = got
    return [sp.srepr(sp.Matrix(dh)), list(vv), [str(p) for p in params], sorted((str(k), repr(v)) for k, v in pvals.items()),
            [(u.name, u.n, bool(u.solved)) for u in unks]]


def entry(case):
    got = load(case['name'])
    lab = check(case['name'], got)
    # loadable: the kinematics of the entry can be set up and evaluated
    dh, vv, params, pvals, unks = got
    with solver.light():
        M = kc.mechanism(sp.Matrix(dh), list(params), list(vv))
        M.pvals = dict(pvals)
        M.forward_kinematics()
    rng = random.Random(1)
    q = {u.name: rng.uniform(.2, 1.4) for u in unks}
    base = {str(p): rng.uniform(.3, 1.5) for p in params}
    base.update(gens.pvals_env(pvals))
    d = dict(base)
    d.update({k: v for k, v in gens.pvals_env(M.pvals).items()})
    d.update(q)
    ref = num.fk(sp.Matrix(dh), {**base, **q})
    expect(num.close(num.evm(sp.Matrix(M.T_06), d), ref, 1e-7 * max(1, abs(ref).max())), '%s: forward kinematics', case['name'])
    return lab


PROG = '''
import sys, json, os
sys.path.insert(0, %r)
sys.dont_write_bytecode = True
import sympy as sp
import ikbtbasics.kin_cl as kc
import ikbtfunctions.ik_robots as ikr
out = os.dup(1); os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
dh, vv, params, pvals, unks = ikr.robot_params(%r)
os.write(out, json.dumps([sp.srepr(sp.Matrix(dh)), list(vv), [str(p) for p in params], sorted((str(k), repr(v)) for k, v in pvals.items()),
        [(u.name, u.n, bool(u.solved)) for u in unks]]).encode())
'''
_fresh = {}


def fresh(name):
    """the entry as a process that has loaded nothing else gets it"""
    if name not in _fresh:
        r = subprocess.run([sys.executable, '-c', PROG % (env.REPO, name)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        expect(r.returncode == 0, '%s cannot be loaded: %s', name, r.stderr.decode()[-500:])
        _fresh[name] = json.loads(r.stdout)
    return _fresh[name]


def norm(x):
    return json.loads(json.dumps(x))


def sequence(case):
    """loading in any order, using (and spoiling) what was loaded before"""
    kinds = set()
    last = None
    for name, spoil in case['loads']:
        want = fresh(name)
        got = load(name)
        expect(norm(describe(got)) == norm(want), '%s loaded after %s: %s\nin a fresh process: %s', name, last, describe(got), want)
        check(name, got)
        dh, vv, params, pvals, unks = got
        if spoil & 1:
            for u in unks:
                u.solved, u.solutions, u.nsolutions, u.n = True, [sp.Integer(1)], 1, 77
        if spoil & 2:
            dh[0, 0] = sp.Symbol('spoilt')
            pvals.clear()
        if spoil & 4:
            params.append(sp.Symbol('spoilt'))
            vv[0] = 7
            del unks[-1]
        kinds.add('spoilt' if spoil else 'untouched')
        if name == last:
            kinds.add('again')
        last = name
    return sorted(kinds)


def unknown_name(case):
    name = case['name']
    if name in NAMES:
        raise Skip
    lines, refused = catalogue.listed(name)
    expect(refused, 'robot %r does not exist but was not refused', name)
    expect(not name.strip() or any(name.strip().split()[0] in l for l in lines), 'the report does not mention %r', name)
    for n in NAMES:
        expect(n in lines, 'the report does not list %s', n)
    return 'close' if any(n.lower() in name.lower() or name.lower() in n.lower() for n in NAMES if name) else 'other'


NAMES = catalogue.names()


def exhaustive():
    return [dict(name=n) for n in NAMES]


@st.composite
def bad_names(draw):
    n = draw(st.sampled_from(NAMES))
    k = draw(st.integers(0, 8))
    return dict(name=[n.lower(), n.upper(), n + ' ', ' ' + n, n[:-1], n + '0', n[1:], n + n, draw(st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=12))][k])


loads = st.lists(st.tuples(st.sampled_from(NAMES), st.integers(0, 7)).map(list), min_size=2, max_size=10)
SUBS = [Sub('entry', None, entry, exhaustive=exhaustive, case_timeout=120),
        Sub('loading_order', st.fixed_dictionaries(dict(loads=loads)), sequence, weight=3),
        Sub('unknown_name', bad_names(), unknown_name, weight=1)]
if __name__ == '__main__':
    main('C21', SUBS, 'every name of the pinned catalogue and every name the catalogue lists, exhaustively; random loading sequences in which the loaded objects are spoilt, each entry compared '
         'with what a fresh process loads; names near and far from existing ones; non-trivial: every executed case', quick=25, thorough=200)
