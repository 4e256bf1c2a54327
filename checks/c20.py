import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, num, gens, solver
env.setup()
import ikbtbasics.kin_cl as kc   # before ik_classes (the modules import each other)
import copy, functools, json, pickle, random, shutil
import sympy as sp
from hypothesis import strategies as st
import ikbtbasics.ik_classes as ic

NAMES = ['Alpha', 'Beta_2', 'G 3', 'Alpha2', 'Alpha-II', 'Alpha-III', 'A.1', 'A.2', 'alpha']
HERE = os.getcwd()


def model(case_rows, seed, edit=None, drop=(), values=0):
    """the robot model (DH table, constants, values, joint types, unknowns), freshly built"""
    g = gens.Mech(case_rows, seed)
    dh = g.dh.copy()
    if edit:
        dh = apply(dh, edit)
    rng = random.Random(values)
    pv = {p: (v if not values else round(rng.uniform(0.3, 1.4), 4)) for i, (p, v) in enumerate(g.pvals.items()) if i not in drop}
    return dict(dh=dh, params=list(g.params), pv=pv, vv=list(g.vv), unks=g.unknowns(), joints=g.joints)


def apply(dh, edit):
    r, c, k = edit
    new = dh.copy()
    old = dh[r, c]
    opts = [sp.Integer(0), -old, sp.Symbol('a_9'), sp.pi / 2, old + sp.pi / 2, dh[(r + 1) % 6, c], 2 * old, old - sp.Symbol('l_9'),
            old + sp.Float('0.001'), old * sp.Rational(1000001, 1000000), old + sp.Rational(1, 10 ** 6), old + 2 * sp.pi, sp.Float('0.425'), sp.Float('0.4251'), sp.Abs(old)]
    new[r, c] = opts[k % len(opts)]
    return new


def load(name, m):
    with env.quiet():
        return ic.kinematics_pickle(name, m['dh'], m['params'], dict(m['pv']), m['vv'], m['unks'], False)


def clear(d='fk_eqns'):
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))


def S(x):
    return sp.srepr(x)


def eqn(e):
    return (S(e.Td), S(e.Ts))


def describe(M, R, unks):
    """everything the solver uses of the result"""
    return dict(DH=S(M.DH), params=[str(p) for p in M.params], pvals=sorted((str(k), str(v)) for k, v in M.pvals.items()), vv=list(M.vv),
                T06=S(sp.Matrix(M.T_06)), Ts=[S(sp.Matrix(t)) for t in M.Ts], J66=S(sp.Matrix(M.J66)),
                mechanism_of_robot=S(sp.Matrix(R.Mech.T_06)), values_of_robot=sorted((str(k), str(v)) for k, v in R.Mech.pvals.items()),
                matrix_equations=[eqn(e) for e in R.mequation_list], sums=[(S(e.LHS), S(e.RHS)) for e in R.kequation_aux_list],
                unknowns=[(u.name, S(u.symbol), u.n, u.solved, len(u.solutions)) for u in unks], name=R.name,
                index=(R.min_index, R.max_index), lists=lists(R, unks), nodes=len(R.solution_nodes), edges=len(R.notation_graph_edges))


def lists(R, unks):
    with env.quiet():
        L = R.scan_for_equations(unks)
    return [sorted((S(e.LHS), S(e.RHS)) for e in l) for l in L]


@functools.lru_cache(maxsize=300)
def fresh_(key):
    rows, seed, edit, drop, values, name = json.loads(key)
    clear()
    m = model(rows, seed, edit, drop, values)
    out = describe(*load(name, m))
    clear()
    return out


def fresh(*a):
    return fresh_(json.dumps(a))


def compare(got, want, what):
    for k in want:
        expect(got[k] == want[k], '%s: %s differs from a fresh computation:\n%s\nfresh:\n%s', what, k, got[k], want[k])


def twice(case):
    """compute, then load several times, with edited parameter values"""
    rows, seed, name = case['rows'], case['seed'], case['name']
    clear()
    m = model(rows, seed)
    first = load(name, m)
    d1 = describe(*first)
    expect(os.listdir('fk_eqns'), 'no cache file')
    for k, (drop, values) in enumerate(case['loads']):
        want = describe_values(rows, seed, drop, values)
        m2 = model(rows, seed, None, drop, values)
        got = describe(*load(name, m2))
        compare(got, dict(d1, **want), 'load %d' % (k + 1))
        with env.quiet():
            ic.check_the_pickle(first[0].DH, model(rows, seed)['dh'])      # the same table must not be refused
    return ['edited values' if any(v or d for d, v in case['loads']) else 'same values', '%d joints' % gens.joint_count(rows),
            'sums' if d1['sums'] else 'no sums', 'twist parameters' if any(str(p)[:2] == 'ca' for p in d1['params']) else 'right angles']


def describe_values(rows, seed, drop, values):
    """the values in force: those of the model and of the parameters which the kinematics add"""
    m = model(rows, seed, None, drop, values)
    mm = kc.mechanism(m['dh'], m['params'], m['vv'])
    mm.pvals = dict(m['pv'])
    with env.quiet():
        mm.forward_kinematics()
    v = sorted((str(k), str(x)) for k, x in mm.pvals.items())
    return dict(pvals=v, values_of_robot=v)


def refused(a, b):
    try:
        with env.quiet():
            ic.check_the_pickle(a, b)
    except (SystemExit, Exception):
        return True
    return False


def differing(case):
    """the comparison of DH tables refuses exactly different ones"""
    g = gens.Mech(case['rows'], case['seed'])
    a = g.dh
    lab = set()
    for e in case['edits']:
        b = apply(a, e)
        r = refused(a.copy(), b)
        expect(r == any(x != y for x, y in zip(a, b)), 'tables\n%s\nand\n%s are %s', a.tolist(), b.tolist(), 'refused' if r else 'accepted')
        expect(refused(b, a.copy()) == r, 'the comparison is not symmetric for\n%s\n%s', a.tolist(), b.tolist())
        lab.add('different' if r else 'same')
    for n in (5, 4):
        expect(refused(a, a[:n, :]) and refused(a[:n, :], a), 'a table with %d rows is accepted for one with 6', n)
    return sorted(lab)


def history(case):
    """runs of the forward kinematics script for several robots, DH tables edited in between"""
    clear()
    cached = {}
    labels = set()
    for name, k, values in case['runs']:
        rows, seed = case['robots'][NAMES.index(name) % len(case['robots'])]
        edits = [None] + case['edits']
        e = edits[k % len(edits)]
        m = model(rows, seed, e, (), values)
        if e and (set(m['joints']) - m['dh'].free_symbols or m['dh'][0, 2:4] == sp.zeros(1, 2) or m['dh'].free_symbols - set(m['params']) - set(m['joints'])):
            e, m = None, model(rows, seed, None, (), values)        # the edit made the robot invalid
        for f in os.listdir('CodeGen/Python'):
            os.remove('CodeGen/Python/' + f)

        def mod():
            return [m['dh'].copy(), list(m['vv']), list(m['params']), dict(m['pv']), m['unks']]
        try:
            G = solver.run_script('fkOnly.py', name, mod)
        except SystemExit:
            expect(name in cached and cached[name] != m['dh'], 'run for robot %s refused; cached table\n%s\ncurrent\n%s', name, cached.get(name), m['dh'].tolist())
            expect(not os.listdir('CodeGen/Python'), 'code was generated although the cache was refused')
            labels.add('refused')
            continue
        expect(name not in cached or cached[name] == m['dh'], 'the result cached for\n%s\nis used for the table\n%s', cached.get(name) and cached[name].tolist(), m['dh'].tolist())
        labels.add('used' if name in cached else 'computed')
        cached[name] = m['dh']
        expect(G['R'].name == name, 'the robot %s was loaded as %s', name, G['R'].name)
        rng = random.Random(1)
        q = {s.name: rng.uniform(0.3, 1.5) for s in m['joints']}
        base = gens.pvals_env(m['pv'])
        M = G['M']
        d = gens.pvals_env(M.pvals)
        d.update(q)
        ref = num.fk(m['dh'], {**base, **q})
        got = num.evm(sp.Matrix(M.T_06), d)
        expect(num.close(got, ref), 'kinematics of %s after a run with the cache are wrong\n%s\nexpected\n%s', name, got, ref)
        expect(num.close(num.evm(sp.Matrix(G['R'].Mech.T_06), d), ref), 'kinematics in the robot are wrong')
    return sorted(labels)


def damage(case):
    """the file as an interrupted run leaves it: any prefix"""
    rows, seed, name = case['rows'], case['seed'], case['name']
    clear()
    d1 = describe(*load(name, model(rows, seed)))
    f = os.path.join('fk_eqns', os.listdir('fk_eqns')[0])
    data = open(f, 'rb').read()
    labels = set()
    for x in case['cuts']:
        n = min(len(data) - 1, int(x * len(data))) if x < 1 else max(0, len(data) - int(x))
        with open(f, 'wb') as fp:
            fp.write(data[:n])
        try:
            got = load(name, model(rows, seed))
        except Exception:
            labels.add('reported')
            continue
        labels.add('loaded')
        compare(describe(*got), d1, 'cache file cut after %d of %d bytes' % (n, len(data)))
    import gc; gc.collect()
    return sorted(labels)


class Full(OSError):
    pass


def interrupted(case):
    """the writing run is interrupted at some byte; the next run must fail or get the right result"""
    import builtins
    rows, seed, name = case['rows'], case['seed'], case['name']
    want = fresh(rows, seed, None, (), 0, name)
    labels = set()
    real = builtins.open
    for x in case['cuts']:
        clear()
        size = [0]
        limit = int(x * case['size']) if x < 1 else int(x)

        class W:
            def __init__(self, f):
                self.f = f

            def write(self, b):
                b = bytes(b)
                room = limit - size[0]
                size[0] += len(b)
                if len(b) > room:
                    self.f.write(b[:max(room, 0)])
                    self.f.flush()
                    raise Full('no space left on device')
                return self.f.write(b)

            def __getattr__(self, n):
                return getattr(self.f, n)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.f.close()

        def opener(p, mode='r', *a, **k):
            f = real(p, mode, *a, **k)
            return W(f) if 'w' in mode and 'b' in mode and 'fk_eqns' in str(p) else f
        builtins.open = opener
        try:
            load(name, model(rows, seed))
            labels.add('written')
        except Full:
            labels.add('interrupted')
        finally:
            builtins.open = real
        try:
            got = load(name, model(rows, seed))
        except Exception:
            labels.add('reported')
            continue
        compare(describe(*got), want, 'after a run interrupted at byte %d' % limit)
        labels.add('right afterwards')
    return sorted(labels)


def solve_twice(case):
    """the whole solver, first computing and then with the cache"""
    clear()
    res = []
    for turn in range(2):
        m = model(case['rows'], case['seed'])

        def mod():
            return [m['dh'], list(m['vv']), list(m['params']), dict(m['pv']), m['unks']]
        G = solver.solve(case['name'], mod)
        R = G['R']
        res.append(dict(order=[str(n.symbol) for n in R.solution_nodes], solutions={u.name: [S(s) for s in u.solutions] for u in G['unks']},
                        table=sorted(map(str, R.solutionSet)), rows=[[str(e.LHS) + '=' + S(e.RHS) for e in r] for r in R.FinalEqnMatrix],
                        python=open('CodeGen/Python/IK_equations%s.py' % case['name']).read()))
    compare(res[1], res[0], 'solving with the cached kinematics')
    return ['%d solved' % len(res[0]['order'])]


def light(f):
    @functools.wraps(f)
    def g(case):
        with solver.light():
            return f(case)
    return g


edits = st.lists(st.tuples(st.integers(0, 5), st.integers(0, 3), st.integers(0, 14)).map(list), min_size=1, max_size=6)
loads = st.lists(st.tuples(st.lists(st.integers(0, 4), max_size=2), st.sampled_from([0, 1, 2, 3])).map(list), min_size=1, max_size=3)
cuts = st.lists(st.one_of(st.floats(0, 0.999), st.integers(1, 40)), min_size=3, max_size=12)
base = dict(rows=gens.dh_rows(2, 5), seed=st.integers(0, 99), name=st.sampled_from(NAMES))
SUBS = [Sub('load', st.fixed_dictionaries(dict(base, loads=loads)), light(twice), weight=3, case_timeout=90),
        Sub('load_simplified', st.fixed_dictionaries(dict(base, loads=loads, rows=gens.dh_rows(2, 2))), twice, weight=1, case_timeout=90),
        Sub('different_dh', st.fixed_dictionaries(dict(rows=gens.dh_rows(1, 6, rich=True), seed=gens.seeds, edits=edits)), differing, weight=.7),
        Sub('history', st.fixed_dictionaries(dict(robots=st.lists(st.tuples(gens.dh_rows(2, 3), st.integers(0, 99)).map(list), min_size=1, max_size=3), edits=edits,
                                                  runs=st.lists(st.tuples(st.sampled_from(NAMES), st.integers(0, 5), st.integers(0, 2)).map(list), min_size=2, max_size=7))),
            light(history), weight=3, case_timeout=120),
        Sub('truncated', st.fixed_dictionaries(dict(base, cuts=cuts)), light(damage), weight=1.3, case_timeout=90),
        Sub('interrupted', st.fixed_dictionaries(dict(base, cuts=cuts, size=st.sampled_from([3000, 20000, 60000]))), light(interrupted), weight=1.3, case_timeout=120)]
if os.environ.get('VERIF_TIER') == 'thorough':
    SUBS.append(Sub('solve_twice', st.fixed_dictionaries(dict(base, rows=gens.dh_rows(2, 3, gaps=False))), solve_twice, weight=2, case_timeout=200))
if __name__ == '__main__':
    main('C20', SUBS, 'random mechanisms; fresh results compared with loaded ones after edited/removed parameter values; edited DH tables; histories of runs of several robots through '
         'the forward kinematics script; cache files cut at random bytes and writes failing at random bytes; non-trivial: every executed case (labels give the outcome)',
         quick=45, thorough=600)
