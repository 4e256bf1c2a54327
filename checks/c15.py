import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, num, gens
env.setup()
import ikbtbasics.kin_cl as kc   # before ik_classes (the modules import each other)
import ast, math, random, re, types
import numpy as np
import sympy as sp
from hypothesis import strategies as st
import ikbtbasics.ik_classes as ic
import ikbtfunctions.output_python as op
from vlib import leaf, hist

ROBOT_NAMES = ['Puma', 'Raven-II', 'My_Robot', 'R2 D2', 'test: Wrist', 'a.b', 'KR16']


@st.composite
def cases(draw, mu=5, mt=3):
    h = draw(hist.histories(max_unknowns=mu, max_two=mt))
    h['name'] = draw(st.sampled_from(ROBOT_NAMES))
    h['values'] = draw(st.sampled_from(['numbers', 'numbers', 'text', 'some', 'none']))
    h['poses'] = draw(st.lists(gens.seeds, min_size=2, max_size=4))
    h['reach'] = draw(st.sampled_from([0.3, 1.5, 3.0]))
    return h


def make(case, seed=0):
    """robot with the history solved; returns (R, parameter values as floats)"""
    rng = random.Random(seed)
    vals = hist.param_values(case, rng)
    pv = {sp.Symbol(k): v for k, v in vals.items()}
    if case['values'] == 'text' and len(case['params']) >= 2:
        a, b = case['params'][0], case['params'][-1]
        pv[sp.Symbol(b)] = draw_text = ['np.cos(%s)' % a, '2*%s' % a, 'sqrt(%s)' % a, 'pi/4'][seed % 4]
        vals[b] = [math.cos(vals[a]), 2 * vals[a], math.sqrt(vals[a]), math.pi / 4][seed % 4]
    R = ic.Robot()
    R.name = case['name']
    R.params = [sp.Symbol(p) for p in case['params']]
    R.Mech = kc.mechanism(sp.zeros(6, 4), list(R.params), [1] * 6)
    R.Mech.params = R.params
    if case['values'] == 'some':
        pv = {p: v for i, (p, v) in enumerate(pv.items()) if (seed >> i) & 1}
    R.Mech.pvals = {} if case['values'] == 'none' else pv
    hist.build(case, R=R)
    R.create_solution_set()
    R.make_LHS_versions()
    return R, vals


def load(path, case, vals):
    src = open(path).read()
    if case['values'] in ('none', 'some'):
        for p in case['params']:
            if case['values'] == 'some' and re.search(r'^\s+%s = [-\d.e]+$' % re.escape(p), src, re.M):
                continue
            expect(re.search(r'^\s+%s = XXXXX' % re.escape(p), src, re.M), 'parameter %s has no place for its value', p)
            src = re.sub(r'^(\s+%s = )XXXXX' % re.escape(p), lambda m: m.group(1) + repr(vals[p]), src, flags=re.M)
    try:
        tree = ast.parse(src)
    except SyntaxError as e:
        raise Violation('the generated file is not valid Python: %s, line %s: %s' % (e.msg, e.lineno, e.text))
    out = []
    g = {'__name__': 'generated', 'print': lambda *a, **k: out.append(a)}
    before = set(os.listdir('.'))
    exec(compile(tree, path, 'exec'), g)
    expect(not out and set(os.listdir('.')) == before, 'importing the generated file has side effects: %s', out)
    fs = [v for k, v in g.items() if k.startswith('ikin') and isinstance(v, types.FunctionType)]
    expect(len(fs) == 1, 'no solver function in the generated file')
    return fs[0], src


def rows_of(case, env_):
    """expected rows: values in alphabetical order of the version names, i.e. of the unknowns' names (all distinct)"""
    names = [n for n, _ in case['steps']]
    order = sorted(range(len(names)), key=lambda k: names[k] + 'v')
    return [[list(v.values())[k] for k in order] for _, v in hist.evaluate(case, env_)]


def match_rows(got, want, tol, what, names):
    names = sorted(names, key=lambda n: n + 'v')
    left = list(range(len(got)))
    for w in want:
        if any(x is None for x in w):
            continue
        m = [i for i in left if len(got[i]) == len(w) and all(hist.near(n, a, b, tol) for n, a, b in zip(names, got[i], w))]
        expect(m, '%s: row %s of the solution table is missing from the result %s', what, w, [list(map(float, g)) for g in got][:16])
        left.remove(m[0])


def shape_tests(f, src):
    for bad in (np.eye(3), np.zeros((4, 3)), np.zeros((3, 4)), np.zeros((5, 5)), np.zeros(16)):
        try:
            with env.captured():
                r = f(bad)
        except (Exception, SystemExit):
            continue
        expect(r is False, 'a target of shape %s is accepted, result %s', bad.shape, r)


def run(case):
    R, vals = make(case, case['poses'][0])
    for n in os.listdir('CodeGen/Python'):
        os.remove('CodeGen/Python/' + n)
    op.output_python_code(R, R.solutionSet)
    import gc; gc.collect()
    files = os.listdir('CodeGen/Python')
    expect(len(files) == 1 and files[0].endswith('.py'), 'generated files: %s', files)
    f, src = load('CodeGen/Python/' + files[0], case, vals)
    shape_tests(f, src)
    total = 1
    for n, s in case['steps']:
        total *= len(s)
    labels = set()
    for k, seed in enumerate(case['poses']):
        rng = random.Random(seed)
        T = hist.target(rng, case['reach'])
        if k == len(case['poses']) - 1:
            T = hist.border_target(case, rng, vals, case['reach']) if seed % 4 else T
            if T is None:
                continue
            labels.add('border')
        env_ = num.target_env(T)
        env_.update(vals)
        dom = hist.domain_ok(case, env_)
        want = rows_of(case, env_)
        undefined = any(x is None for w in want for x in w)
        try:
            with env.captured():
                r = f(np.matrix(T) if k % 2 else T.copy())
        except (ValueError, ZeroDivisionError, OverflowError) as e:
            expect(undefined, 'evaluating at a pose where everything is defined fails with %r', e)
            expect(dom is not False or not hist.only_domain(case, env_), 'the argument of an asin/acos is out of range, but the function fails with %r instead of returning False', e)
            continue
        if dom is None:
            continue
        if dom is False:
            expect(r is False, 'the argument of an asin/acos is out of range, but the function returns %s', r)
            labels.add('unreachable')
            continue
        expect(r is not False, 'the function returns False at a pose where all arguments are in range; rows %s', want[:4])
        expect(isinstance(r, list) and len(r) == total, '%s rows returned for %d combinations', len(r), total)
        match_rows(r, want, 1e-7, 'pose %d' % seed, [n for n, _ in case['steps']])
        labels.add('rows' if total > 1 else 'one row')
    labels.discard('one row' if 'rows' in labels else '')
    if labels == {'border'}:
        return None
    return labels and sorted(labels | {case['values']})


SUBS = [Sub('python_ik', cases(), run, weight=3), Sub('large', cases(9, 5), run, weight=1),
        Sub('wide', hist.wide().map(lambda h: dict(h, name='Wide', values='none', poses=[1, 2], reach=1.0)), run, weight=.5)]
if __name__ == '__main__':
    main('C15', SUBS, 'synthetic solution histories of 1-14 unknowns and 1-128 rows (formulas as the solvers produce them), robot names, numerical, textual or missing parameter values; the generated '
         'file is parsed, imported and its function called at 2-4 random rigid poses (near and far) and with badly shaped targets, and compared with an independent enumeration; '
         'non-trivial: a result was compared with the table or a refusal checked', quick=35, thorough=400)
