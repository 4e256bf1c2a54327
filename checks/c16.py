import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, num, gens
env.setup()
import ikbtbasics.kin_cl as kc   # before ik_classes (the modules import each other)
import math, random, re, subprocess
import numpy as np
import sympy as sp
from hypothesis import strategies as st
import ikbtbasics.ik_classes as ic
import ikbtfunctions.output_cpp as oc
from vlib import leaf, hist

ROBOT_NAMES = ['Puma', 'Raven-II', 'My_Robot', 'test: Wrist', 'KR16']
METHODS = ['', 'algebra', 'arcsin, best ranked, atan2(y,x)', 'sinANDcos', 'simultaneous eqn', 'x2z2 transform']

DRIVER = r'''
#define main generated_main
#include "%s"
#undef main
#include <stdlib.h>
#include <string.h>
#define N %d
#define M %d
static struct { unsigned char before[4096]; double t[N][M]; unsigned char after[65536]; } area;
int main() {
  int rows, cols, cases; double T[4][4];
  if (scanf("%%d %%d %%d", &cases, &rows, &cols) != 3) return 9;
  for (int c = 0; c < cases; c++) {
    for (int i = 0; i < 16; i++) if (scanf("%%lf", &T[i/4][i%%4]) != 1) return 9;
    memset(&area, 0x5a, sizeof area);
    int r = ikin(T, area.t);
    int bad = 0;
    for (unsigned i = 0; i < sizeof area.before; i++) bad += area.before[i] != 0x5a;
    for (unsigned i = 0; i < sizeof area.after; i++) bad += area.after[i] != 0x5a;
    printf("case %%d %%d\n", r, bad);
    for (int i = 0; i < rows; i++) { for (int j = 0; j < cols; j++) printf("%%.17g ", area.t[i][j]); printf("\n"); }
  }
  return 0;
}
'''


@st.composite
def cases(draw, mu=5, mt=3, mn=1):
    h = draw(hist.histories(max_unknowns=mu, max_two=mt, min_unknowns=mn))
    h['name'] = draw(st.sampled_from(ROBOT_NAMES))
    h['methods'] = [draw(st.sampled_from(METHODS)) for _ in h['steps']]
    h['poses'] = draw(st.lists(gens.seeds, min_size=2, max_size=4))
    h['reach'] = draw(st.sampled_from([0.3, 1.5, 3.0]))
    return h


def wide():
    return hist.wide().map(lambda h: dict(h, name='Wide', methods=[''] * len(h['steps']), poses=[1], reach=1.0))


def make(case, seed=0):
    rng = random.Random(seed)
    vals = hist.param_values(case, rng)
    R = ic.Robot()
    R.name = case['name']
    R.params = [sp.Symbol(p) for p in case['params']]
    R.Mech = kc.mechanism(sp.zeros(6, 4), list(R.params), [1] * 6)
    R.Mech.pvals = {sp.Symbol(k): v for k, v in vals.items()}
    unknowns = [leaf.unknown(n) for n in case['listed']]
    by = {u.name: u for u in unknowns}
    for (n, sols), m in zip(case['steps'], case['methods']):
        by[n].solvemethod = m
        leaf.solve(by[n], R, unknowns, [leaf.expr(s) for s in sols])
    R.create_solution_set()
    R.make_LHS_versions()
    return R, vals


def evaluate(case, env_, pi):
    """as hist.evaluate, with another value of pi"""
    P = sp.Symbol('PI')
    steps = [[n, [leaf.expr(s).xreplace({sp.pi: P}) for s in sols]] for n, sols in case['steps']]
    import itertools
    memo, out = {}, []
    for c in itertools.product(*[range(len(s)) for _, s in steps]):
        d = dict(env_)
        d['PI'] = pi
        vals = {}
        for k, (n, sols) in enumerate(steps):
            key = c[:k + 1]
            if key not in memo:
                try:
                    memo[key] = num.ev(sols[c[k]], {x: v for x, v in d.items() if v is not None})
                except (num.Undefined, num.Unbound):
                    memo[key] = None
            d[n] = vals[n] = memo[key]
        out.append(vals)
    return out


def border(case, rng, vals, T):
    B = hist.border_target(case, rng, vals, case['reach'])
    return T if B is None else B


def run(case):
    R, vals = make(case, case['poses'][0])
    for n in os.listdir('CodeGen/Cpp'):
        os.remove('CodeGen/Cpp/' + n)
    oc.output_cpp_code(R, R.solutionSet)
    files = [x for x in os.listdir('CodeGen/Cpp')]
    expect(len(files) == 1 and files[0].endswith('.cpp'), 'generated files: %s', files)
    path = 'CodeGen/Cpp/' + files[0]
    src = open(path).read()
    for p in case['params']:
        expect(len(re.findall(r'\b%s = XXXXX' % re.escape(p), src)) == 1, 'parameter %s has no place for its value', p)
        src = re.sub(r'\b%s = XXXXX' % re.escape(p), lambda m: '%s = %r' % (p, vals[p]), src)
    expect('XXXXX' not in src, 'values to be filled in for something that is no parameter')
    m = re.search(r'\bikin\s*\(\s*double\s+\w+\s*\[4\]\s*\[4\]\s*,\s*double\s+\w+\s*\[(\d+)\]\s*\[(\d+)\]\s*\)\s*;', src)
    expect(m, 'no declaration of ikin() with the size of its table')
    N, M = int(m.group(1)), int(m.group(2))
    m2 = re.search(r'double\s+sol_list\s*\[(\d+)\]\s*\[(\d+)\]', src)
    expect(not m2 or (int(m2.group(1)), int(m2.group(2))) == (N, M), 'main() uses a table of another size')
    total = 1
    for n, s in case['steps']:
        total *= len(s)
    expect(N >= total and M >= len(case['steps']), 'the table is %d x %d, %d rows of %d values are needed', N, M, total, len(case['steps']))
    open('gen.cpp', 'w').write(src)
    open('drv.cpp', 'w').write(DRIVER % ('gen.cpp', N, M))
    c = subprocess.run(['g++', '-O0', '-w', '-o', 'drv', 'drv.cpp'], capture_output=True, text=True)
    if c.returncode != 0:
        lines = [l for l in c.stderr.splitlines() if 'error' in l]
        raise Violation('the generated C++ does not compile: %s' % '; '.join(lines[:3]))
    poses = []
    for seed in case['poses']:
        rng = random.Random(seed)
        poses.append(hist.target(rng, case['reach']))
        if seed == case['poses'][-1] and seed % 4:
            poses[-1] = border(case, rng, vals, poses[-1])
    text = '%d %d %d\n' % (len(poses), total, len(case['steps'])) + '\n'.join(' '.join(repr(float(x)) for x in np.array(T).flatten()) for T in poses)
    o = subprocess.run(['./drv'], input=text, capture_output=True, text=True, timeout=20)
    expect(o.returncode == 0, 'the generated code ends with status %s', o.returncode)
    lines = iter(o.stdout.splitlines())
    labels = set()
    names = [n for n, _ in case['steps']]
    order = sorted(range(len(names)), key=lambda k: names[k] + 'v')
    for T in poses:
        _, r, bad = next(lines).split()
        got = [[float(x) for x in next(lines).split()] for _ in range(total)]
        expect(bad == '0', 'the function writes outside its table')
        env_ = num.target_env(T)
        env_.update(vals)
        dom = hist.domain_ok(case, env_)
        if dom is None or hist.domain_ok(dict(case, steps=[[n, [x.replace('pi', '3.1415926') for x in f]] for n, f in case['steps']]), env_) != dom:
            continue
        if dom is False:
            want = hist.evaluate(case, env_)
            expect(r == '0', 'an argument of asin/acos is out of range, but the function reports success')
            labels.add('unreachable')
            continue
        expect(r != '0', 'the function reports failure at a pose where all arguments are in range')
        models = [evaluate(case, env_, p) for p in (math.pi, 3.1415926)]
        left = list(range(total))
        for k in range(total):
            ws = [[list(mo[k].values())[i] for i in order] for mo in models]
            if any(x is None for w in ws for x in w):
                continue
            m = [i for i in left if any(all(hist.near(names[o], a, b, 2e-7) for o, a, b in zip(order, got[i], w)) for w in ws)]
            expect(m, 'row %s of the solution table is missing from the result %s', ws[0], got[:16])
            left.remove(m[0])
        labels.add('rows' if total > 1 else 'one row')
    labels.discard('one row' if 'rows' in labels else '')
    return sorted(labels)


SUBS = [Sub('cpp_ik', cases(), run, weight=3), Sub('large', cases(8, 5, 4), run, weight=1), Sub('table_size', wide(), run, weight=1)]
if __name__ == '__main__':
    main('C16', SUBS, 'synthetic solution histories of 1-9 unknowns (formulas as the solvers produce them), and wide ones up to 14 unknowns or 128 rows; the generated C++ is '
         'compiled (parameter placeholders filled in) with a driver that calls it on a guarded table at 2-4 random rigid poses, and compared with an independent enumeration; '
         'non-trivial: compared with the table, or a refusal checked', quick=50, thorough=500)
