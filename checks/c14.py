import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, num, gens
env.setup()
import ikbtbasics.kin_cl   # before ik_classes (the modules import each other)
import math, random
import sympy as sp
from hypothesis import strategies as st
from vlib import leaf, hist


def table(R):
    """the published table: rows of (lhs name, rhs)"""
    return [[(str(e.LHS), sp.sympify(e.RHS)) for e in row] for row in R.FinalEqnMatrix]


def run(case):
    R, unknowns, by = hist.build(case)
    R.create_solution_set()
    R.make_LHS_versions()
    names = [n for n, _ in case['steps']]
    total = 1
    for n, s in case['steps']:
        total *= len(s)
    T = table(R)
    expect(len(T) == total and R.nversions == total, '%d rows for %d combinations (nversions %s)', len(T), total, R.nversions)
    expect(all(len(r) == len(names) for r in T), 'row lengths %s for %d unknowns', [len(r) for r in T], len(names))
    # every version is computed exactly once; column by column, everything it needs is there
    known = set()
    defs = {}
    for k, n in enumerate(names):
        new = []
        for row in T:
            lhs, rhs = row[k]
            expect(lhs.startswith(n + 'v'), 'column %d is for %s, but a row computes %s', k, n, lhs)
            expect(lhs not in defs, '%s is computed twice', lhs)
            bad = [s for s in map(str, rhs.free_symbols) if s not in known and s not in leaf.TARGET and s not in case['params']]
            expect(not bad, 'row %s: %s is computed from %s, which is not computed before', row, lhs, bad)
            defs[lhs] = rhs
            new.append(lhs)
        known |= set(new)
    # row by row: each needs only its own row or rows above (left to right)
    seen = set()
    for row in T:
        for lhs, rhs in row:
            bad = [s for s in map(str, rhs.free_symbols) if s not in seen and s not in leaf.TARGET and s not in case['params']]
            expect(not bad, '%s needs %s, which is not computed to the left or above', lhs, bad)
            seen.add(lhs)
    # published names
    pub = [tuple(map(str, r)) for r in R.solListMatrix]
    expect(len(pub) == total and len(set(pub)) == total and {tuple(map(str, t)) for t in R.solutionSet} == set(pub),
           'published rows %s (%d), set %s', pub, total, R.solutionSet)
    for r in pub:
        expect(len(r) == len(names) and all(x.startswith(n + 'v') for x, n in zip(r, names)), 'published row %s for unknowns %s', r, names)
        expect(all(x in defs for x in r), 'published row %s names variables that are not computed: %s', r, [x for x in r if x not in defs])
    # values: the choice made in every row, identified numerically
    rng = random.Random(31)
    env_ = hist_env(case, rng)
    got_choices = []
    vals = {}
    for k in range(len(names)):
        for row in T:
            lhs, rhs = row[k]
            try:
                vals[lhs] = num.ev(rhs, {**env_, **vals})
            except (num.Undefined, num.Unbound):
                pass
    model = hist.evaluate(case, env_)
    full = [(c, v) for c, v in model if all(x is not None for x in v.values())]
    if not full:
        structure(case, T)
        return False
    for what, rows in (('table', [[x[0] for x in r] for r in T]), ('published', [list(r) for r in pub])):
        left = list(full)
        for r in rows:
            if any(x not in vals for x in r):
                continue
            m = [i for i, (c, v) in enumerate(left) if all(hist.near(n, vals[x], v[n], 1e-7) for x, n in zip(r, names))]
            expect(m, '%s row %s has values %s, which is no remaining combination of the solutions (%s)', what, r, [vals[x] for x in r],
                   [list(v.values()) for _, v in left][:8])
            left.pop(m[0])
        expect(not left, '%s: combinations missing: %s', what, [(c, v) for c, v in left][:4])
    for r, p in zip(T, pub):
        for (lhs, _), x in zip(r, p):
            if lhs in vals and x in vals:
                expect(abs(vals[lhs] - vals[x]) < 1e-9 * (1 + abs(vals[x])), 'row computes %s but publishes %s with another value', lhs, x)
    structure(case, T)
    deps = sum(1 for n, s in case['steps'] if any(sp.Symbol(m) in leaf.expr(x).free_symbols for x in s for m in names))
    return total > 1 and ['deps' if deps else 'independent', '%d rows' % total]


def structure(case, T):
    """without numbers: stripping the versions from a right-hand side gives one of the solutions of that unknown, rows choose
    different combinations, and inside a row the versions used belong to the row's own choices"""
    names = [n for n, _ in case['steps']]
    choice = {}
    combos = set()
    for k, (n, sols) in enumerate(case['steps']):
        S = [leaf.expr(s) for s in sols]
        for row in T:
            lhs, rhs = row[k]
            strip = {s: sp.Symbol(str(s).rsplit('v', 1)[0]) for s in rhs.free_symbols if str(s) in choice}
            e = rhs.xreplace(strip)
            m = [i for i, s in enumerate(S) if s == e or sp.expand(s - e) == 0]
            expect(m, '%s = %s is none of the solutions of %s: %s', lhs, rhs, n, S)
            choice[lhs] = m
    for row in T:
        own = {n: choice[lhs] for n, (lhs, _) in zip(names, row)}
        for lhs, rhs in row:
            for s in map(str, rhs.free_symbols):
                if s in choice:
                    n = s.rsplit('v', 1)[0]
                    expect(set(choice[s]) & set(own[n]), '%s = %s uses %s, a different solution of %s than its row', lhs, rhs, s, n)


def hist_env(case, rng):
    T = hist.target(rng, 0.8)
    e = num.target_env(T)
    e.update(hist.param_values(case, rng))
    return e


SUBS = [Sub("table", hist.histories(max_unknowns=5, max_two=3), run, weight=2), Sub("large", hist.histories(max_unknowns=9, max_two=5, min_unknowns=3), run, weight=1), Sub('wide', hist.wide(7, 12), run, weight=.5)]
if __name__ == '__main__':
    main('C14', SUBS, 'histories of 1-12 unknowns with one or two solutions each (up to 128 rows) (formulas as the solvers produce them, mentioning random earlier unknowns, at most 5 with two '
         'solutions); table compared with an independent enumeration of all combinations, by structure and by values at a random target pose; '
         'non-trivial: more than one row', quick=30, thorough=400, strict=True)
