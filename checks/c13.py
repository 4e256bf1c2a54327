import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, num, gens
env.setup()
import ikbtbasics.kin_cl   # before ik_classes (the modules import each other)
import sympy as sp
from hypothesis import strategies as st
import ikbtbasics.ik_classes as ic
from vlib import leaf, hist
import ikbtfunctions.helperfunctions as hf


@st.composite
def cases(draw):
    h = draw(hist.histories(max_unknowns=8, max_two=8))
    for s in h['steps']:            # also three solutions
        if draw(st.integers(0, 4)) == 0:
            s[1] = s[1] + [s[1][0] + ' + pi'] * 1
    end = draw(st.sampled_from(['', '', '', 'empty', 'unsolved', 'self']))
    extra = None
    left = [n for n in hist.NAMES if n not in h['listed']]
    if end == 'empty':
        extra = [left[0], []]
    elif end == 'unsolved':
        f = draw(hist.formulas(left[0], [left[1]], h['params']))
        extra = [left[0], f if draw(st.booleans()) else ['Px', 'sin(%s)' % left[1]]]
    elif end == 'self':
        extra = [left[0], draw(st.sampled_from([['Px*cos(%s)' % left[0]], ['Pz', 'Pz + %s' % left[0]]]))]
    return dict(h, end=end, extra=extra, unsolved=left[:draw(st.integers(0, 3))])


def names_in(e, names):
    return {n for n in names if sp.Symbol(n) in leaf.expr(e).free_symbols}


def check(R, unknowns, by, done):
    names = [n for n, _ in done]
    nsol = {n: len(s) for n, s in done}
    expect([x.unknown for x in R.solution_nodes] == [by[n] for n in names] and all(x.unknown is by[n] for x, n in zip(R.solution_nodes, names)),
           'solution nodes %s, solved in the order %s', R.solution_nodes, names)
    expect(R.solveN == len(done), 'solve counter %s after %d', R.solveN, len(done))
    edges = set()
    for k, (n, sols) in enumerate(done):
        u = by[n]
        deps = set().union(*[names_in(s, by) for s in sols]) if sols else set()
        edges |= {(n, d) for d in deps}
        expect(u.solved, '%s is not marked solved', n)
        expect({d.name for d in u.dependencies} == deps and all(d is by[d.name] for d in u.dependencies), '%s = %s depends on %s', n, sols, u.dependencies)
        expect(all(by[d].solveorder < u.solveorder for d in deps), '%s depends on something solved later', n)
        expect(u.solveorder == k + 1, 'solve order of %s is %s, position %d', n, u.solveorder, k + 1)
        expect(u.nsolutions == len(sols) and list(u.solutions) == [leaf.expr(s) for s in sols], 'solutions of %s changed: %s', n, u.solutions)
        v = len(sols)
        for d in deps:
            v *= nsol[d]
        expect(u.nversions == v, '%s has %d solutions, depends on %s: %s versions, expected %d', n, len(sols), deps, u.nversions, v)
        expect(len(u.solutionNames) == len(sols) == len(set(u.solutionNames)), 'solution names %s', u.solutionNames)
        expect(all(str(x).startswith(n + 's') for x in u.solutionNames), 'solution names of %s: %s', n, u.solutionNames)
        expect(len(u.versionNames) == v and set(u.versionNames) == set(u.solutionNames), 'version names of %s: %s (solutions %s)', n, u.versionNames, u.solutionNames)
        expect(all(u.versionNames.count(x) == v // len(sols) for x in u.solutionNames), 'versions are not spread evenly over the solutions: %s', u.versionNames)
    got = [(e.StartNode.name, e.dependsOn.name) for e in R.notation_graph_edges]
    expect(len(got) == len(set(got)) and set(got) == edges, 'edges %s, expected %s', sorted(got), sorted(edges))
    for n, u in by.items():
        if n not in names:
            expect(not u.solved and not u.solutions and not u.dependencies and u.solveorder == 0, 'unsolved %s was changed: %s', n, u.details())
    return edges


def run(case):
    R = ic.Robot()
    listed = list(case['listed'])
    if case['extra']:
        listed.append(case['extra'][0])
        listed += [n for n in case['unsolved'] + names_l(case['extra']) if n not in listed]
    else:
        listed += [n for n in case['unsolved'] if n not in listed]
    unknowns = [leaf.unknown(n) for n in listed]
    by = {u.name: u for u in unknowns}
    done, edges = [], set()
    for n, sols in case['steps']:
        leaf.solve(by[n], R, unknowns, [leaf.expr(s) for s in sols])
        done.append([n, sols])
        edges = check(R, unknowns, by, done)
        for s in sols:
            expect({d.name for d in hf.get_deps(unknowns, leaf.expr(s))} == names_in(s, by), 'get_deps(%s)', s)
    if case['extra']:
        n, sols = case['extra']
        try:
            leaf.solve(by[n], R, unknowns, [leaf.expr(s) for s in sols])
        except AssertionError:
            pass
        else:
            unsolved = [x for s in sols for x in names_in(s, by) if x not in [d[0] for d in done]]
            expect(sols and not unsolved, '%s was accepted with solutions %s (unsolved in them: %s)', n, sols, unsolved)
            check(R, unknowns, by, done + [[n, sols]])
            return bool(edges) and ['accepted']
        expect(len(R.solution_nodes) == len(done) and {(e.StartNode.name, e.dependsOn.name) for e in R.notation_graph_edges} == edges,
               'a refused solution was recorded in the graph: %s', R.solution_nodes)
        return ['refused', case['end']]
    return bool(edges) and ['accepted']


def names_l(x):
    return [n for n in hist.NAMES if any(sp.Symbol(n) in leaf.expr(s).free_symbols for s in x[1])]


SUBS = [Sub('history', cases(), run)]
if __name__ == '__main__':
    main('C13', SUBS, 'histories of 1-8 unknowns (joints and sums of angles, in random list order) with 1-3 solutions each that mention random earlier unknowns; after every step '
         'the whole record is compared with the history; histories end with a solution that must be refused (empty, mentioning an unsolved unknown or itself) in half of the '
         'cases; non-trivial: at least one dependency, or a refusal', quick=25, thorough=300, strict=True)
