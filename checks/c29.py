import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, gens, solver
env.setup()
import ikbtbasics.kin_cl   # before ik_classes (the modules import each other)
from hypothesis import strategies as st
from vlib import leaf, eqs, steps
from checks import c28
import b3


def outcome(w, tool, k):
    try:
        with env.captured() as out:
            s = w.step(tool, k)
    except Exception as x:
        return 'stopped: %s: %s' % (type(x).__name__, x), {}, 0
    return s, dict(status=s, at_hand=w.u.name, unknowns=[u.name for u in w.unknowns], records=w.records(), lists=w.lists(), matrices=w.matrices(), additional=w.aux(),
                   order=[n.unknown.name for n in w.R.solution_nodes], edges=sorted(map(str, w.R.notation_graph_edges))), len(out.getvalue())


def compare(make, case):
    """the same steps without and with tracing"""
    with solver.light(True):
        plain, traced = make(case, [0]), make(case, case['traced'])
        plain, traced = (x[1] if isinstance(x, tuple) else x for x in (plain, traced))
        solved, more = set(), 0
        for i, (tool, k) in enumerate(case['steps']):
            where = 'step %d, %s for %s' % (i + 1, tool, plain.u)
            (s, a, n), (t, b, m) = outcome(plain, tool, k), outcome(traced, tool, k)
            expect(s == t, '%s: without tracing %s, with tracing %s', where, s, t)
            for key in a:
                if a[key] != b[key]:
                    d = [(x, y) for x, y in zip(a[key], b[key]) if x != y] if isinstance(a[key], list) else \
                        [(n, f, v, b[key].get(n, {}).get(f)) for n in a[key] for f, v in a[key][n].items() if v != b[key].get(n, {}).get(f)] if isinstance(a[key], dict) else (a[key], b[key])
                    raise Violation('%s: tracing changes the %s: %s' % (where, key.replace('_', ' '), d[:4]))
            if not a:
                break
            more += m > n
            if s == b3.SUCCESS and tool in steps.SOLVERS:
                solved.add(tool)
    return more > 0 and sorted(solved or {'nothing solved'})


def robot(case):
    return compare(steps.mech_world, case)


def system(case):
    return compare(lambda c, t: steps.scene_world(c['scene'], t), case)


flags = st.one_of(st.just([1]), st.just([1]), st.lists(st.integers(0, 1), min_size=2, max_size=7))
robots = st.fixed_dictionaries(dict(rows=gens.dh_rows(2, 4, odd=False), seed=st.integers(0, 999), steps=steps.programs(2), traced=flags))
systems = st.fixed_dictionaries(dict(scene=c28.scenes(), steps=steps.programs(1, True), traced=flags))
SUBS = [Sub('robot', robots, robot, case_timeout=60), Sub('system', systems, system)]
if __name__ == '__main__':
    main('C29', SUBS, 'random robots with two to four joints and random systems of equations; the same random sequence of solver steps (as for C28) without tracing and with tracing (BHdebug) of all or some nodes; '
         'statuses, records, equations and lists compared after each step; non-trivial: something more was printed', quick=50, thorough=600)
