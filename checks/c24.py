import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, bt
env.setup()
import b3, io
from hypothesis import strategies as st

KEYS = ['k', 'counter', 'is_open', 'i', 'Robot', '']
SCOPES = [(None, None), ('t1', None), ('t2', None), ('t1', 'n1'), ('t1', 'n2'), ('t2', 'n1'), ('k', None), ('k', 'k'), ('t1', 't2')]
values = st.one_of(st.integers(-3, 9), st.none(), st.booleans(), st.text(max_size=3), st.lists(st.integers(0, 3), max_size=2), st.floats(-2, 2))
ops = st.one_of(st.tuples(st.just('set'), st.integers(0, 5), st.integers(0, 8), values), st.tuples(st.just('get'), st.integers(0, 5), st.integers(0, 8)),
                st.tuples(st.just('inc'), st.integers(0, 5), st.integers(0, 8), st.integers(-4, 9)), st.tuples(st.just('all'))).map(list)


def memory(case):
    bb, other = b3.Blackboard(), b3.Blackboard()
    model = {}
    other.set('k', 'other')
    expect(bb.get('TotalCost') == 0, 'a new blackboard has total cost %s', bb.get('TotalCost'))
    n = 0

    def check(k, s):
        want = model.get((k, s))
        got = bb.get(KEYS[k], *SCOPES[s])
        expect(got is want if not isinstance(want, (int, float)) else got == want and type(got) is type(want),
               'key %r in scope %s: %r, last written %r', KEYS[k], SCOPES[s], got, want)
    for i, op in enumerate(case):
        if op[0] == 'set':
            bb.set(KEYS[op[1]], op[3], *SCOPES[op[2]])
            model[op[1], op[2]] = op[3]
        elif op[0] == 'inc':
            cur = model.get((op[1], op[2]))
            if type(cur) is int:
                bb.inc(KEYS[op[1]], op[3], *SCOPES[op[2]])
                model[op[1], op[2]] = cur + op[3]
                n += 1
        elif op[0] == 'get':
            check(op[1], op[2])
        if op[0] == 'all' or i == len(case) - 1:
            for k in range(len(KEYS)):
                for s in range(len(SCOPES)):
                    check(k, s)
    expect(other.get('k') == 'other' and bb.get('TotalCost') == 0, 'another blackboard or the total cost was changed')
    scopes = {(o[1], o[2]) for o in case if o[0] in ('set', 'inc')}
    return len({s for k, s in scopes}) > 1 and ['incremented' if n else 'not incremented', 'overwritten' if len(scopes) < sum(o[0] in ('set', 'inc') for o in case) else 'written once']


def cycle(case):
    want, ref = bt.run_ref(case)
    log = io.StringIO()
    got, nodes, bbs, ts = bt.run_real(case, log, case['log'])
    for i, (g, w) in enumerate(zip(got, want)):
        what = 'tick %d (tree %d, blackboard %d)' % (i + 1, case['steps'][i][0], case['steps'][i][1])
        expect(g[1] == w[1], '%s: calls %s\nby definition %s', what, g[1], w[1])
        expect(g[0] == w[0], '%s: status %s, by definition %s', what, g[0], w[0])
        if len(g) == 5:
            expect(g[2] == w[2], '%s: %s nodes counted, %s executed', what, g[2], w[2])
            expect(g[3] == w[3], '%s: total cost %s, by definition %s', what, g[3], w[3])
            expect(g[4] == w[4], '%s: open nodes %s, by definition %s', what, [n for n, o in enumerate(g[4]) if o], [n for n, o in enumerate(w[4]) if o])
    stopped = want[-1][0] == 'stopped'
    if not stopped:
        for n, node in enumerate(nodes):
            expect(node.N_ticks_all == ref.execs.get(n, 0), 'node %d was ticked %d times, its counter is %s', n, ref.execs.get(n, 0), node.N_ticks_all)
            expect(node.N_success == ref.succ.get(n, 0), 'node %d succeeded %d times, its counter is %s', n, ref.succ.get(n, 0), node.N_success)
            exp = [0] * 4
            exp[node.state] = ref.succ.get(n, 0)
            expect(list(node.N_suc2) == exp, 'successes of node %d by state: %s, should be %s', n, node.N_suc2, exp)
        for k, t in enumerate(ts):
            c = sum(s[0] == k for s in case['steps'][:len(want)])
            expect(t.tick_count == c, 'tree %d was ticked %d times, its counter is %s', k, c, t.tick_count)
        lines = [l for l in ref.lines if case['log'] and (case['log'] > 1 or l[0] == 'S')]
        expect(log.getvalue().splitlines() == lines, 'log file\n%s\nshould be\n%s', log.getvalue().splitlines(), lines)
    out = ['log %d' % case['log']]
    if any(len(w) == 5 and any(w[4]) for w in want):
        out.append('left open')
    if len({s[1] for s in case['steps']}) > 1:
        out.append('two blackboards')
    if any(len(b) == 5 and any(x and not y for x, y in zip(a[4], b[4])) for a, b in zip(want, want[1:]) if len(a) == 5):
        out.append('closed later')
    return out if len(ref.nodes) > 1 else None


@st.composite
def cycles(draw, **k):
    return dict(draw(bt.cases(**k)), log=draw(st.sampled_from([0, 1, 2])))


def identity(case):
    """nodes and trees have different identities (their memory would be mixed up otherwise)"""
    log, nodes = [], []
    ts = [b3.BehaviorTree() for _ in range(20)]
    for t in case['trees']:
        bt.make(t, log, nodes)
    ids = [n.id for n in nodes] + [t.id for t in ts]
    expect(len(set(ids)) == len(ids), 'two nodes have the same identity')
    return len(nodes) > 1


counters = st.lists(st.one_of(st.tuples(st.just('set'), st.integers(0, 1), st.integers(0, 4), st.integers(-5, 5)), st.tuples(st.just('inc'), st.integers(0, 1), st.integers(0, 4), st.integers(-4, 9)),
                              st.tuples(st.just('all'))).map(list), min_size=4, max_size=40)
SUBS = [Sub('counters', counters, memory, weight=.7), Sub('memory', st.lists(ops, min_size=1, max_size=40), memory, weight=1.5), Sub('life_cycle', cycles(deco=bt.DECO), cycle, weight=2),
        Sub('life_cycle_running', cycles(comp=('mseq', 'mpri', 'seq', 'or'), deco=('inv', 'rep')), cycle, weight=1), Sub('identity', bt.cases(), identity, weight=.3)]
if __name__ == '__main__':
    main('C24', SUBS, 'operation sequences on 9 scopes and 6 keys (also clashing ones) against dictionaries; forests of trees with scripted leaves ticked with one of two blackboards, call-back '
         'events, counters, costs, open flags and log file compared with a reference interpreter; non-trivial: two scopes written / more than one node', quick=25, thorough=300, strict=True)
