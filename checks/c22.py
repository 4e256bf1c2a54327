import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, bt
env.setup()
import b3


def labels(case, want):
    ks = set().union(*[bt.kinds(t) for t in case['trees']])
    out = [k for k in bt.COMP + bt.DECO if k in ks]
    running = [i for i, w in enumerate(want) if any(w[4])] if all(len(w) == 5 for w in want) else []
    if running and running[0] < len(want) - 1:
        out.append('resumed')
    if len({s[1] for s in case['steps']}) > 1:
        out.append('two blackboards')
    return out


def composites(case):
    ref, want, got, nodes = bt.compare_ticks(case, expect)
    if len(got[-1]) == 5:
        for n, d in enumerate(ref.nodes):
            if d[0] in ('seq', 'pri', 'or') and n in ref.execs:
                expect(nodes[n].Cost == ref.cost[n], 'cost of node %d (%s): %s, sum over its executed children: %s', n, d[0], nodes[n].Cost, ref.cost[n])
    ks = set().union(*[bt.kinds(t) for t in case['trees']])
    return labels(case, want) if ks & set(bt.COMP) else None


def memory(case):
    return composites(case)


SUBS = [Sub('composites', bt.cases(), composites, weight=3),
        Sub('memory', bt.cases(comp=('mseq', 'mpri', 'mseq', 'mpri', 'or')), memory, weight=2),
        Sub('with_decorators', bt.cases(deco=bt.DECO), composites, weight=1)]
if __name__ == '__main__':
    main('C22', SUBS, 'forests of 1-2 random trees (depth up to 5, up to 4 children, also none) of composites over leaves with scripted statuses and costs, ticked 1-14 times with one of two '
         'blackboards; statuses, executed nodes in order and costs compared with a reference interpreter; non-trivial: the forest has a composite', quick=25, thorough=300, strict=True)
