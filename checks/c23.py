import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, bt
env.setup()
import b3
from hypothesis import strategies as st


def decorators(case):
    ref, want, got, nodes = bt.compare_ticks(case, expect)
    ks = set().union(*[bt.kinds(t) for t in case['trees']])
    if not ks & set(bt.DECO):
        return None
    out = [k for k in bt.DECO if k in ks]
    if want[-1][0] == 'stopped':
        out.append('endless')
    if any(len(w) == 5 and any(w[4]) for w in want[:-1]):
        out.append('resumed')
    return out


@st.composite
def chains(draw):
    """decorators directly above a leaf with a long script"""
    t = ['leaf', draw(st.text(draw(st.sampled_from(['SFR', 'SFFR', 'SSR', 'SFRE', 'FFR'])), min_size=2, max_size=12)), 0, 0]
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(bt.DECO))
        t = [k, t] if k == 'inv' else [k, t, draw(st.sampled_from([0, 1, 2, 5] if k == 'maxt' else [0, 1, 2, 3] if k == 'lim' else [-1, 0, 1, 2, 3, 5]))]
    return dict(trees=[t], steps=[[0, 0, draw(st.sampled_from([0, 0.5, 1, 2, 3]))] for _ in range(draw(st.integers(1, 16)))])


def nochild(case):
    """a decorator without a child returns an error"""
    import b3 as b
    cls = getattr(b, case)
    n = cls(None) if case == 'Inverter' else cls(None, 3)
    t = b.BehaviorTree()
    t.root = n
    s = t.tick(None, b.Blackboard())
    expect(s == b.ERROR, '%s without a child returns %s', case, s)
    return True


SUBS = [Sub('chains', chains(), decorators, weight=2), Sub('decorators', bt.cases(comp=('seq', 'pri', 'mseq'), deco=bt.DECO * 2, depth=3), decorators, weight=2),
        Sub('no_child', None, nochild, exhaustive=['Inverter', 'Limiter', 'MaxTime', 'Repeater', 'RepeatUntilFailure', 'RepeatUntilSuccess'])]
if __name__ == '__main__':
    main('C23', SUBS, 'random trees and chains of decorators over leaves with scripted statuses, a controlled clock advancing between ticks, counts -1..5 and limits 0..5; statuses and executed '
         'nodes compared with a reference interpreter; non-trivial: a decorator in the tree', quick=25, thorough=300, strict=True)
