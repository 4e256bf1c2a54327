import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env
env.setup()
import ikbtbasics.kin_cl as kc   # before ik_classes (the modules import each other)
import b3
import sympy as sp
from hypothesis import strategies as st
from ikbtleaves.assigner_leaf import assigner
from ikbtleaves.comp_detect import comp_det

NAMES = ['th_%d' % i for i in range(1, 7)] + ['d_1', 'd_3', 'th_12', 'th_23', 'th_234', 'th_45']


def fresh(names):
    out = []
    for n in names:
        u = kc.unknown(sp.Symbol(n))
        out.append(u)
    return out


def tick(node, bb):
    t = b3.BehaviorTree()
    t.root = node
    return t.tick(None, bb)


def rotation(case):
    us = fresh(case['names'])
    bb = b3.Blackboard()
    bb.set('unknowns', us)
    node = assigner()
    waiting = [0] * len(us)          # offers since the unknown was offered last (while unsolved)
    last = {-1}                      # possible positions of the previous offer in this round
    shared = b3.BehaviorTree()
    shared.root = node
    wraps = offered_solved = 0
    for op in case['ops']:
        if op[0] == 'solve':
            u = us[op[1] % len(us)]
            u.solved = True
            continue
        if op[0] == 'add':           # a new unknown (sum of angles) appears
            free = [n for n in NAMES if n not in [u.name for u in us]]
            if free and op[1] % 3 == 0:
                us += fresh(free[:1])
                waiting.append(0)
            continue
        before = [(u.name, u.solved) for u in us]
        s = shared.tick(None, bb) if op[1] % 2 else tick(node, bb)
        expect(s == b3.SUCCESS, 'the assigner returns %s', s)
        expect([(u.name, u.solved) for u in us] == before and bb.get('unknowns') is us, 'the assigner changed the unknowns')
        cur = bb.get('curr_unk')
        where = [i for i, u in enumerate(us) if u is cur]
        expect(len(where) == 1, 'offered is %s, unknowns are %s', cur, us)
        i = where[0]
        new = set()
        for l in last:
            rest = [k for k, u in enumerate(us) if k > l and not u.solved]
            if rest:
                if i == rest[0]:
                    new.add(i)
            else:                    # the round is over: a new one starts
                wraps += 1
                new |= {-1, i}
        st_ = [(u.name, 'solved' if u.solved else '') for u in us]
        expect(new, 'unknowns %s: after position %s the assigner offers position %d', st_, sorted(last), i)
        last = new
        offered_solved += cur.solved
        for k, u in enumerate(us):
            waiting[k] = 0 if u.solved or k == i else waiting[k] + 1
            expect(waiting[k] <= len(us) + 1, 'unsolved unknown %s was not offered in %d turns; unknowns %s', u.name, waiting[k], st_)
    return ['wrapped' if wraps else 'one round', 'solved offered' if offered_solved else 'only unsolved'] + (['unknown added'] if len(us) > len(case['names']) else [])


def completion(case):
    us = fresh(case['names'])
    bb = b3.Blackboard()
    bb.set('unknowns', us)
    nodes = [comp_det(), comp_det()]
    nodes[1].FailAllDone = True
    ks = list(case['solved'])
    for step in [None] + ks:
        if step is not None:
            u = us[step % len(us)]
            u.solved = not u.solved if case['toggle'] else True
        before = [(u.name, u.solved) for u in us]
        done = all(u.solved for u in us)
        a, b = tick(nodes[0], bb), tick(nodes[1], bb)
        expect(a == (b3.SUCCESS if done else b3.FAILURE), 'completion test returns %s for %s', a, before)
        expect(b == (b3.FAILURE if done else b3.SUCCESS), 'inverted completion test returns %s for %s', b, before)
        expect([(u.name, u.solved) for u in us] == before, 'the completion test changed the unknowns')
    return ['done' if done else 'not done', '%d unknowns' % len(us)]


names = st.permutations(NAMES).flatmap(lambda p: st.integers(1, 10).map(lambda n: list(p[:n])))
ops = st.lists(st.one_of(st.tuples(st.just('offer'), st.integers(0, 1)), st.tuples(st.just('offer'), st.integers(0, 1)), st.tuples(st.just('solve'), st.integers(0, 30)),
                         st.tuples(st.just('add'), st.integers(0, 8))).map(list), min_size=1, max_size=60)
SUBS = [Sub('rotation', st.fixed_dictionaries(dict(names=names, ops=ops)), rotation, weight=2),
        Sub('completion', st.fixed_dictionaries(dict(names=names, solved=st.lists(st.integers(0, 30), max_size=25), toggle=st.booleans())), completion, weight=1)]
if __name__ == '__main__':
    main('C26', SUBS, 'lists of 1-12 unknowns, histories of offers, solving and new unknowns; waiting times and rotation order checked after every offer; completion test after every solving step; '
         'every case is non-trivial (labels give the class)', quick=20, thorough=250, strict=True)
