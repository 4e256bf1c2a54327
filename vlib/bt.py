"""Behavior trees: generator of trees and tick histories, builder of real trees with instrumented leaves,
and a reference interpreter written from the definitions."""
import sys
import time
from hypothesis import strategies as st

S, F, R, E = 1, 2, 3, 4
STAT = {'S': S, 'F': F, 'R': R, 'E': E}
COMP = ('seq', 'pri', 'mseq', 'mpri', 'or')
DECO = ('inv', 'lim', 'rep', 'ruf', 'rus', 'maxt')
BUILTIN = ('ok', 'fail', 'run', 'err', 'wait')


class Stop(Exception):
    """a leaf was executed too often (endless repetition); both interpreters stop at the same execution"""


LIMIT = 400


# ---------------------------------------------------------------- generator
@st.composite
def leaves(draw, costs=True):
    if draw(st.integers(0, 9)) == 0:
        k = draw(st.sampled_from(BUILTIN))
        return [k, draw(st.sampled_from([0, 1000, 2500]))] if k == 'wait' else [k]
    w = draw(st.sampled_from(['SF', 'SSF', 'SFFR', 'SFRE', 'SR', 'FR', 'R', 'S', 'F']))
    return ['leaf', draw(st.text(w, min_size=1, max_size=8)), draw(st.sampled_from([0, 0, 1, 2, 7])) if costs else 0, draw(st.sampled_from([0, 0, 1, 3]))]


def trees(comp=COMP, deco=(), depth=4):
    leaf = leaves()
    inner = list(comp) + list(deco)

    def node(d):
        if d == 0:
            return leaf

        @st.composite
        def build(draw):
            if draw(st.integers(0, 9)) < (3 if d < depth else 1):
                return draw(leaf)
            k = draw(st.sampled_from(inner))
            if k in COMP:
                return [k, draw(st.lists(node(d - 1), min_size=0 if draw(st.integers(0, 9)) == 0 else 1, max_size=4))]
            c = draw(node(d - 1))
            if k == 'inv':
                return [k, c]
            if k == 'maxt':
                return [k, c, draw(st.sampled_from([0, 1, 2, 5]))]
            if k == 'lim':
                return [k, c, draw(st.sampled_from([0, 1, 1, 2, 3]))]
            return [k, c, draw(st.sampled_from([-1, 0, 1, 2, 2, 3, 5]))]
        return build()
    return node(depth)


@st.composite
def cases(draw, comp=COMP, deco=(), depth=4, forest=2, must=None):
    ts = draw(st.lists(trees(comp, deco, depth), min_size=1, max_size=forest))
    steps = draw(st.lists(st.tuples(st.integers(0, len(ts) - 1), st.sampled_from([0, 0, 0, 1]), st.sampled_from([0, 0.5, 1, 1.5, 3])).map(list), min_size=1, max_size=14))
    return dict(trees=ts, steps=steps)


def kinds(t):
    out = {t[0]}
    if t[0] in COMP:
        for c in t[1]:
            out |= kinds(c)
    elif t[0] in DECO:
        out |= kinds(t[1])
    return out


# ---------------------------------------------------------------- real tree
class Clock:
    """stands in for time.time"""

    def __init__(self):
        self.t = 1000.0

    def __enter__(self):
        self.old = time.time, time.monotonic, time.perf_counter
        fake = lambda: self.t
        self.names = [(m, k) for n, m in list(sys.modules.items()) if n.split('.')[0] == 'b3' and m
                      for k, v in list(vars(m).items()) if any(v is f for f in self.old)]      # (from time import time)
        self.was = [getattr(m, k) for m, k in self.names]
        for m, k in self.names:
            setattr(m, k, fake)
        time.time = time.monotonic = time.perf_counter = fake
        return self

    def __exit__(self, *a):
        time.time, time.monotonic, time.perf_counter = self.old
        for (m, k), v in zip(self.names, self.was):
            setattr(m, k, v)


def make(t, log, nodes):
    """real nodes for tree t, appended in preorder to nodes; every call-back appends (event, node number) to log"""
    import b3
    num = len(nodes)
    nodes.append(None)
    cls = {'seq': b3.Sequence, 'pri': b3.Priority, 'mseq': b3.MemSequence, 'mpri': b3.MemPriority, 'or': b3.OrNode, 'inv': b3.Inverter, 'lim': b3.Limiter,
           'rep': b3.Repeater, 'ruf': b3.RepeatUntilFailure, 'rus': b3.RepeatUntilSuccess, 'maxt': b3.MaxTime, 'ok': b3.Succeeder, 'fail': b3.Failer,
           'run': b3.Runner, 'err': b3.Error, 'wait': b3.Wait, 'leaf': b3.Action}[t[0]]

    class Node(cls):
        pos = 0

        def enter(self, tick):
            log.append(('enter', num))
            cls.enter(self, tick)

        def open(self, tick):
            log.append(('open', num))
            cls.open(self, tick)

        def close(self, tick):
            log.append(('close', num))
            cls.close(self, tick)

        def exit(self, tick):
            log.append(('exit', num))
            cls.exit(self, tick)

        def tick(self, tick):
            log.append(('tick', num))
            if len(log) > LIMIT:
                raise Stop()
            if t[0] != 'leaf':
                return cls.tick(self, tick)
            s = STAT[t[1][self.pos % len(t[1])]]
            self.pos += 1
            return s
    Node.__name__ = cls.__name__
    if t[0] in COMP:
        n = Node([make(c, log, nodes) for c in t[1]])
    elif t[0] == 'inv':
        n = Node(make(t[1], log, nodes))
    elif t[0] in DECO:
        n = Node(make(t[1], log, nodes), t[2])
    elif t[0] == 'wait':
        n = Node(t[1])
    else:
        n = Node()
        if t[0] == 'leaf':
            n.Cost, n.state = t[2], t[3]
    n.Name = 'node%d' % num
    nodes[num] = n
    return n


def run_real(case, logfile=None, flag=0):
    """-> list per step of (status, events), nodes, blackboards, trees"""
    import b3
    out, log, nodes, ts = [], [], [], []
    roots = []
    for t in case['trees']:
        roots.append(len(nodes))
        b = b3.BehaviorTree()
        b.root = make(t, log, nodes)
        b.log_flag, b.log_file = flag, logfile
        ts.append(b)
    bbs = [b3.Blackboard(), b3.Blackboard()]
    with Clock() as clock:
        for k, b, dt in case['steps']:
            clock.t += dt
            del log[:]
            try:
                s = ts[k].tick(None, bbs[b])
            except Stop:
                out.append(('stopped', list(log)))
                break
            out.append((s, list(log), bbs[b].get('node_count', ts[k].id), bbs[b].get('TotalCost'),
                        [bool(bbs[b].get('is_open', ts[k].id, n.id)) for n in nodes]))
    return out, nodes, bbs, ts


# ---------------------------------------------------------------- reference
class Ref:
    def __init__(self, case):
        self.nodes = []          # descriptions, preorder
        self.kids = []
        self.log = []
        self.pos = {}
        self.execs, self.succ = {}, {}
        self.succ_state = {}
        self.cost = {}
        self.total = [0, 0]
        self.mem = {}            # (blackboard, tree, node) -> state of an open node
        self.lines = []
        self.roots = [self.number(t) for t in case['trees']]
        self.t = 1000.0

    def number(self, t):
        n = len(self.nodes)
        self.nodes.append(t)
        self.kids.append([])
        self.cost[n] = t[2] if t[0] == 'leaf' else 0
        if t[0] in COMP:
            self.kids[n] = [self.number(c) for c in t[1]]
        elif t[0] in DECO:
            self.kids[n] = [self.number(t[1])]
        return n

    def execute(self, n, b, tree):
        key = (b, tree, n)
        self.log.append(('enter', n))
        if key not in self.mem:
            self.mem[key] = dict(i=0, start=self.t)
            self.log.append(('open', n))
        self.log.append(('tick', n))
        if len(self.log) > LIMIT:
            raise Stop()
        self.execs[n] = self.execs.get(n, 0) + 1
        s = self.status(n, self.mem[key], lambda c: self.execute(c, b, tree))
        self.total[b] += self.cost[n]
        if s == S:
            self.succ[n] = self.succ.get(n, 0) + 1
        if s in (S, F):
            self.lines.append(('S ' if s == S else 'F ') + 'node%d' % n)
        if s != R:
            self.log.append(('close', n))
            del self.mem[key]
        self.log.append(('exit', n))
        return s

    def status(self, n, m, run):
        t, kids = self.nodes[n], self.kids[n]
        k = t[0]
        if k == 'leaf':
            p = self.pos.get(n, 0)
            self.pos[n] = p + 1
            return STAT[t[1][p % len(t[1])]]
        if k == 'wait':
            return S if self.t - m['start'] > t[1] / 1000. else R
        if k in ('ok', 'fail', 'run', 'err'):
            return {'ok': S, 'fail': F, 'run': R, 'err': E}[k]
        if k in ('seq', 'pri'):
            stop_on = F if k == 'pri' else S
            res, cost = stop_on, 0
            for c in kids:
                r = run(c)
                cost += self.cost[c]
                if r != stop_on:
                    res = r
                    break
            self.cost[n] = cost
            return res
        if k == 'or':
            cost, rs = 0, []
            for c in kids:
                rs.append(run(c))
                cost += self.cost[c]
            self.cost[n] = cost
            return S if any(r != F for r in rs) else F
        if k in ('mseq', 'mpri'):
            go_on = S if k == 'mseq' else F
            for j in range(m['i'], len(kids)):
                r = run(kids[j])
                if r == R:
                    m['i'] = j
                if r != go_on:
                    return r
            return go_on
        c = kids[0]
        if k == 'inv':
            r = run(c)
            return {S: F, F: S}.get(r, r)
        if k == 'maxt':
            over = self.t - m['start'] > t[2]
            r = run(c)
            return F if over else r
        if k == 'lim':
            if m['i'] >= t[2]:
                return F
            r = run(c)
            if r in (S, F):
                m['i'] += 1
            return r
        counted = {'rep': (S, F), 'ruf': (S,), 'rus': (F,)}[k]
        res = S if k == 'rep' else E
        while t[2] < 0 or m['i'] < t[2]:
            res = run(c)
            if res not in counted:
                break
            m['i'] += 1
        return res

    def step(self, k, b, dt):
        self.t += dt
        self.log = []
        return self.execute(self.roots[k], b, k)


def run_ref(case):
    ref, out = Ref(case), []
    for k, b, dt in case['steps']:
        try:
            s = ref.step(k, b, dt)
        except Stop:
            out.append(('stopped', ref.log))
            break
        out.append((s, ref.log, sum(e[0] == 'enter' for e in ref.log), ref.total[b], [(b, k, n) in ref.mem for n in range(len(ref.nodes))]))
    return out, ref


def compare_ticks(case, expect):
    """statuses and order of executed nodes; -> (reference, results)"""
    want, ref = run_ref(case)
    got, nodes, bbs, ts = run_real(case)
    for i, (g, w) in enumerate(zip(got, want)):
        gt, wt = [n for e, n in g[1] if e == 'tick'], [n for e, n in w[1] if e == 'tick']
        what = 'tick %d (tree %d, blackboard %d)' % (i + 1, case['steps'][i][0], case['steps'][i][1])
        expect(gt == wt, '%s: nodes executed (numbered in preorder): %s, by definition: %s', what, gt, wt)
        expect(g[0] == w[0], '%s: status %s, by definition %s', what, g[0], w[0])
    expect(len(got) == len(want), 'ticks: %d instead of %d', len(got), len(want))
    return ref, want, got, nodes
