import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, bt
env.setup()
import b3, copy, json, random
from hypothesis import strategies as st

LOG = []


class Scripted(b3.Action):
    """leaf whose statuses are among its properties"""
    pos = 0

    def tick(self, tick):
        LOG.append(self.id)
        s = bt.STAT[self.properties['script'][self.pos % len(self.properties['script'])]]
        self.pos += 1
        return s


class Scripted2(Scripted):
    title = 'Another leaf'
    description = 'with a description'


class MySequence(b3.Sequence):
    pass


class MyInverter(b3.Inverter):
    pass


def _own(name, base, body):
    # a class of the user with the name of a built-in one
    return type(name, (base,), body)


OWN = {'Succeeder': _own('Succeeder', b3.Action, dict(tick=lambda self, tick: LOG.append(self.id) or b3.FAILURE)),
       'Wait': _own('Wait', b3.Action, dict(tick=lambda self, tick: LOG.append(self.id) or b3.RUNNING)),
       'Priority': _own('Priority', b3.Sequence, dict(title='Mine')),
       'Inverter': _own('Inverter', b3.Inverter, dict(description='mine'))}
CUSTOM = dict(Scripted=Scripted, Scripted2=Scripted2, MySequence=MySequence, MyInverter=MyInverter)
COMP = {'Sequence': b3.Sequence, 'Priority': b3.Priority, 'MemSequence': b3.MemSequence, 'MemPriority': b3.MemPriority, 'OrNode': b3.OrNode, 'MySequence': MySequence}
DECO = {'Inverter': b3.Inverter, 'MyInverter': MyInverter}
LEAF = {'Succeeder': b3.Succeeder, 'Failer': b3.Failer, 'Runner': b3.Runner, 'Error': b3.Error, 'Wait': b3.Wait, 'Scripted': Scripted, 'Scripted2': Scripted2}
meta = st.fixed_dictionaries(dict(title=st.one_of(st.none(), st.text(min_size=1, max_size=5)), description=st.one_of(st.none(), st.text(min_size=1, max_size=5)),
                                  properties=st.dictionaries(st.text(max_size=3), st.one_of(st.integers(), st.text(max_size=3), st.lists(st.integers(), max_size=2), st.booleans(), st.none(), st.floats(-1, 1), st.dictionaries(st.text(max_size=2), st.none() | st.integers(), max_size=1)), max_size=2),
                                  script=st.text('SFRE', min_size=1, max_size=6), again=st.sampled_from([0] * 8 + [1])))


def node(d):
    leaf = st.tuples(st.sampled_from(['Scripted'] * 5 + list(LEAF)), meta).map(lambda x: [x[0], x[1], []])
    if d == 0:
        return leaf

    @st.composite
    def build(draw):
        if draw(st.integers(0, 9)) < 2:
            return draw(leaf)
        if draw(st.integers(0, 9)) < 3:
            return [draw(st.sampled_from(sorted(DECO))), draw(meta), [draw(node(d - 1))]]
        return [draw(st.sampled_from(sorted(COMP))), draw(meta), draw(st.lists(node(d - 1), max_size=5))]
    return build()


def make(t, own=()):
    kids = [make(c, own) for c in t[2]]
    if t[0] in COMP and kids and t[1].get('again'):
        kids.append(kids[0])        # the same node in two places
    n = (OWN[t[0]](*([kids] if t[0] in COMP else kids)) if t[0] in own else COMP[t[0]](kids) if t[0] in COMP else DECO[t[0]](kids[0]) if t[0] in DECO else LEAF[t[0]]())
    m = t[1]
    if m['title'] is not None:
        n.title = m['title']
    if m['description'] is not None:
        n.description = m['description']
    n.properties = dict(m['properties'])
    if t[0].startswith('Scripted'):
        n.properties['script'] = m['script']
    return n


def kids(n):
    return list(n.children) if n.category == b3.COMPOSITE else [n.child] if n.category == b3.DECORATOR else []


def same(a, b, path='root'):
    expect(type(a) is type(b), '%s: %s became %s', path, type(a).__name__, type(b).__name__)
    expect(a is not b, '%s: the loaded tree shares a node', path)
    for k in ('id', 'title', 'description', 'properties', 'name', 'category'):
        expect(getattr(a, k) == getattr(b, k), '%s: %s %r became %r', path, k, getattr(a, k), getattr(b, k))
    A, B = kids(a), kids(b)
    expect(len(A) == len(B), '%s: %d children became %d', path, len(A), len(B))
    for i, (x, y) in enumerate(zip(A, B)):
        same(x, y, '%s.%d' % (path, i))


def nodes(n):
    return [n] + [x for c in kids(n) for x in nodes(c)]


def snapshot(n):
    return [(x.id, x.name, x.title, x.description, copy.deepcopy(x.properties), [k.id for k in kids(x)]) for x in nodes(n)]


def ticks(tree, count):
    for n in nodes(tree.root):
        if hasattr(n, 'pos'):
            n.pos = 0
    bb = b3.Blackboard()
    out = []
    with bt.Clock() as clock:
        for i in range(count):
            clock.t += 0.5
            del LOG[:]
            out.append((tree.tick(None, bb), list(LOG)))
    return out


def roundtrip(case):
    t = b3.BehaviorTree()
    if case['title']:
        t.title = case['title']
    t.description = case['description']
    t.properties = dict(case['properties'])
    t.root = make(case['tree'], case['own'])
    was = snapshot(t.root)
    data = t.dump()
    now = snapshot(t.root)
    expect(now == was, 'dumping changed the tree from\n%s\nto\n%s', was, now)
    expect(t.dump() == data, 'dumping twice gives different data')
    text = json.dumps(data)
    again = json.loads(text)
    all_ = nodes(t.root)
    expect(set(again['nodes']) == {n.id for n in all_} and again['root'] == t.root.id, 'nodes %s are dumped for the tree %s', sorted(again['nodes']), [n.id for n in all_])
    custom = sorted({type(n).__name__ for n in all_} & set(CUSTOM))
    expect(sorted(c['name'] for c in again['custom_nodes']) == custom, 'custom nodes %s dumped, used are %s', again['custom_nodes'], custom)
    for c in again['custom_nodes']:
        expect(c['category'] == CUSTOM[c['name']].category, 'category of %s', c)
    if case['shuffle']:
        items = list(again['nodes'].items())
        random.Random(case['shuffle']).shuffle(items)
        again['nodes'] = dict(items)
    before = copy.deepcopy(again)
    u = b3.BehaviorTree()
    u.load(again, dict(CUSTOM, **{n: OWN[n] for n in case['own']}))
    expect(again == before, 'loading changed the data')
    for k in ('title', 'description', 'properties'):
        expect(getattr(u, k) == getattr(t, k), 'tree %s: %r became %r', k, getattr(t, k), getattr(u, k))
    same(t.root, u.root)
    d2 = u.dump()
    d3 = json.loads(json.dumps(d2))
    d1 = json.loads(text)
    key = lambda d: dict(d, custom_nodes=sorted(c['name'] for c in d['custom_nodes']))
    expect(key(d3) == key(d1), 'the loaded tree is dumped as\n%s\ninstead of\n%s', d3, d1)
    a, b = ticks(t, case['ticks']), ticks(u, case['ticks'])
    expect(a == b, 'behaviour differs:\n%s\nloaded:\n%s', a, b)
    lab = ['%s' % min(len(all_), 9)]
    if any(n.name in case['own'] for n in all_):
        lab.append('own class named as a built-in one')
    if custom:
        lab.append('custom')
    return lab if len(all_) > 2 else None


def invalid(case):
    """a name which is neither built in nor given is reported"""
    t = b3.BehaviorTree()
    t.root = make(case['tree'])
    data = json.loads(json.dumps(t.dump()))
    used = sorted({s['name'] for s in data['nodes'].values()} & set(CUSTOM))
    u = b3.BehaviorTree()
    names = {k: v for k, v in CUSTOM.items() if k != (used[0] if used else '')}
    try:
        u.load(data, names)
        ok = True
    except Exception:
        ok = False
    expect(ok == (not used), 'loading without %s %s', used[:1], 'succeeds' if ok else 'fails')
    return bool(used) and 'missing class'


case = st.fixed_dictionaries(dict(tree=node(3), title=st.text(max_size=4), description=st.text(max_size=4), properties=meta.map(lambda m: m['properties']), ticks=st.integers(1, 6),
                                  own=st.one_of(st.just([]), st.lists(st.sampled_from(sorted(OWN)), unique=True)),
                                  shuffle=st.integers(0, 3)))
SUBS = [Sub('roundtrip', case, roundtrip, weight=3), Sub('unknown_class', st.fixed_dictionaries(dict(tree=node(2))), invalid, weight=1)]
if __name__ == '__main__':
    main('C25', SUBS, 'random trees (depth up to 4, up to 5 children) of built-in and custom nodes with titles, descriptions, properties; dumped, passed through JSON text, node order shuffled, '
         'loaded, compared structurally, dumped again, and ticked 1-6 times side by side; non-trivial: more than two nodes', quick=25, thorough=300, strict=True)
