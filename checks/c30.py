import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, gens, again, catalogue
env.setup()
import ikbtbasics.kin_cl   # before ik_classes (the modules import each other)
import atexit, json, time
from hypothesis import strategies as st

OTHER = [None]


def close():
    if OTHER[0]:
        OTHER[0].close()
        OTHER[0] = None


atexit.register(close)


def twice(case):
    """here (after other robots) and in another process with another hash seed"""
    if OTHER[0] and (OTHER[0].n >= 6 or case.get('fresh')):
        close()
    if not OTHER[0]:
        OTHER[0] = again.Other(case['hash'])
    try:
        b = OTHER[0].ask({k: v for k, v in case.items() if k != 'hash'})
        time_ = None
    except BaseException:
        close()          # (a time limit: the answer would be mistaken for that of the next case)
        raise
    try:
        a = json.loads(json.dumps(again.result(case)))
    except (Exception, SystemExit) as x:
        if isinstance(x, TimeoutError) or type(x).__name__ in ('Timeout', 'CaseTimeout'):
            raise
        a = {'stopped': '%s: %s' % (type(x).__name__, x)}
    expect(a.keys() == b.keys(), 'results differ: %s', sorted(set(a) ^ set(b)) + [x.get('stopped') for x in (a, b)])
    for k in a:
        if a[k] != b[k]:
            d = [(x, y) for x, y in zip(a[k], b[k]) if x != y] if isinstance(a[k], list) and len(a[k]) == len(b[k]) else (a[k], b[k])
            raise Violation('solved twice (another process, another hash seed): different %s: %s' % (k, str(d)[:600]))
    if 'stopped' in a:
        return None
    n = len(a['order of solving'])
    return n > 0 and ['%d solved' % n, '%d rows' % len(a['solution table'])]


hashes = st.integers(1, 1000)
generated = st.fixed_dictionaries(dict(rows=gens.dh_rows(2, 4, odd=False), seed=st.integers(0, 999), hash=hashes, fresh=st.integers(0, 9).map(lambda x: int(x == 0))))
SMALL = ['Wrist', 'MiniDD', 'Arm_3', 'Sims11', 'Olson13', 'Craig417', 'Stanford']


def robots():
    return [dict(name=n, hash=7 + i) for i, n in enumerate(SMALL) if n in catalogue.names()]


SUBS = [Sub('generated', generated, twice, case_timeout=60), Sub('catalogue', None, twice, exhaustive=robots, case_timeout=200, dynamic=True)]
if __name__ == '__main__':
    main('C30', SUBS, 'random robots with two to four joints and some of the catalogue, solved in a process that has solved others before and in another one with another hash seed; order, methods, formulas, '
         'equations used, dependencies, table, and generated files (up to the order of rows and edges) compared; non-trivial: something was solved', quick=60, thorough=900)
