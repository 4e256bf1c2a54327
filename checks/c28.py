import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import env, num, gens, solver
env.setup()
import ikbtbasics.kin_cl   # before ik_classes (the modules import each other)
import math, random
import sympy as sp
from hypothesis import strategies as st
from vlib import leaf, eqs, steps
import b3

REWRITE = ('sub', 'sum', 'upd')


def sums_of(R, joints):
    """name of a sum variable -> its definition in joint variables"""
    out = {}
    todo = [sp.expand(e.RHS - e.LHS) for e in R.kequation_aux_list]
    for _ in range(len(todo) + 1):
        for x in todo:
            x = x.subs({sp.Symbol(n): y for n, y in out.items()})
            for s in x.free_symbols:
                if s not in joints and s.name not in out and s.name.startswith('th_') and sp.sympify(x).is_polynomial(s):
                    c = sp.expand(x).coeff(s)
                    y = sp.expand(-(x - c * s) / c) if c != 0 else None
                    if y is not None and not y.free_symbols - set(joints):
                        out[s.name] = y
    return out


class Poses:
    """some joint poses of the robot and the true values of everything there"""

    def __init__(self, g, seed, n=4):
        rng = random.Random(seed)
        base = gens.pvals_env(g.pvals)
        self.g, self.at = g, []
        for _ in range(n):
            q = {s.name: v for s, v in g.pose(rng).items()}
            self.at.append({**base, **num.target_env(num.fk(g.dh, {**base, **q})), **q})

    def values(self, R):
        sums = sums_of(R, set(self.g.joints))
        extra = gens.pvals_env({**self.g.pvals, **R.Mech.pvals})
        for d in self.at:
            full = {**extra, **d}
            full.update({n: num.ev(y, d) for n, y in sums.items()})
            yield full


def determined(u, d):
    """the equations the solution is taken from determine the unknown at this pose: the factor of the unknown (of its sine or cosine) does not vanish"""
    Sx, Cx = sp.Dummy('S'), sp.Dummy('C')
    for q in (u.eqntosolve, u.secondeqn):
        if q is None or not hasattr(q, 'RHS'):
            continue
        e = sp.expand(q.RHS - q.LHS).subs({sp.sin(u.symbol): Sx, sp.cos(u.symbol): Cx})
        parts = [sp.diff(e, v) for v in (Sx, Cx, u.symbol) if e.has(v)]
        v = {**d, Sx.name: math.sin(d.get(u.name, 0)), Cx.name: math.cos(d.get(u.name, 0))}
        try:
            if all(abs(num.ev(x, v)) < 1e-4 for x in parts):
                return False
        except (num.Undefined, num.Unbound):
            return False
    return True


def true_value(w, poses, u):
    """the true value is among the solutions wherever these are defined; returns the number of poses at which that was decided"""
    n, wrong = 0, []
    for d in poses.values(w.R):
        if u.name not in d:
            return 0
        d = dict(d)
        want = d.pop(u.name)
        got = []
        try:
            got = [num.ev(s, d) for s in u.solutions]
        except num.Undefined:
            continue
        d[u.name] = want
        if not determined(u, d):
            continue
        n += 1
        if not any((num.adiff(x, want) if u.name.startswith('th') else abs(x - want) / max(1, abs(want))) < 3e-4 for x in got):
            wrong.append((round(want, 5), [round(x, 5) for x in got]))
    expect(len(wrong) < 2 and not (n == 1 and wrong), '%s = %s: at %d of %d poses the true value is none of these: %s (from %s; %s)', u, u.solutions, len(wrong), n, wrong[:3], u.eqntosolve, u.secondeqn)
    return n


def hold(w, poses, where):
    R = w.R
    for d in list(poses.values(R))[:2]:
        es = [(m.Td[i, j], m.Ts[i, j]) for m in R.mequation_list for i in range(3) for j in range(4)] + w.aux() + [e for l in w.lists() for e in l]
        for l, r in dict.fromkeys(es):
            try:
                a, b = num.ev(l, d), num.ev(r, d)
            except num.Unbound as x:
                raise Violation('%s: nothing defines %s in %s = %s' % (where, x, l, r))
            expect(abs(a - b) < 1e-6 * (1 + abs(a)), '%s: %s = %s does not hold at a pose of the robot (%s, %s)', where, l, r, a, b)


def graph(w, order):
    R = w.R
    expect([n.unknown.name for n in R.solution_nodes] == order, 'solution nodes %s, solved in the order %s', R.solution_nodes, order)
    for k, n in enumerate(order):
        u = next(x for x in w.unknowns if x.name == n)
        expect(u.solutions and u.nsolutions == len(u.solutions) and len(u.solutions) in (1, 2), '%s has the solutions %s, counted %s', u, u.solutions, u.nsolutions)
        expect(u.solveorder == k + 1, '%s was solved as number %d, recorded %s', u, k + 1, u.solveorder)
        later = {s.name for x in u.solutions for s in sp.sympify(x).free_symbols} & ({v.name for v in w.unknowns} - set(order[:k]))
        expect(not later, 'the solution %s of %s uses %s, which is not solved earlier', u.solutions, u, later)
    expect(len({u.name for u in w.unknowns}) == len(w.unknowns), 'an unknown is listed twice: %s', w.unknowns)


def play(w, case, poses=None, given=()):
    order, decided, rewritten = list(given), 0, 0
    labels = set()
    for i, (tool, k) in enumerate(case['steps']):
        before, mats, ls, aux = w.records(), w.matrices(), w.lists(), w.aux()
        solved = {u.name for u in w.solved()}
        with env.quiet():
            s = w.step(tool, k)
        u = w.u
        where = 'step %d, %s%s' % (i + 1, tool, ' for %s' % u if tool in steps.SOLVERS else '')
        after = w.records()
        now = {x.name for x in w.solved()}
        new = now - solved
        expect(not solved - now, '%s: %s is no longer solved', where, solved - now)
        expect(len(new) <= (tool in steps.SOLVERS) and new <= {u.name}, '%s: solved %s', where, new)
        expect(set(before) <= set(after) and (tool == 'sum' or set(before) == set(after)), '%s: unknowns were %s, now %s', where, sorted(before), sorted(after))
        for n in before:
            if before[n] == after[n] or n in new:
                continue
            ch = sorted(x for x in after[n] if before[n].get(x) != after[n][x])
            expect(n not in solved, '%s: the record of the solved %s was changed: %s', where, n, [(x, before[n].get(x), after[n][x]) for x in ch])
            if tool in steps.SOLVERS:
                expect(n == u.name, '%s: the record of %s was changed: %s', where, n, ch)
            elif tool == 'x2z2':
                expect(ch == ['solvemethod'], '%s: %s of %s was changed', where, ch, n)
            else:
                raise Violation('%s: %s of %s was changed' % (where, ch, n))
        if tool in steps.SOLVERS:
            expect((s == b3.SUCCESS) == bool(new), '%s: reported %s, solved %s', where, {b3.SUCCESS: 'success', b3.FAILURE: 'failure'}.get(s, s), new or 'nothing')
            expect(s != b3.FAILURE or before[u.name]['solutions'] == after[u.name]['solutions'], '%s: failed, but recorded %s', where, u.solutions)
        if tool not in ('sub', 'sum'):
            expect(mats == w.matrices(), '%s: the matrix equations were changed', where)
        if tool not in REWRITE:
            expect([[(sp.sympify(a), sp.sympify(b)) for a, b in l] for l in ls] == w.lists(), '%s: the lists of equations were changed', where)
        if tool in ('sum', 'x2z2'):
            expect(aux == w.aux()[:len(aux)], '%s: an additional equation was changed', where)
            if tool == 'x2z2':
                if s == b3.SUCCESS:
                    labels.add('x2z2')
                expect((len(w.aux()) == len(aux) + 1) == (s == b3.SUCCESS) and len(w.aux()) <= len(aux) + 1, '%s: status %s, additional equations %s', where, s, w.aux()[len(aux):])
        else:
            expect(aux == w.aux(), '%s: the additional equations were changed', where)
        if tool == 'done':
            expect((s == b3.SUCCESS) == (len(now) == len(w.unknowns)), '%s: status %s with %s of %s solved', where, s, now, w.unknowns)
        if tool == 'assign' and len(now) < len(w.unknowns) and not new:
            expect(s == b3.SUCCESS and w.u in w.unknowns, '%s: assigned %s', where, w.u)
        if new:
            order += sorted(new)
            graph(w, order)
            labels.add(tool)
            if poses:
                decided += bool(true_value(w, poses, u))
        if poses and (mats != w.matrices() or aux != w.aux()):
            hold(w, poses, where)
            rewritten += 1
    graph(w, order)
    if rewritten:
        labels.add('rewritten')
    if order:
        labels.add('all solved' if len(order) == len(w.unknowns) else 'part solved')
    return order, decided, labels


def robot(case):
    with solver.light(True):
        g, w = steps.mech_world(case)
        order, decided, labels = play(w, case, Poses(g, case['seed']))
    return decided > 0 and sorted(labels) + ['%d joints' % len(g.joints)]


def system(case):
    with solver.light(True):
        w = steps.scene_world(case['scene'])
        given = [n.unknown.name for n in w.R.solution_nodes]
        order, decided, labels = play(w, case, None, given)
    return len(order) > len(given) and sorted(labels)


def scenes():
    from checks import c07, c08, c09, c10, c11
    plain = lambda c: {k: c[k] for k in ('u', 'solved', 'others', 'eqs', 'rot') if k in c}
    return st.one_of(*[m.cases().map(plain) for m in (c07, c08, c09, c10, c11)])


robots = st.fixed_dictionaries(dict(rows=gens.dh_rows(3, 5, odd=False), seed=st.integers(0, 999), steps=steps.programs()))
systems = st.fixed_dictionaries(dict(scene=scenes(), steps=steps.programs(1, True)))
SUBS = [Sub('robot', robots, robot, case_timeout=60, weight=3), Sub('system', systems, system)]
if __name__ == '__main__':
    main('C28', SUBS, 'random robots with two to four joints and random systems of equations, random sequences of solver steps (each of the methods for any unknown, substitution, sum-of-angle search, refreshing, '
         'assigning, completion test; up to three sweeps over the unknowns); the whole record is compared before and after each step, solutions and rewritten equations are evaluated at poses of the robot; '
         'non-trivial: a solution was compared with the true value (robots), something was solved (systems)', quick=60, thorough=900)
