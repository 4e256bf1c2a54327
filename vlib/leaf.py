"""Run single solver leaves on generated equations."""
import functools
import sympy as sp
import ikbtbasics.kin_cl as kc
import ikbtbasics.ik_classes as ic
import b3

JOINTS = ['th_1', 'th_2', 'th_3', 'th_4', 'th_5', 'th_6', 'd_1', 'd_2', 'd_3', 'd_4', 'd_5', 'd_6']
PARAMS = ['a_1', 'a_2', 'a_3', 'l_1', 'l_2', 'l_3', 'l_4', 'h', 'k_1', 'k_2', 'al_1']
TARGET = ['r_11', 'r_12', 'r_13', 'r_21', 'r_22', 'r_23', 'r_31', 'r_32', 'r_33', 'Px', 'Py', 'Pz']
LOC = {n: sp.Symbol(n) for n in JOINTS + PARAMS + TARGET + ['th_12', 'th_23', 'th_34', 'th_45', 'th_56', 'th_123', 'th_234', 'th_345', 'th_456', 'th_13']}


@functools.lru_cache(maxsize=20000)
def expr(s):
    return sp.sympify(s, locals=LOC)


def unknown(name, n=None):
    u = kc.unknown(sp.Symbol(name))
    u.n = int(name.split('_')[1]) if n is None else n
    return u


def solve(u, R, unknowns, sols):
    """make u solved with the given expressions"""
    u.solutions = list(sols)
    u.nsolutions = len(u.solutions)
    u.solvemethod = u.solvemethod or 'given'
    u.set_solved(R, unknowns)


def unsolved_in(unknowns, *es):
    return [u for u in unknowns if not u.solved and any(sp.sympify(e).has(u.symbol) for e in es)]


def lists(eqs, unknowns):
    """own classification: equations with one, two, three or more unsolved unknowns (as
    counted by the repository: an unknown on both sides counts on both)"""
    L = [[], [], []]
    for e in eqs:
        n = len(unsolved_in(unknowns, e.LHS)) + len(unsolved_in(unknowns, e.RHS))
        if n:
            L[min(n, 3) - 1].append(e)
    return L


def board(R, unknowns, eqs, curr=None):
    bb = b3.Blackboard()
    L = lists(eqs, unknowns)
    bb.set('eqns_1u', L[0])
    bb.set('eqns_2u', L[1])
    bb.set('eqns_3pu', L[2])
    bb.set('unknowns', unknowns)
    bb.set('Robot', R)
    if curr is not None:
        bb.set('curr_unk', curr)
    return bb


def tick(bb, *leaves):
    """tick the leaves in sequence (stops at the first that fails); returns the status"""
    t = b3.BehaviorTree()
    t.root = b3.Sequence(list(leaves))
    return t.tick('check', bb)


def soa_env(R, env, unknowns=()):
    """add the values of sum-of-angle variables to env (names -> floats) from their definitions"""
    from . import num
    env = dict(env)
    todo = [e for e in R.kequation_aux_list if sp.sympify(e.LHS).is_Symbol and str(e.LHS) not in env]
    for _ in range(len(todo) + 1):
        for e in list(todo):
            try:
                env[str(e.LHS)] = num.ev(e.RHS, env)
                todo.remove(e)
            except num.Unbound:
                pass
    return env
