"""Sequences of single solver steps, in any order, on generated robots and equation systems."""
import math, random
import sympy as sp
from hypothesis import strategies as st
import ikbtbasics.kin_cl as kc
import ikbtbasics.ik_classes as ic
from ikbtleaves.algebra_solver import algebra_id, algebra_solve
from ikbtleaves.tan_solver import tan_id, tan_solve
from ikbtleaves.sincos_solver import sincos_id, sincos_solve
from ikbtleaves.sinANDcos_solver import sinandcos_id, sinandcos_solve
from ikbtleaves.two_eqn_m7 import simu_id, simu_solver
from ikbtleaves.x2y2_transform import x2z2_transform
from ikbtleaves.rank_leaf import rank
from ikbtleaves.sub_transform import sub_transform
from ikbtleaves.sum_id import sum_id
from ikbtleaves.updateL import updateL
from ikbtleaves.assigner_leaf import assigner
from ikbtleaves.comp_detect import comp_det
import b3
from . import env, num, gens, solver, leaf

S = b3.Sequence
TOOLS = {
    'alg': lambda: S([algebra_id(), algebra_solve()]),
    'sctan': lambda: S([b3.OrNode([S([tan_id(), tan_solve()]), S([sincos_id(), sincos_solve()])]), rank()]),
    'tan': lambda: S([S([tan_id(), tan_solve()]), rank()]),
    'sc': lambda: S([S([sincos_id(), sincos_solve()]), rank()]),
    'simu': lambda: S([simu_id(), simu_solver()]),
    'sac': lambda: S([sinandcos_id(), sinandcos_solve()]),
    'x2z2': x2z2_transform, 'sub': sub_transform, 'sum': sum_id, 'upd': updateL, 'assign': assigner, 'done': comp_det}
SOLVERS = ['alg', 'sctan', 'simu', 'sac', 'tan', 'sc']
PROG = ['sum', 'alg', 'sctan', 'simu', 'sac', 'x2z2']
LISTS = ('eqns_1u', 'eqns_2u', 'eqns_3pu')


@st.composite
def programs(draw, max_sweeps=3, start=False):
    """steps [tool, number of the unknown at hand]: sweeps over the unknowns in some order with the tools in some order, with random steps in between"""
    out = []
    if start:        # the unknown at hand first
        out += [[t, -1] for t in draw(st.permutations(['alg', 'sctan', 'simu', 'sac', 'tan', 'sc']))[:draw(st.integers(1, 6))]]
    for _ in range(draw(st.integers(1, max_sweeps))):
        if draw(st.integers(0, 2)):
            out.append(['sub', 0])
        for k in draw(st.permutations(range(7)))[:draw(st.integers(2, 7))]:
            if draw(st.integers(0, 3)) == 0:
                out.append(['assign', 0])
                k = -1       # keep what was assigned
            for t in draw(st.permutations(['alg', 'sctan', 'simu', 'sac', 'x2z2'] + draw(st.lists(st.sampled_from(['sum', 'tan', 'sc', 'upd']), max_size=2))))[:draw(st.integers(2, 6))]:
                out.append([t, k])
        out.append(['upd', 0])
        if draw(st.booleans()):
            out.append(['done', 0])
    return out


def nodes_of(n):
    yield n
    for c in getattr(n, 'children', None) or []:
        yield from nodes_of(c)
    if getattr(n, 'child', None) is not None:
        yield from nodes_of(n.child)


class World:
    def __init__(self, R, unknowns, traced=None):
        self.R, self.unknowns = R, unknowns
        self.bb = leaf.board(R, unknowns, [])
        self.tree = b3.BehaviorTree()
        self.tools = {k: f() for k, f in TOOLS.items()}
        self.bb.set('curr_unk', unknowns[0])
        if traced is not None:
            ns = [n for t in self.tools.values() for n in nodes_of(t)]
            for i, n in enumerate(ns):
                n.BHdebug = bool(traced[i % len(traced)])
        self.step('upd', 0)

    def step(self, tool, k):
        us = self.bb.get('unknowns')
        if tool in SOLVERS + ['x2z2'] and k >= 0:
            self.bb.set('curr_unk', us[k % len(us)])
        self.tree.root = self.tools[tool]
        s = self.tree.tick('step', self.bb)
        self.unknowns = self.bb.get('unknowns')
        self.R = self.bb.get('Robot')
        return s

    @property
    def u(self):
        return self.bb.get('curr_unk')

    def lists(self):
        return [[(e.LHS, e.RHS) for e in self.bb.get(n)] for n in LISTS]

    def matrices(self):
        return [(m.Td.copy(), m.Ts.copy()) for m in self.R.mequation_list]

    def aux(self):
        return [(e.LHS, e.RHS) for e in self.R.kequation_aux_list]

    def record(self, u):
        d = {}
        for k, v in vars(u).items():
            d[k] = repr(sorted(map(str, v))) if isinstance(v, set) else repr(v)
        return d

    def records(self):
        return {u.name: self.record(u) for u in self.unknowns}

    def solved(self):
        return [u for u in self.unknowns if u.solved]


def mech_world(case, traced=None):
    """the robot of row descriptions as the solver script sets it up (without the cache)"""
    g = gens.Mech(case['rows'], case['seed'])
    unks = g.unknowns()
    with env.quiet():
        m = g.mechanism()
        m.forward_kinematics()
        R = ic.Robot(m, 'Gen')
        R.scan_for_equations(unks)
        R.sum_of_angles_transform(unks)
        R.params = m.params
    return g, World(R, unks, traced)


def scene_world(case, traced=None):
    """scalar equations as entries of one matrix equation"""
    from . import eqs
    R, unknowns, u, es = eqs.build(case)
    Td, Ts = sp.zeros(4), sp.zeros(4)
    for k, e in enumerate(es[:12]):
        Td[k // 4, k % 4] = e.LHS
        Ts[k // 4, k % 4] = e.RHS
    R.mequation_list = [kc.matrix_equation(Td, Ts)]
    w = World(R, unknowns, traced)
    w.bb.set('curr_unk', u)
    return w
