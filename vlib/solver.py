"""Run the repository's own ikSolver.py script on a given robot model."""
import contextlib, functools, importlib, os, sys, runpy, types
from . import env


def run_script(script, name, model=None):
    """runpy the script with argv[1]=name; model(): optional replacement for
    robot_params.  Returns the script's globals."""
    import ikbtfunctions.ik_robots as ikr
    old = ikr.robot_params
    oldargv = sys.argv
    here = []
    if model is not None:
        # the modules hand robot_params on to each other by import *: replace every copy
        with env.quiet():
            for n in ('ikbtbasics', 'ikbtleaves'):
                for f in sorted(os.listdir(os.path.join(env.REPO, n))):
                    if f.endswith('.py') and f != '__init__.py':
                        try:
                            importlib.import_module(n + '.' + f[:-3])
                        except Exception:
                            pass
        here = [m for m in list(sys.modules.values()) if getattr(m, 'robot_params', None) is old and isinstance(m, types.ModuleType)]
        for m in here:
            m.robot_params = lambda n: model()
    sys.argv = [script, name]
    try:
        with env.quiet():
            return runpy.run_path(os.path.join(env.REPO, script), run_name='__main__')
    finally:
        for m in here:
            m.robot_params = old
        sys.argv = oldargv


def solve(name, model=None):
    return run_script('ikSolver.py', name, model)


@contextlib.contextmanager
def plain():
    """sympy's simplification left out: nothing but the structure of the computation is seen, at a hundredth of the cost"""
    import sympy as sp

    def same(e, *a, **k):
        return e if isinstance(e, sp.MatrixBase) else sp.sympify(e)
    old = sp.simplify, sp.trigsimp
    sp.simplify = sp.trigsimp = same
    try:
        yield
    finally:
        sp.simplify, sp.trigsimp = old


@contextlib.contextmanager
def light(methods=False):
    """sympy's simplification (which takes most of the time of the forward kinematics) replaced by a
    quick, equally correct one: expand, and contract sums of angles.  methods: also that of e.simplify(),
    by expanding and the rule sin**2 = 1 - cos**2."""
    import sympy as sp
    from sympy.simplify.fu import TR10i

    @functools.lru_cache(maxsize=20000)
    def one(e):
        return TR10i(sp.expand(e)) if e.has(sp.sin, sp.cos) else e

    def quick(e, *a, **k):
        e = sp.sympify(e)
        if isinstance(e, sp.MatrixBase):
            return e.applyfunc(one)
        return one(e)
    @functools.lru_cache(maxsize=20000)
    def squares(e):
        e = sp.expand(e)
        f = sp.expand(e.replace(lambda x: x.is_Pow and x.exp.is_Integer and x.exp > 1 and isinstance(x.base, sp.sin),
                                lambda x: (1 - sp.cos(x.base.args[0]) ** 2) ** (x.exp // 2) * x.base ** (x.exp % 2)))
        return one(min(e, f, key=sp.count_ops))

    old = sp.simplify, sp.trigsimp, sp.Basic.simplify
    sp.simplify = sp.trigsimp = quick
    if methods:
        sp.Basic.simplify = lambda e, **k: squares(e)
    try:
        yield
    finally:
        sp.simplify, sp.trigsimp, sp.Basic.simplify = old
