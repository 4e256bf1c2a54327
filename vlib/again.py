"""Solve robots and describe everything that came out; as a program: a server for other processes (JSON lines)."""
import json, os, shutil, subprocess, sys
if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env


def result(case):
    from vlib import gens, solver
    for d in ('fk_eqns', 'CodeGen', 'LaTex', 'logs'):
        shutil.rmtree(os.path.join(os.getcwd(), d), ignore_errors=True)
    env.fresh(os.getcwd())
    had = set(os.listdir('LaTex'))
    model = None
    if 'name' not in case:
        g = gens.Mech(case['rows'], case['seed'])

        def model():
            return [g.dh.copy(), list(g.vv), list(g.params), dict(g.pvals), g.unknowns()]
    with solver.light():
        G = solver.solve(case.get('name', 'Gen'), model)
    R, unks = G['R'], G['unks']
    out = {'order of solving': [str(n.symbol) for n in R.solution_nodes], 'unknowns': [u.name for u in unks],
           'parameters': [str(p) for p in R.params]}
    for u in unks:
        out['solutions of ' + u.name] = [str(s) for s in u.solutions]
        out['method for ' + u.name] = u.solvemethod
        out['dependencies of ' + u.name] = sorted(map(str, u.dependencies))
        out['equations for ' + u.name] = [str(u.eqntosolve), str(u.secondeqn)]
    out['dependency graph'] = sorted(map(str, R.notation_graph_edges))
    out['solution table'] = sorted([str(e) for e in r] for r in R.FinalEqnMatrix)
    for d, ext in (('CodeGen/Python', '.py'), ('CodeGen/Cpp', '.cpp'), ('LaTex', '.tex')):
        for f in sorted(os.listdir(d)):
            if f.endswith(ext) and (d != 'LaTex' or f not in had):
                text = open(os.path.join(d, f), errors='replace').read()
                # rows and dependencies may be listed in any order
                out[d + '/' + f] = sorted(rows(text) if ext == '.cpp' else text.replace(',', ' ').split())
    return out


def rows(text):
    """lines, without the number of the row which an entry belongs to"""
    import re
    return [re.sub(r'solution_list\[\d+\]', 'solution_list[]', l) for l in text.split('\n')]


class Other:
    """another process, with another hash seed"""

    def __init__(self, seed):
        e = dict(os.environ, PYTHONHASHSEED=str(seed), VERIF_REPO=env.REPO)
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, text=True, cwd='/')
        self.n = 0

    def ask(self, case):
        self.p.stdin.write(json.dumps(case) + '\n')
        self.p.stdin.flush()
        self.n += 1
        line = self.p.stdout.readline()
        if not line:
            return {'stopped': 'the process ended'}
        return json.loads(line)

    def close(self):
        self.p.kill()
        self.p.wait()


def main():
    out = os.fdopen(os.dup(1), 'w')
    env.setup()
    for line in sys.stdin:
        try:
            r = result(json.loads(line))
        except (Exception, SystemExit) as x:
            r = {'stopped': '%s: %s' % (type(x).__name__, x)}
        out.write(json.dumps(r) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
