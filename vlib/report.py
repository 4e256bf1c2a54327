"""What an IK / FK report must contain."""
import math, random, re
import sympy as sp
import numpy as np
from .harness import Violation, expect
from . import latex, num


def _env(rng, names):
    d = {n: rng.uniform(-0.45, 0.45) if n.startswith('r_') else rng.uniform(0.2, 1.4) for n in names}
    for i in '123456':
        if 'th_' + i not in d:
            d['th_' + i] = rng.uniform(-3, 3)
    for i in '123456':
        d['c_' + i], d['s_' + i] = math.cos(d['th_' + i]), math.sin(d['th_' + i])
        for j in '123456':
            a = d['th_' + i] + d['th_' + j]
            d['c_' + i + j], d['s_' + i + j] = math.cos(a), math.sin(a)
    for n in names:         # ca1 is shown as ca_{1}
        m = re.fullmatch(r'([A-Za-z]+)(\d+\w*)', n)
        if m:
            d[m.group(1) + '_' + m.group(2)] = d[n]
    return d


def flat(n):
    return str(n).replace('_', '')


def same(shown, real, rng, what, tries=4):
    """both expressions have the same value wherever they have one"""
    names = {s.name for s in real.free_symbols}
    for _ in range(tries):
        d = _env(rng, names)
        try:
            b = num.ev(real, d)
        except num.Undefined:
            b = None
        try:
            a = num.ev(shown, d)
        except num.Undefined:
            a = None
        except num.Unbound as e:
            raise Violation('%s: %s is shown, which does not occur in %s' % (what, e, real))
        if a is None and b is None:
            continue
        if a is None or b is None or abs(a - b) > 1e-6 * (1 + abs(b)):
            return False
    return True


def same_matrix(A, B, rng, what):
    return A.shape == B.shape and all(same(sp.sympify(a), sp.sympify(b), rng, what) for a, b in zip(A, B))


def columns_shown(ms, B, rng, what):
    """B appears as one matrix or column by column"""
    for k, A in enumerate(ms):
        if A.shape == B.shape and B.shape[1] > 1:
            try:
                if same_matrix(A, B, rng, what):
                    return True
            except Violation:
                continue
        if A.shape == (B.shape[0], 1):
            run = ms[k:k + B.shape[1]]
            try:
                if len(run) == B.shape[1] and all(same_matrix(x, B[:, j], rng, what) for j, x in enumerate(run)):
                    return True
            except Violation:
                continue
    return False


def read(path):
    src = open(path).read()
    try:
        latex.structure(src)
        return latex.strip_comments(src)
    except latex.Bad as e:
        raise Violation('the report is not well formed: %s' % e)


def kinematics(src, R, rng):
    try:
        ms = latex.matrices(src)
    except latex.Bad as e:
        raise Violation('a matrix of the report cannot be read: %s' % e)
    expect(columns_shown(ms, R.Mech.DH, rng, 'DH table'), 'the DH table %s is not in the report', R.Mech.DH.tolist())
    expect(columns_shown(ms, sp.Matrix(R.Mech.T_06), rng, 'forward kinematics'), 'the forward kinematics are not in the report: %s', sp.Matrix(R.Mech.T_06).tolist())
    expect(columns_shown(ms, sp.Matrix(R.Mech.J66), rng, 'Jacobian'), 'the Jacobian is not in the report: %s', sp.Matrix(R.Mech.J66).tolist())


def symbols_in(text):
    """names of the symbols shown as $...$ formulas"""
    out = []
    for m in re.finditer(r'(?<!\\)\$(.*?)(?<!\\)\$', text, re.S):
        try:
            out.append(str(latex.formula(m.group(1).strip().strip('{}') if m.group(1).count('{') != m.group(1).count('}') else m.group(1))))
        except latex.Bad:
            pass
    return out


def solutions(src, R, unknowns, rng):
    """steps: the solved unknowns in order"""
    nodes = list(R.solution_nodes)
    solved = [n.unknown for n in nodes]
    names = [u.name for u in solved]
    body = src[src.index(r'\begin{document}'):]
    try:
        eqs = latex.equations(body)
    except latex.Bad as e:
        raise Violation('an equation of the report cannot be read: %s' % e)
    by = {}
    for n, e in eqs:
        by.setdefault(flat(n), []).append(e)
    # the list of unknowns in solution order
    items = re.findall(r'\\begin\{enumerate\}(.*?)\\end\{enumerate\}', body, re.S)
    expect(len(items) == 1, 'no list of unknowns')
    shown = symbols_in(items[0])
    expect(items[0].count(r'\item') == len(names) and shown == names, 'the report lists %s as solved, solved are %s', shown, names)
    for u in solved:
        expect(u.solvemethod, 'no method for ' + u.name)
        subs = [t for t in latex.subsections(body) if u.name in symbols_in(t[0])]
        expect(subs, 'no subsection for %s', u.name)
        for t in subs:
            expect(u.solvemethod in t[1], 'the method %s of %s is not shown', u.solvemethod, u.name)
        for nm, s in zip(u.solutionNames, u.solutions):
            nm = flat(nm)
            expect(nm in by, 'solution %s of %s is not shown; shown are %s', nm, u.name, sorted(by))
            expect(any(same(e, s, rng, nm) for e in by[nm]), 'solution %s is shown as %s, but is %s', nm, by[nm], s)
            expect(len(by[nm]) == 1, 'solution %s is shown several times', nm)
        expect(len(u.solutionNames) == len(u.solutions), 'names %s for %d solutions of %s', u.solutionNames, len(u.solutions), u.name)
    known = {flat(n) for u in solved for n in u.solutionNames}
    # versions
    for row in R.FinalEqnMatrix:
        for q in row:
            l = flat(q.LHS)
            known.add(l)
            expect(l in by, '%s is not shown', l)
            expect(len(by[l]) == 1 and same(by[l][0], q.RHS, rng, l), '%s is shown as %s, but is %s', l, by[l], q.RHS)
    extra = set(by) - known
    expect(not extra, 'equations for unknown symbols: %s', sorted(extra))
    verb = re.findall(r'\\begin\{verbatim\}(.*?)\\end\{verbatim\}', body, re.S)
    text = '\n'.join(verb)
    for e in R.notation_graph_edges:
        a, b = str(e.StartNode), str(e.dependsOn)
        expect(re.search(r'\b%s\b[^\n]*?\b%s\b' % (re.escape(a), re.escape(b)), text), 'the edge %s -> %s is not shown in\n%s', a, b, text)
    pairs = {(str(e.StartNode), str(e.dependsOn)) for e in R.notation_graph_edges}
    for a, b in re.findall(r'(\w+) depends on: (\w+)', text):
        expect((a, b) in pairs, 'the edge %s -> %s is shown, but is not in the graph', a, b)
    # the table
    tabs = re.findall(r'\\begin\{tabular\}\{.*?\}(.*?)\\end\{tabular\}', body, re.S)
    rows = []
    for t in tabs:
        for l in re.split(r'\\\\', t):
            v = [x.strip() for x in re.findall(r'\$(.*?)\$', l)]
            if v:
                rows.append(v)

    def plain(x):
        return re.sub(r'[{}\\ ]', '', x).replace('theta', 'th')
    rows = sorted(tuple(plain(x) for x in r) for r in rows)
    want = sorted(tuple(str(x) for x in r) for r in R.solutionSet)
    expect([sorted(r) for r in rows] == [sorted(r) for r in want], 'rows of the table: %s\nrows of the solution set: %s', rows[:8], want[:8])
    lines = [sorted(re.findall(r'\w+', l)) for l in text.splitlines()]
    for r in want:
        expect(sorted(r) in lines, 'solution set %s is not shown in\n%s', r, text)


def ik(path, R, unknowns, seed):
    src = read(path)
    rng = random.Random(seed)
    kinematics(src, R, rng)
    solutions(src, R, unknowns, rng)


def fk(path, R, seed):
    src = read(path)
    kinematics(src, R, random.Random(seed))
