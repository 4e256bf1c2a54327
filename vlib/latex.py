"""Reading LaTeX reports: structure (balance) and formulas as sympy prints them."""
import re
import sympy as sp
import numpy as np
from . import num


class Bad(Exception):
    pass


# ------------------------------------------------------------------ document structure
VERB = ('verbatim',)


def strip_comments(src):
    """remove comments outside verbatim environments"""
    out, verb = [], False
    for l in src.split('\n'):
        if not verb:
            l = re.sub(r'(?<!\\)((?:\\\\)*)%.*', r'\1', l)
        if r'\begin{verbatim}' in l:
            verb = True
        if r'\end{verbatim}' in l:
            verb = False
        out.append(l)
    return '\n'.join(out)


def structure(src):
    """Bad if braces, environments, math delimiters or \\left/\\right do not balance, or the document is not complete"""
    src = strip_comments(src)
    for what in (r'\documentclass', r'\begin{document}', r'\end{document}'):
        if src.count(what) != 1:
            raise Bad('%d times %s' % (src.count(what), what))
    if not src.index(r'\documentclass') < src.index(r'\begin{document}') < src.index(r'\end{document}'):
        raise Bad('order of the document parts')
    if src[src.index(r'\end{document}') + len(r'\end{document}'):].strip():
        raise Bad('text after the end of the document')
    body = src[src.index(r'\begin{document}'):]
    stack = []
    pos = 0

    def where():
        return '...%s...' % body[max(0, pos - 60):pos + 40].replace('\n', ' ')

    def close(kind):
        if not stack or stack[-1] != kind:
            raise Bad('%s closed while %s is open at %s' % (kind, stack[-1] if stack else 'nothing', where()))
        stack.pop()
    tok = re.compile(r'\\begin\{(\w+\*?)\}|\\end\{(\w+\*?)\}|\\left\s*(\\[{}|]|\\\w+|.)|\\right\s*(\\[{}|]|\\\w+|.)|\\\[|\\\]|\\\(|\\\)|\\\\|\\.|\$\$?|[{}]')
    MATH = ('$', '\\[', '\\(')
    MENV = ('dmath', 'align', 'equation', 'align*', 'equation*', 'dmath*', 'gather', 'multline')
    while True:
        m = tok.search(body, pos)
        if not m:
            break
        pos = m.start()
        t = m.group(0)
        inmath = any(s in MATH or s in MENV for s in stack)
        if m.group(1):
            if m.group(1) in VERB:
                e = body.find(r'\end{%s}' % m.group(1), m.end())
                if e < 0:
                    raise Bad('verbatim not closed')
                if r'\begin{verbatim}' in body[m.end():e]:
                    raise Bad('verbatim not closed')
                pos = e + len(r'\end{%s}' % m.group(1))
                continue
            if m.group(1) in MENV and inmath:
                raise Bad('%s inside math at %s' % (m.group(1), where()))
            stack.append(m.group(1))
        elif m.group(2):
            close(m.group(2))
        elif t.startswith(r'\left') and m.group(3) is not None:
            if not inmath:
                raise Bad('\\left outside math at ' + where())
            stack.append('\\left')
        elif t.startswith(r'\right') and m.group(4) is not None:
            close('\\left')
        elif t == '$':
            if stack and stack[-1] == '$':
                stack.pop()
            elif inmath:
                raise Bad('$ inside other math at ' + where())
            else:
                stack.append('$')
        elif t == '$$':
            if stack and stack[-1] == '$':
                raise Bad('$$ in inline math')
            raise Bad('empty formula at ' + where())
        elif t == r'\[':
            if inmath:
                raise Bad('\\[ inside math')
            stack.append('\\[')
        elif t == r'\]':
            close('\\[')
        elif t == '{':
            stack.append('{')
        elif t == '}':
            close('{')
        pos = m.end()
    if stack:
        raise Bad('not closed: %s' % stack)
    # characters which need math mode or escaping in text
    return body


# ------------------------------------------------------------------ formulas
TOK = re.compile(r'\s+|\\left|\\right|\\begin\{matrix\}|\\end\{matrix\}|\\\\|\\operatorname\{(\w+)\}|\\[A-Za-z]+|\\[,;: ]|\d+\.?\d*(?:e-?\d+)?|[A-Za-z]+|[-+*/^_{}()\[\]|&,=]')
FUN = {'sin': sp.sin, 'cos': sp.cos, 'tan': sp.tan, 'asin': sp.asin, 'acos': sp.acos, 'atan': sp.atan, 'arcsin': sp.asin, 'arccos': sp.acos,
       'arctan': sp.atan, 'atan2': sp.atan2, 'sec': sp.sec, 'csc': sp.csc, 'cot': sp.cot, 'sign': sp.sign, 'log': sp.log}
SKIP = {r'\quad', r'\,', r'\;', r'\:', '\\ ', r'\!', r'\limits', r'\displaystyle'}


def tokens(s):
    out, pos = [], 0
    while pos < len(s):
        m = TOK.match(s, pos)
        if not m:
            raise Bad('unexpected %r in formula %s' % (s[pos:pos + 10], s[:200]))
        t = m.group(0)
        if m.group(1):
            t = '\\op:' + m.group(1)
        if not t.isspace() and t not in SKIP:
            out.append(t)
        pos = m.end()
    return out


class Parser:
    def __init__(self, s):
        self.t, self.i, self.s = tokens(s), 0, s

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def want(self, t):
        g = self.next()
        if g != t:
            raise Bad('expected %s, found %s in %s' % (t, g, self.s[:300]))

    def expr(self):
        sign = 1
        while self.peek() in ('+', '-'):
            if self.next() == '-':
                sign = -sign
        e = sign * self.term()
        while self.peek() in ('+', '-'):
            if self.next() == '+':
                e = e + self.term()
            else:
                e = e - self.term()
        return e

    def starts(self):
        t = self.peek()
        if t is None:
            return False
        if t in ('\\left', '{', '(', '|'):
            return True
        if t[0] == '\\':
            return t not in ('\\right', '\\\\', '\\end{matrix}')
        return t[0].isalnum()

    def term(self):
        e = self.factor()
        while True:
            if self.peek() in ('\\cdot', '\\times', '*'):
                self.next()
                e = e * self.factor()
            elif self.peek() == '/':
                self.next()
                e = e / self.factor()
            elif self.starts():
                e = e * self.factor()
            else:
                return e

    def group(self):
        if self.peek() == '{':
            self.next()
            e = self.expr()
            self.want('}')
            return e
        return self.atom()

    def factor(self):
        if self.peek() == '-':
            self.next()
            return -self.factor()
        b = self.atom()
        while self.peek() == '^':
            self.next()
            b = b ** self.group()
        return b

    def subscript(self):
        if self.peek() != '_':
            return ''
        self.next()
        if self.peek() == '{':
            self.next()
            s = ''
            while self.peek() != '}':
                x = self.next()
                if x is None:
                    raise Bad('open subscript in ' + self.s[:200])
                s += x
            self.next()
            return s
        return self.next()[:1] if self.peek() and not self.peek()[0] == '\\' else self.next()

    def args(self):
        """arguments of a function: {\\left(a,b \\right)} or \\left(..\\right) or {x}"""
        brace = self.peek() == '{'
        if brace:
            self.next()
        paren = self.peek() in ('\\left', '(')
        if paren:
            left = self.next() == '\\left'
            if left:
                self.want('(')
            a = [self.expr()]
            while self.peek() == ',':
                self.next()
                a.append(self.expr())
            if left:
                self.want('\\right')
            self.want(')')
        elif brace:
            a = [self.expr()]
        else:
            a = [self.factor()]
        if brace:
            self.want('}')
        return a

    def atom(self):
        t = self.next()
        if t is None:
            raise Bad('formula ends early: ' + self.s[:300])
        if t == '{':
            e = self.expr()
            self.want('}')
            return e
        if t == '(':
            e = self.expr()
            self.want(')')
            return e
        if t == '\\left':
            o = self.next()
            if o == '(':
                e = self.expr()
                self.want('\\right')
                self.want(')')
                return e
            if o == '|':
                e = self.expr()
                self.want('\\right')
                self.want('|')
                return sp.Abs(e)
            if o == '[':
                e = self.matrix() if self.peek() == '\\begin{matrix}' else self.expr()
                self.want('\\right')
                self.want(']')
                return e
            raise Bad('\\left%s' % o)
        if t == '\\begin{matrix}':
            self.i -= 1
            return self.matrix()
        if t in ('\\frac', '\\tfrac', '\\dfrac'):
            a = self.group()
            return a / self.group()
        if t == '\\sqrt':
            return sp.sqrt(self.group())
        if t == '\\pi':
            return sp.pi
        if t[0].isdigit():
            return sp.Rational(t) if '.' not in t and 'e' not in t else sp.Float(t)
        name = None
        if t.startswith('\\op:'):
            name = t[4:]
        elif t[0] == '\\' and t[1:] in FUN:
            name = t[1:]
        if name is not None:
            if self.peek() == '_':
                name += self.subscript()
            power = None
            if self.peek() == '^':
                self.next()
                power = self.group()
            f = FUN.get(name)
            if f is None:
                raise Bad('function %s in %s' % (name, self.s[:200]))
            v = f(*self.args())
            return v if power is None else v ** power
        if t[0] == '\\':
            n = {'\\theta': 'th'}.get(t, t[1:])
        elif t[0].isalpha():
            n = t
        else:
            raise Bad('unexpected %s in %s' % (t, self.s[:300]))
        s = self.subscript()
        return sp.Symbol(n + ('_' + s if s else ''))

    def matrix(self):
        self.want('\\begin{matrix}')
        rows = [[self.expr()]]
        while self.peek() != '\\end{matrix}':
            t = self.next()
            if t == '&':
                rows[-1].append(self.expr())
            elif t == '\\\\':
                if self.peek() != '\\end{matrix}':
                    rows.append([self.expr()])
            else:
                raise Bad('matrix: unexpected %s' % t)
        self.next()
        if len({len(r) for r in rows}) != 1:
            raise Bad('rows of different length in a matrix')
        return sp.Matrix(rows)


def formula(s):
    p = Parser(s)
    e = p.expr()
    if p.peek() is not None:
        raise Bad('rest %s of formula %s' % (p.t[p.i:p.i + 5], s[:300]))
    return e


def matrices(src):
    """all matrices of the text, in order"""
    out = []
    for m in re.finditer(r'\\begin\{matrix\}(.*?)\\end\{matrix\}', src, re.S):
        out.append(Parser(m.group(0)).matrix())
    return out


def equations(src):
    """[(left side name, right side)] of all displayed equations 'symbol = formula'"""
    out = []
    for m in re.finditer(r'\\begin\{(align\*?|dmath\*?|equation\*?)\}(.*?)\\end\{\1\}', src, re.S):
        body = m.group(2)
        if r'\begin{matrix}' in body or r'\left[' in body or r'\mathrm' in body:
            continue
        for l in re.split(r'\\\\', body):
            l = l.strip()
            if not l:
                continue
            l = l.replace('&', ' ')
            if l.count('=') != 1:
                raise Bad('not an equation: ' + l[:200])
            a, b = l.split('=')
            if not b.strip():
                raise Bad('nothing on the right hand side: ' + l[:200])
            a = formula(a)
            out.append((str(a), formula(b)))
    return out


def sections(src):
    """{title: text}, in order"""
    out = []
    parts = re.split(r'\\section\*?\{', src)
    for p in parts[1:]:
        depth, k = 1, 0
        while depth and k < len(p):
            depth += {'{': 1, '}': -1}.get(p[k], 0)
            k += 1
        out.append((p[:k - 1].strip(), p[k:]))
    return out


def subsections(text):
    out = []
    parts = re.split(r'\\subsection\*?\{', text)
    for p in parts[1:]:
        depth, k = 1, 0
        while depth and k < len(p):
            depth += {'{': 1, '}': -1}.get(p[k], 0)
            k += 1
        out.append((p[:k - 1].strip(), p[k:]))
    return out
