# -*- coding: utf-8 -*-
"""
Reading of LaTeX: a linter of documents (modes, groups, environments) and an
evaluator of formulas, independent of the code that prints them.
"""
import math
import re


class TexError(Exception):
    pass


TOK = re.compile(r'\\[A-Za-z]+|\\.|\d+\.?\d*|\.\d+|[A-Za-z]|\S')


def tokens(s):
    return TOK.findall(s)


def strip_comments(s):
    out = []
    for line in s.splitlines():
        m = re.search(r'(?<!\\)%', line)
        out.append(line[:m.start()] if m else line)
    return '\n'.join(out)


def lint(text):
    """problems that stop a LaTeX compiler, as a list of messages"""
    bad = []
    text = strip_comments(text)
    stack = []          # open groups: ('{', math), ('begin', env, math), ('left',)
    math_ = False
    body = text.find('\\begin{document}')
    body = max(body, 0)
    i = 0
    n = len(text)
    line = 1
    textmode = re.compile(r'\\(text\w*|mbox|emph|caption|section|subsection|subsubsection|title|includegraphics|label|ref|url|'
                          r'usepackage|documentclass|newcommand|renewcommand)\b')
    raw = re.compile(r'\\(label|ref|includegraphics(\[[^\]]*\])?|url|usepackage(\[[^\]]*\])?|geometry)\{([^{}]*)\}')
    while i < n:
        c = text[i]
        if c == '\n':
            line += 1
            i += 1
            continue
        m = raw.match(text, i)
        if m:
            i = m.end()
            continue
        m = re.compile(r'\\(begin|end)\{([^{}]*)\}').match(text, i)
        if m:
            if m.group(1) == 'begin':
                stack.append(('begin', m.group(2), math_))
                if m.group(2) == 'tabular':
                    math_ = False
            else:
                if not stack or stack[-1][:2] != ('begin', m.group(2)):
                    bad.append('line %d: \\end{%s} closes %s' % (line, m.group(2), stack[-1:] or 'nothing'))
                    return bad
                math_ = stack.pop()[2]
            i = m.end()
            # arguments of the environment
            m = re.compile(r'(\[[^\]]*\])?\{[lrc|]*\}').match(text, i)
            if m:
                i = m.end()
            continue
        if c == '\\':
            m = re.compile(r'\\([A-Za-z]+|.)', re.S).match(text, i)
            cmd = m.group(1)
            if cmd == 'left':
                stack.append(('left', math_))
                if not math_:
                    bad.append('line %d: \\left outside mathematics' % line)
            elif cmd == 'right':
                if not stack or stack[-1][0] != 'left':
                    bad.append('line %d: \\right without \\left' % line)
                    return bad
                stack.pop()
            elif cmd in ('frac', 'sqrt', 'mathrm', 'cdot', 'sin', 'cos', 'log', 'cosh', 'sinh', 'tanh', 'operatorname', 'mathbf') \
                    and not math_:
                bad.append('line %d: \\%s outside mathematics' % (line, cmd))
            elif cmd in ('texttt', 'textbf', 'emph', 'mbox', 'textrm', 'Resize', 'caption') and text[m.end():m.end()+1] == '{':
                stack.append(('{', math_))
                math_ = False
                i = m.end() + 1
                continue
            i = m.end()
            continue
        if c == '$':
            if stack and stack[-1][0] == '$':
                stack.pop()
                math_ = False
            elif math_:
                bad.append('line %d: $ inside %s' % (line, stack[-1:]))
                return bad
            else:
                stack.append(('$', line))
                math_ = True
        elif c == '{':
            stack.append(('{', math_))
        elif c == '}':
            if not stack or stack[-1][0] != '{':
                bad.append('line %d: } closes %s' % (line, stack[-1:]))
                return bad
            math_ = stack.pop()[1]
        elif c in '_^' and not math_:
            bad.append('line %d: %r outside mathematics: %r' % (line, c, text[max(0, i-25):i+15]))
        elif c == '#' and not (body and text[i+1:i+2].isdigit() and i < body):
            # parameters (#1) belong to the definitions of the preamble
            bad.append('line %d: # in the text: %r' % (line, text[max(0, i-25):i+15]))
        elif c == '&' and not any(s[0] == 'begin' and s[1] in ('tabular', 'array', 'matrix') for s in stack):
            bad.append('line %d: & outside a table' % line)
        i += 1
    if stack:
        bad.append('not closed: %s' % stack[-3:])
    return bad


# --------------------------------------------------------------------------- #

FUN = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh,
       'log': math.log, 'exp': math.exp, 'atan': math.atan, 'asinh': math.asinh, 'asin': math.asin, 'acos': math.acos,
       'arctan': math.atan,
       'sign': lambda v: float((v > 0) - (v < 0))}
LIT = {'\\pi': math.pi}


class Formula(object):
    """value of a formula in an environment {name: value}"""

    def __init__(self, s, env):
        self.t = tokens(s)
        self.i = 0
        self.env = env

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise TexError('end of formula')
        self.i += 1
        return self.t[self.i - 1]

    def expect(self, tok):
        g = self.next()
        if g != tok:
            raise TexError('expected %r, read %r in %s' % (tok, g, ' '.join(self.t)))

    def value(self):
        v = self.sum()
        if self.peek() is not None:
            raise TexError('unread: %s' % ' '.join(self.t[self.i:self.i + 8]))
        return v

    def sum(self):
        sign = 1
        while self.peek() in ('-', '+'):
            if self.next() == '-':
                sign = -sign
        v = sign*self.product()
        while self.peek() in ('+', '-'):
            s = 1 if self.next() == '+' else -1
            while self.peek() in ('-', '+'):
                if self.next() == '-':
                    s = -s
            v += s*self.product()
        return v

    def product(self):
        v = self.power()
        while True:
            p = self.peek()
            if p == '\\cdot':
                self.next()
                s = 1
                while self.peek() == '-':
                    self.next()
                    s = -s
                v *= s*self.power()
            elif p is None or p in ('+', '-', '}', ')', '\\right', '&', '\\\\', ']', ',', '|'):
                return v
            else:
                v *= self.power()

    def power(self):
        b = self.atom()
        if self.peek() == '^':
            self.next()
            e = self.group()
            b = b**e
        return b

    def group(self):
        if self.peek() == '{':
            self.next()
            v = self.sum()
            self.expect('}')
            return v
        return self.atom()

    def word(self):
        """raw text of a group"""
        self.expect('{')
        d, out = 1, ''
        while d:
            t = self.next()
            if t == '{':
                d += 1
            elif t == '}':
                d -= 1
            elif t not in ('\\mathrm', '\\mathtt'):
                out += t
        return out

    def symbol(self, head):
        name = head
        if self.peek() == '_':
            self.next()
            name += self.word() if self.peek() == '{' else self.next()
        name = name.replace('\\', '').replace('_', '')
        for k in self.env:
            if k.replace('_', '') == name:
                return self.env[k]
        raise TexError('unknown symbol %r' % name)

    def delimited(self):
        self.expect('\\left')
        d = self.next()
        v = self.sum()
        self.expect('\\right')
        e = self.next()
        if (d, e) not in (('(', ')'), ('|', '|'), ('[', ']'), ('\\{', '\\}')):
            raise TexError('delimiters %s %s' % (d, e))
        return abs(v) if d == '|' else v

    def call(self, name):
        p = None
        if self.peek() == '^':
            self.next()
            p = self.group()
        self.expect('{')
        v = self.delimited()
        self.expect('}')
        v = FUN[name](v)
        return v if p is None else v**p

    def atom(self):
        t = self.peek()
        if t is None:
            raise TexError('end of formula')
        if re.match(r'[\d.]', t):
            self.next()
            return float(t)
        if t == '\\left':
            return self.delimited()
        if t == '{':
            return self.group()
        self.next()
        if t == '\\frac':
            a = self.group()
            return a/self.group()
        if t == '\\sqrt':
            if self.peek() == '[':
                self.next()
                k = self.sum()
                self.expect(']')
                return self.group()**(1./k)
            return math.sqrt(self.group())
        if t == '\\operatorname':
            return self.call(self.word())
        if t[0] == '\\' and t[1:] in FUN:
            return self.call(t[1:])
        if t in LIT:
            return LIT[t]
        if t == 'e' and self.peek() == '^':
            return math.e
        # a symbol: letters, possibly several
        name = t
        while self.peek() and re.match(r'[A-Za-z]$', self.peek()) and not t.startswith('\\'):
            name += self.next()
        return self.symbol(name)


def evaluate(s, env):
    return float(Formula(s, env).value())


def array(s):
    """cells of \\left(\\begin{array}{..} .. \\end{array}\\right), or None"""
    m = re.match(r'\s*\\left\(\s*\\begin\{array\}\{c*\}(.*)\\end\{array\}\s*\\right\)\s*$', s, re.S)
    if not m:
        return None
    return [[c.strip() for c in row.split('&')] for row in m.group(1).split('\\\\')]
