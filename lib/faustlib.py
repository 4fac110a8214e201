# -*- coding: utf-8 -*-
"""
A reader of Faust programs: the block algebra (sequence, parallel, split, merge,
recursion) with its typing rules, and the values of the blocks without memory.

Recursions are typed and not run.
"""
from __future__ import division
import math
import re


class FaustError(Exception):
    pass


TOK = re.compile(r'\s*(?:(//[^\n]*)|(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)|([A-Za-z_]\w*(?:\.[A-Za-z_]\w*)*)|'
                 r'("[^"]*")|(<:|:>|\\|[-+*/~:,;=()!.]))')


def tokens(text):
    out, i = [], 0
    text = text.rstrip()
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            if not text[i:].strip():
                break
            raise FaustError('unreadable: %r' % text[i:i+40])
        i = m.end()
        if m.group(1):
            continue
        for kind, g in (('num', 2), ('id', 3), ('str', 4), ('op', 5)):
            if m.group(g) is not None:
                out.append((kind, m.group(g)))
                break
    return out


FUN = {'pow': (2, lambda a, b: a**b), 'exp': (1, math.exp), 'log': (1, math.log), 'sqrt': (1, math.sqrt),
       'sin': (1, math.sin), 'cos': (1, math.cos), 'tan': (1, math.tan),
       'tanh': (1, math.tanh), 'sinh': (1, math.sinh), 'cosh': (1, math.cosh), 'asinh': (1, math.asinh),
       'atan': (1, math.atan), 'abs': (1, abs), 'prefix': (2, None)}
OPS = {'+': lambda a, b: a+b, '-': lambda a, b: a-b, '*': lambda a, b: a*b, '/': lambda a, b: a/b}


class Parser(object):
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i+k][1] if self.i+k < len(self.t) else None

    def eat(self, v=None):
        k, s = self.t[self.i] if self.i < len(self.t) else (None, None)
        if v is not None and s != v:
            raise FaustError('%r expected, %r found before %r' % (v, s, [x[1] for x in self.t[self.i:self.i+6]]))
        self.i += 1
        return s

    def program(self):
        defs, imports = {}, []
        while self.i < len(self.t):
            name = self.eat()
            if name == 'import':
                self.eat('(')
                imports.append(self.eat().strip('"'))
                self.eat(')')
                self.eat(';')
                continue
            if self.t[self.i-1][0] != 'id':
                raise FaustError('definition of %r' % name)
            self.eat('=')
            e = self.expr()
            self.eat(';')
            if name in defs:
                raise FaustError('multiple definitions of %s' % name)
            defs[name] = e
        return defs, imports

    # lowest: <: :> (right), then : (right), then , (right), then ~ (left)
    def expr(self):
        a = self.seq()
        if self.peek() in ('<:', ':>'):
            return (self.eat(), a, self.expr())
        return a

    def seq(self):
        a = self.par()
        if self.peek() == ':':
            self.eat()
            return (':', a, self.seq())
        return a

    def par(self):
        a = self.rec()
        if self.peek() == ',':
            self.eat()
            return (',', a, self.par())
        return a

    def rec(self):
        a = self.add()
        while self.peek() == '~':
            self.eat()
            a = ('~', a, self.add())
        return a

    def add(self):
        a = self.mul()
        while self.peek() in ('+', '-'):
            a = (self.eat(), a, self.mul())
        return a

    def mul(self):
        a = self.post()
        while self.peek() in ('*', '/'):
            a = (self.eat(), a, self.post())
        return a

    def post(self):
        a = self.atom()
        while self.peek() == '(' and a[0] in ('id',):
            self.eat()
            args = [self.arg()]
            while self.peek() == ',':
                self.eat()
                args.append(self.arg())
            self.eat(')')
            a = ('call', a[1], args)
        return a

    def arg(self):
        # an argument: everything but the parallel composition
        if self.t[self.i][0] == 'str':
            return ('str', self.eat())
        return self.rec()

    def atom(self):
        k, s = self.t[self.i] if self.i < len(self.t) else (None, None)
        if k == 'num':
            self.eat()
            return ('num', float(s))
        if s == '-':
            # a sign is only read in front of a number or a name
            self.eat()
            if self.t[self.i][0] == 'num':
                return ('num', -float(self.eat()))
            if self.t[self.i][0] == 'id' and self.peek(1) != '(':
                return ('-', ('num', 0.), ('id', self.eat()))
            raise FaustError('sign in front of %r' % self.peek())
        if s == '(':
            self.eat()
            e = self.expr()
            self.eat(')')
            return e
        if s == '\\':
            self.eat()
            self.eat('(')
            names = [self.eat()]
            while self.peek() == ',':
                self.eat()
                names.append(self.eat())
            self.eat(')')
            self.eat('.')
            self.eat('(')
            e = self.expr()
            self.eat(')')
            return ('lambda', names, e)
        if s == '_':
            self.eat()
            return ('wire',)
        if s == '!':
            self.eat()
            return ('cut',)
        if k == 'id':
            self.eat()
            return ('id', s)
        raise FaustError('unexpected %r before %r' % (s, [x[1] for x in self.t[self.i:self.i+6]]))


class Program(object):
    """controls: values of the sliders by name, others keep their default"""

    def __init__(self, text, sr, controls=None):
        self.defs, self.imports = Parser(tokens(text)).program()
        self.sr = float(sr)
        self.controls = controls or {}
        self.sliders = {}
        self.cache = {}

    def box(self, name):
        if name not in self.cache:
            if name == 'ma.SR':
                if 'stdfaust.lib' not in self.imports:
                    raise FaustError('ma.SR without its library')
                self.cache[name] = (0, 1, lambda v: [self.sr])
            elif name not in self.defs:
                raise FaustError('undefined symbol %s' % name)
            else:
                self.cache[name] = None
                self.cache[name] = self.ev(self.defs[name], {})
        if self.cache[name] is None:
            raise FaustError('%s is defined by itself' % name)
        return self.cache[name]

    def ev(self, e, env):
        """(inputs, outputs, function)"""
        k = e[0]
        if k == 'num':
            return 0, 1, lambda v, c=e[1]: [c]
        if k == 'wire':
            return 1, 1, lambda v: list(v)
        if k == 'cut':
            return 1, 0, lambda v: []
        if k == 'id':
            if e[1] in env:
                return 0, 1, lambda v, c=env[e[1]]: [c[0]]
            return self.box(e[1])
        if k == 'lambda':
            cells = [[0.] for _ in e[1]]
            if len(set(e[1])) != len(e[1]):
                raise FaustError('parameters %s' % e[1])
            i, o, f = self.ev(e[2], dict(env, **dict(zip(e[1], cells))))

            def run(v, n=len(e[1])):
                for c, x in zip(cells, v):
                    c[0] = x
                return f(v[n:])
            return len(e[1]) + i, o, run
        if k == 'call':
            if e[1] == 'hslider':
                if len(e[2]) != 5 or e[2][0][0] != 'str':
                    raise FaustError('hslider')
                lab = e[2][0][1].strip('"')
                nums = [self.ev(a, env)[2]([])[0] for a in e[2][1:]]
                self.sliders[lab] = nums
                val = self.controls.get(lab, nums[0])
                return 0, 1, lambda v: [val]
            if e[1] not in FUN or e[1] in env or e[1] in self.defs:
                raise FaustError('unknown function %s' % e[1])
            n, f = FUN[e[1]]
            a = self.parallel([self.ev(x, env) for x in e[2]])
            if a[1] != n:
                raise FaustError('%s of %d signals' % (e[1], a[1]))
            if f is None:
                return a[0], 1, None
            return a[0], 1, lambda v: [f(*a[2](v))]
        a, b = self.ev(e[1], env), self.ev(e[2], env)
        if k in OPS:
            c = self.parallel([a, b])
            if c[1] != 2:
                raise FaustError('%s of %d signals' % (k, c[1]))
            return c[0], 1, lambda v, f=OPS[k]: [f(*c[2](v))]
        if k == ',':
            return self.parallel([a, b])
        run = None
        known = a[2] is not None and b[2] is not None
        if k == ':':
            if a[1] != b[0]:
                raise FaustError('%d outputs : %d inputs' % (a[1], b[0]))
            if known:
                run = lambda v: b[2](a[2](v))
            return a[0], b[1], run
        if k == '<:':
            if a[1] == 0 or b[0] == 0 or b[0] % a[1]:
                raise FaustError('%d outputs <: %d inputs' % (a[1], b[0]))
            if known:
                run = lambda v, n=b[0]//a[1]: b[2](a[2](v)*n)
            return a[0], b[1], run
        if k == ':>':
            if a[1] == 0 or b[0] == 0 or a[1] % b[0]:
                raise FaustError('%d outputs :> %d inputs' % (a[1], b[0]))
            if known:
                def run(v, n=b[0]):
                    s = a[2](v)
                    return b[2]([sum(s[j::n]) for j in range(n)])
            return a[0], b[1], run
        if k == '~':
            if a[1] < b[0] or a[0] < b[1]:
                raise FaustError('%d->%d ~ %d->%d' % (a[0], a[1], b[0], b[1]))
            return a[0] - b[1], a[1], None
        raise FaustError(k)

    @staticmethod
    def parallel(boxes):
        known = all(b[2] is not None for b in boxes)

        def run(v):
            out, i = [], 0
            for b in boxes:
                out += b[2](v[i:i+b[0]])
                i += b[0]
            return out
        return sum(b[0] for b in boxes), sum(b[1] for b in boxes), run if known else None
