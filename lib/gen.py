# -*- coding: utf-8 -*-
"""
Random port-Hamiltonian systems as JSON-able specs, built through the public
API of the code under test, together with an independent numerical model of
the same system (plain sympy + floats, nothing of pyphs).
"""
from __future__ import division
import sympy
import math

MATH = [{'Abs': abs, 'sign': lambda v: (v > 0) - (v < 0)}, 'math']


def rnd(rng, a, b, nd=3):
    return round(rng.uniform(a, b), nd)


def coef(rng, nd=3):
    """a positive coefficient spread over a decade"""
    return round(10**rng.uniform(-0.5, 0.7), nd)


# --------------------------------------------------------------------------- #
# scalar pieces

STOR_NL = ['{k}*{x}**4/4 + {x}**2/2', '{k}*(cosh({x}) - 1)',
           '{k}*log(cosh({x}))', '{k}*(sqrt(1 + {x}**2) - 1)',
           '{k}*(1 - cos({x}))', '{x}**2/2 + {k}*{x}**4/12 + {x}**6/30',
           '{k}*{x}**2/2 + {x}**3/9 + {x}**4/8']
STOR_LIN = ['{k}*{x}**2/2', '{x}**2/(2*{k})', '{k}*{x}**2/2 + {x}/3']
STOR_2 = ['{k}*{x}**2*{y}**2/2', '{k}*({x}**2 + {y}**2)**2/4',
          '{k}*{x}**2*cosh({y}/2)/2', '{k}*({x} - {y})**4/4',
          '{k}*(sqrt(1 + {x}**2 + {y}**2) - 1)', '{k}*(cosh({x} - {y}) - 1)']
STOR_2LIN = ['{k}*({x} - {y})**2/2', '{k}*{x}*{y}/4']

DISS_LIN = ['{k}*{w}', '{w}/{k}']
DISS_NL = ['{k}*{w}**3 + {w}', '{k}*sinh({w})', '{k}*tanh({w}) + {w}/5',
           '{k}*{w}*sqrt(1 + {w}**2)', '{k}*atan({w}) + {w}/3']


def names(rng, prefix, n):
    pool = ['A', 'B', 'C', 'Dd', 'E1', 'F2', 'Gg', 'K', 'L3', 'Mm']
    rng.shuffle(pool)
    return [prefix + s for s in pool[:n]]


def gen_core(rng, nx=(1, 3), nw=(0, 3), ny=(0, 2), np_=(0, 1), nl=True,
             coupled=True, statedep=0.3, resist=0.3, psubs=0.5, obs=0.3,
             zdep=0.2, gdep=0., ncy=(0, 0), exprsubs=0.0, density=0.7,
             nlprob=0.5):
    nx, nw, ny, npar = (rng.randint(*r) for r in (nx, nw, ny, np_))
    ncy = 2*rng.randint(*ncy)
    X = names(rng, 'x', nx)
    W = names(rng, 'w', nw)
    U = names(rng, 'u', ny + ncy)
    Y = ['y' + s[1:] for s in U]
    P = names(rng, 'p', npar)
    subs = {}

    def k():
        v = coef(rng)
        if rng.random() < psubs:
            name = 'k%d' % len(subs)
            subs[name] = v
            return name
        return repr(v)

    H = []
    for x in X:
        if nl and rng.random() < nlprob:
            H.append(rng.choice(STOR_NL).format(x=x, k=k()))
        else:
            H.append(rng.choice(STOR_LIN).format(x=x, k=k()))
    kinds = {'mono': True}
    if coupled and nx > 1 and rng.random() < 0.5:
        x, y = rng.sample(X, 2)
        if nl and rng.random() < 0.6:
            H.append(rng.choice(STOR_2).format(x=x, y=y, k=k()))
        else:
            H.append(rng.choice(STOR_2LIN).format(x=x, y=y, k=k()))
    O = {}
    if nx and rng.random() < obs:
        O['oQ'] = '%s + %s' % (rng.choice(X), k() if rng.random() < 0.5 else repr(rnd(rng, -1, 1)))
        if rng.random() < 0.5:
            O['oR'] = 'sin(%s)' % rng.choice(X + P + ([X[0] + '*' + k()] if rng.random() < 0.3 else []))
    Z = []
    for w in W:
        if nl and rng.random() < nlprob:
            z = rng.choice(DISS_NL).format(w=w, k=k())
        else:
            z = rng.choice(DISS_LIN).format(w=w, k=k())
        if rng.random() < zdep and nx:
            z = '(%s)*(1 + %s**2/4)' % (z, rng.choice(X))
        if P and rng.random() < 0.5:
            z = '(%s)*(1 + %s**2)' % (z, rng.choice(P))
        if O and rng.random() < 0.4:
            z = '(%s)*(2 + cos(%s))' % (z, rng.choice(sorted(O)))
        if gdep and nx and rng.random() < gdep:
            z = '(%s)*(1 + g%s**2/5)' % (z, rng.choice(X))
        Z.append(z)
    if nw > 1 and rng.random() < 0.3:
        i, j = rng.sample(range(nw), 2)
        c = k()
        Z[i] += ' + %s*%s/3' % (c, W[j])
        Z[j] += ' - %s*%s/3' % (c, W[i])
    n = nx + nw + ny + ncy
    J, R = [], []
    for i in range(n):
        for j in range(i + 1, n):
            if rng.random() < density:
                v = repr(rng.choice([1., -1., rnd(rng, -2, 2)]))
                r = rng.random()
                if r < statedep and nx:
                    v = '%s*%s' % (v, rng.choice(
                        ['(1 + %s**2/3)', 'cos(%s)', '(1 + %s/4)']) % rng.choice(X))
                elif r < statedep + 0.1 and P:
                    v = '%s*(1 + %s)' % (v, rng.choice(P))
                elif r < statedep + 0.2 and O:
                    v = '%s*(1 + %s/5)' % (v, rng.choice(sorted(O)))
                elif r < statedep + 0.4 and psubs:
                    v = '%s*%s' % (v, k())
                elif gdep and nx and r < statedep + 0.4 + gdep:
                    v = '%s*(1 + g%s/6)' % (v, rng.choice(X))
                J.append([i, j, v])
    if rng.random() < resist and n:
        # R = sum of a.a^T (positive semidefinite), acting on x/y rows only
        idx = list(range(nx)) + list(range(nx + nw, n))
        if idx:
            vec = {i: rnd(rng, -0.6, 0.6) for i in rng.sample(idx, min(len(idx), 2))}
            for i in vec:
                for j in vec:
                    R.append([i, j, repr(vec[i]*vec[j])])
    if exprsubs and rng.random() < exprsubs and subs:
        nm = rng.choice(sorted(subs))
        subs['q0'] = coef(rng)
        subs[nm] = rng.choice(['2*q0 + 1', 'q0**2', '1/(1 + q0)'])
    return {'x': X, 'H': ' + '.join(H) if H else '0', 'w': W, 'z': Z,
            'u': U[:ny], 'y': Y[:ny], 'cu': U[ny:], 'cy': Y[ny:],
            'p': P, 'obs': O, 'J': J, 'R': R, 'subs': subs}


def add_subs(spec):
    return spec


# --------------------------------------------------------------------------- #

def symtab(spec):
    """real symbols, as the API makes them"""
    t = {}
    for k in ('x', 'w', 'u', 'y', 'p', 'cu', 'cy'):
        for s in spec.get(k, []):
            t[s] = sympy.Symbol(s, real=True)
    for s in spec['x']:
        t['d' + s] = sympy.Symbol('d' + s, real=True)
        t['g' + s] = sympy.Symbol('g' + s, real=True)
    for s in spec.get('obs', {}):
        t[s] = sympy.Symbol(s, real=True)
    for s in spec.get('subs', {}):
        t[s] = sympy.Symbol(s, real=True)
    return t


def parse(s, tab):
    return sympy.sympify(s, locals=tab)


def total_M(spec, tab=None):
    """(J - R) of the spec as a sympy Matrix ordered (x, w, y, cy)"""
    tab = tab or symtab(spec)
    n = len(spec['x']) + len(spec['w']) + len(spec['y']) + len(spec.get('cy', []))
    M = sympy.zeros(n, n)
    for i, j, v in spec['J']:
        e = parse(v, tab)
        M[i, j] += e
        M[j, i] -= e
    for i, j, v in spec['R']:
        M[i, j] -= parse(v, tab)
    return M


def build_core(spec, label='sys'):
    """Build the system through the public API."""
    import pyphs
    core = pyphs.Core(label)
    tab = symtab(spec)
    S = lambda l: [core.symbols(s) for s in l]
    if spec['x']:
        core.add_storages(S(spec['x']), parse(spec['H'], tab))
    if spec['w']:
        core.add_dissipations(S(spec['w']), [parse(z, tab) for z in spec['z']])
    if spec['u']:
        core.add_ports(S(spec['u']), S(spec['y']))
    if spec.get('cu'):
        core.cu += S(spec['cu'])
        core.cy += S(spec['cy'])
    if spec['p']:
        core.add_parameters(S(spec['p']))
    if spec.get('obs'):
        core.add_observer({core.symbols(k): parse(v, tab)
                           for k, v in sorted(spec['obs'].items())})
    M = total_M(spec, tab)
    dims = [('x', len(spec['x'])), ('w', len(spec['w'])), ('y', len(spec['y'])),
            ('cy', len(spec.get('cy', [])))]
    core.init_M()
    i0 = 0
    for a, na in dims:
        j0 = 0
        for b, nb in dims:
            if na and nb:
                getattr(core, 'set_M%s%s' % (a, b))(M[i0:i0+na, j0:j0+nb])
            j0 += nb
        i0 += na
    for k, v in spec['subs'].items():
        core.subs[core.symbols(k)] = parse(v, tab) if isinstance(v, str) else v
    return core


class Model(object):
    """
    Independent numerical model of a spec: H, grad H, z, M as float functions
    of a {name: value} environment.
    """

    def __init__(self, spec):
        self.spec = spec
        tab = self.tab = symtab(spec)
        num = {tab[k]: parse(v, tab) if isinstance(v, str) else v
               for k, v in spec['subs'].items()}

        def sub(e):
            e = sympy.sympify(e)
            for _ in range(3):
                e = e.subs(num)
            return e
        self.sub = sub
        self.names = [n for n in sorted(tab) if n not in spec['subs']]
        self.args = [tab[n] for n in self.names]
        self.Hs = sub(parse(spec['H'], tab))
        self.xs = [tab[s] for s in spec['x']]
        self.H = self.fn(self.Hs)
        self.gradH = [self.fn(self.Hs.diff(x)) for x in self.xs]
        self.z = [self.fn(sub(parse(z, tab))) for z in spec['z']]
        M = total_M(spec, tab)
        self.n = M.shape[0]
        self.M = [[self.fn(sub(M[i, j])) for j in range(self.n)]
                  for i in range(self.n)]
        self.obs = [(k, self.fn(sub(parse(v, tab))))
                    for k, v in sorted(spec.get('obs', {}).items())]

    def fn(self, expr):
        expr = sympy.sympify(expr)
        if not expr.free_symbols:
            v = float(expr)
            return lambda env, v=v: v
        fs = sorted(expr.free_symbols, key=str)
        keys = [str(s) for s in fs]
        f = sympy.lambdify(fs, expr, modules=MATH)
        return lambda env: float(f(*[env[k] for k in keys]))

    def Mnum(self, env):
        import numpy as np
        return np.array([[f(env) for f in row] for row in self.M],
                        dtype=float).reshape(self.n, self.n)

    def grad(self, env):
        return [g(env) for g in self.gradH]
