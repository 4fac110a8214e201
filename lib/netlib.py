# -*- coding: utf-8 -*-
"""
Networks of components: generator, netlist text, and an independent model of
the physics of each component (effort e = p[n1]-p[n2], flux positive n1->n2).

A component spec is {'dict', 'comp', 'label', 'nodes', 'args'}; an argument is
a number, ['label', number] (labelled value), or 'label' (free parameter whose
value is in net['free']).
"""
import math
import itertools
import numpy as np
import sympy

DATUM = '#'


# --------------------------------------------------------------------------- #
# netlist

def argval(a):
    """python value of an argument of a spec"""
    return tuple(a) if isinstance(a, list) else a


def item(c):
    return {'dictionary': c['dict'], 'component': c['comp'], 'label': c['label'],
            'nodes': tuple(c['nodes']),
            'arguments': {k: argval(v) for k, v in c['args'].items()}}


def text(comps):
    lines = []
    for c in comps:
        args = ''.join(' %s=%s;' % (k, argval(v)) for k, v in c['args'].items())
        lines.append('%s.%s %s %r:%s' % (c['dict'], c['comp'], c['label'],
                                         tuple(c['nodes']), args))
    return '\n'.join(lines) + '\n'


def make_graph(comps, path, how='file', label=None):
    """graph of the network, through the file, line or component interface"""
    from pyphs import Netlist, Graph
    if how == 'file':
        with open(path, 'w') as f:
            f.write(text(comps))
        return Netlist(path).to_graph(label=label)
    if how == 'lines':
        net = Netlist(path, clear=True)
        for c in comps:
            net.add_line(item(c))
        return net.to_graph(label=label)
    import importlib
    g = Graph(label=label)
    for c in comps:
        mod = importlib.import_module('pyphs.dictionary.' + c['dict'])
        klass = getattr(mod, c['comp'][0].upper() + c['comp'][1:])
        g += klass(c['label'], tuple(c['nodes']),
                   **{k: argval(v) for k, v in c['args'].items()})
    return g


# --------------------------------------------------------------------------- #
# physics

def num(net, a):
    if isinstance(a, list):
        return float(a[1])
    if isinstance(a, str):
        return float(net['free'][a])
    return float(a)


class Stor(object):
    """storage edge: stored energy h, its derivatives; ctrl 'f': dx=f, dh=e"""
    type = 'stor'

    def __init__(self, name, n1, n2, ctrl, h, dh, d2h, lin, lim=None):
        self.name, self.n1, self.n2, self.ctrl = name, n1, n2, ctrl
        self.h, self.dh, self.d2h, self.lin, self.lim = h, dh, d2h, lin, lim


class Diss(object):
    """dissipative edge; laws {'e': z(w) of the fluxes from the efforts, 'f': ..}"""
    type = 'diss'

    def __init__(self, name, n1, n2, ctrl, laws, lin, slope, scale=1., deps=None):
        self.name, self.n1, self.n2, self.ctrl = name, n1, n2, ctrl
        self.laws, self.lin, self.slope, self.scale = laws, lin, slope, scale
        self.deps = deps or [name]


class Port(object):
    type = 'port'

    def __init__(self, label, n1, n2, ctrl):
        self.name, self.u = 'y' + label, 'u' + label
        self.n1, self.n2, self.ctrl = n1, n2, ctrl


class Conn(object):
    type = 'conn'

    def __init__(self, name, n1, n2, other, kind, first, alpha):
        self.name, self.n1, self.n2 = name, n1, n2
        self.other, self.kind, self.first, self.alpha = other, kind, first, alpha
        self.ctrl = '?'


def linstor(name, n1, n2, ctrl, k):
    return Stor(name, n1, n2, ctrl, lambda x: k*x*x/2., lambda x: k*x,
                lambda x: k, True)


def lindiss(name, n1, n2, R):
    """e = R*f"""
    return Diss(name, n1, n2, '?',
                {'e': lambda w: w/R, 'f': lambda w: w*R}, True, R)


def satstor(name, n1, n2, ctrl, k0, ksat, sat):
    """k0*(x^2/2 + ksat*Hsat), derivative k0*(x + ksat*4/(4-pi)*(tan-..))"""
    def hs(x):
        t = math.pi*x/(2*sat)
        return -8*sat/(math.pi*(4-math.pi))*(t*t/2 + math.log(math.cos(t)))

    def dhs(x):
        t = math.pi*x/(2*sat)
        return 4/(4-math.pi)*(math.tan(t) - t)

    def d2hs(x):
        t = math.pi*x/(2*sat)
        return 4/(4-math.pi)*math.pi/(2*sat)*math.tan(t)**2
    return Stor(name, n1, n2, ctrl, lambda x: k0*(x*x/2 + ksat*hs(x)),
                lambda x: k0*(x + ksat*dhs(x)),
                lambda x: k0*(1 + ksat*d2hs(x)), False, 0.8*sat)


def cubstor(name, n1, n2, ctrl, F1, F3, xr):
    return Stor(name, n1, n2, ctrl,
                lambda x: F1*x*x/(2*xr) + F3*x**4/(4*xr**3),
                lambda x: F1*x/xr + F3*(x/xr)**3,
                lambda x: F1/xr + 3*F3*x*x/xr**3, False, 3*xr)


def edges_of(net, c):
    """edges of the component c, from its documentation"""
    d, k, l = c['dict'], c['comp'], c['label']
    N = list(c['nodes'])
    A = {key: v for key, v in c['args'].items()}

    def v(key):
        return num(net, A[key])
    if k == 'source':
        t = A['type']
        ctrl = 'f' if t in ('voltage', 'velocity', 'mmf') else 'e'
        if d == 'mechanics_dual':
            ctrl = 'f' if t == 'force' else 'e'
        if len(N) == 1:
            N = [DATUM] + N
        return [Port(l, N[0], N[1], ctrl)]
    if d in ('electronics', 'magnetics') and k == 'capacitor':
        return [linstor('x'+l, N[0], N[1], 'f', 1/v('C'))]
    if k == 'inductor':
        return [linstor('x'+l, N[0], N[1], 'e', 1/v('L'))]
    if k == 'resistor':
        return [lindiss('w'+l, N[0], N[1], v('R'))]
    if d == 'mechanics' and k == 'mass':
        return [linstor('x'+l, DATUM, N[0], 'f', 1/v('M'))]
    if d == 'mechanics_dual' and k == 'mass':
        return [linstor('x'+l, N[0], N[1], 'e', 1/v('M'))]
    if k == 'stiffness':
        return [linstor('x'+l, N[0], N[1],
                        'e' if d == 'mechanics' else 'f', v('K'))]
    if k == 'damper':
        return [lindiss('w'+l, N[0], N[1],
                        1/v('A') if d == 'mechanics' else v('A'))]
    if k == 'springcubic':
        return [cubstor('x'+l, N[0], N[1], 'e' if d == 'mechanics' else 'f',
                        v('F1'), v('F3'), v('xref'))]
    if k == 'springsat':
        return [satstor('x'+l, N[0], N[1], 'e' if d == 'mechanics' else 'f',
                        v('K0'), v('Ksat'), v('xsat'))]
    if k == 'capacitorsat':
        return [satstor('x'+l, N[0], N[1], 'f', 1/v('C0'), v('Csat'), v('phisat'))]
    if k == 'diode':
        Is, mu, v0, R = v('Is'), v('mu'), v('v0'), v('R')
        iN = '%s%s' % (N[1], l)
        return [Diss('w'+l, N[0], iN, '?',
                     {'e': lambda w: Is*(math.exp(w/(mu*v0)) - 1),
                      'f': lambda w: mu*v0*math.log(w/Is + 1)}, False,
                     mu*v0/Is, scale=mu*v0),
                lindiss('w'+l+'_R', iN, N[1], R),
                lindiss('w'+l+'_gmin', N[0], iN, 1/net.get('gmin', 1e-12))]
    if k == 'potentiometer':
        R, a, E = v('R'), v('A'), v('E')
        return [lindiss('w'+l+'1', N[0], N[1], 1 + R*a**E),
                lindiss('w'+l+'2', N[1], N[2], 1 + R*(1 - a**E))]
    if k == 'bjt':
        Is, bR, bF, Vt, mu = [v(q) for q in ('Is', 'betaR', 'betaF', 'Vt', 'mu')]
        G = 1e-12
        nb, nc, ne = [l + '_' + str(n) for n in N]

        def g(w):
            return Is*(math.exp(w/(mu*Vt)) - 1) + G*w
        dep = ['w'+l+'bc', 'w'+l+'be']
        return [Diss('w'+l+'bc', nb, nc, 'e',
                     {'e': lambda a, b: (bR+1)/bR*g(a) - g(b)}, False, None,
                     mu*Vt, dep),
                Diss('w'+l+'be', nb, ne, 'e',
                     {'e': lambda a, b: -g(a) + (bF+1)/bF*g(b)}, False, None,
                     mu*Vt, dep),
                lindiss('w'+l+'rb', N[0], nb, v('Rb')),
                lindiss('w'+l+'rc', N[1], nc, v('Rc')),
                lindiss('w'+l+'re', N[2], ne, v('Re'))]
    if k in ('gyrator', 'transformer'):
        a = v('alpha')
        return [Conn('y'+l+'1', N[0], N[1], 'y'+l+'2', k, True, a),
                Conn('y'+l+'2', N[2], N[3], 'y'+l+'1', k, False, a)]
    raise KeyError((d, k))


class Network(object):
    def __init__(self, net):
        self.net = net
        self.edges = [e for c in net['comps'] for e in edges_of(net, c)]
        nodes = []
        for e in self.edges:
            for n in (e.n1, e.n2):
                if n not in nodes and n != DATUM:
                    nodes.append(n)
        self.nodes = nodes
        ind = {n: i for i, n in enumerate(nodes)}
        A = np.zeros((len(nodes), len(self.edges)))
        for k, e in enumerate(self.edges):
            if e.n1 != DATUM:
                A[ind[e.n1], k] += 1
            if e.n2 != DATUM:
                A[ind[e.n2], k] -= 1
        self.A = A
        self.byname = {e.name: e for e in self.edges}
        self.index = {e.name: k for k, e in enumerate(self.edges)}

    def of(self, t):
        return [e for e in self.edges if e.type == t]

    @property
    def linear(self):
        return all(e.lin for e in self.edges if e.type in ('stor', 'diss'))

    def conn_rows(self):
        """rows of the relations between efforts and fluxes of the connectors,
        as [(coef e, coef f)] over all edges"""
        n = len(self.edges)
        rows = []
        for e in self.edges:
            if e.type == 'conn' and e.first:
                a, b = self.index[e.name], self.index[e.other]
                r1 = np.zeros(2*n)
                r2 = np.zeros(2*n)
                if e.kind == 'gyrator':        # e_A = -alpha f_B, e_B = alpha f_A
                    r1[a], r1[n+b] = 1, e.alpha
                    r2[b], r2[n+a] = 1, -e.alpha
                else:                          # f_A = -alpha f_B, e_B = alpha e_A
                    r1[n+a], r1[n+b] = 1, e.alpha
                    r2[b], r2[a] = 1, -e.alpha
                rows += [r1, r2]
        return np.array(rows).reshape(len(rows), 2*n)

    def kirchhoff(self, known):
        """
        known: {edge name: (effort, flux)} for every non-connector edge.
        Residual of the node/loop laws and connector relations when the
        connector variables are chosen as well as possible (relative).
        """
        n, m = len(self.edges), len(self.nodes)
        conn = [k for k, e in enumerate(self.edges) if e.type == 'conn']
        # unknowns: potentials (m), connectors efforts, connectors fluxes
        nc = len(conn)
        N = m + 2*nc
        rows, rhs = [], []
        for j in range(m):                     # node laws
            r = np.zeros(N)
            b = 0.
            for k, e in enumerate(self.edges):
                if self.A[j, k]:
                    if e.type == 'conn':
                        r[m + nc + conn.index(k)] += self.A[j, k]
                    else:
                        b -= self.A[j, k]*known[e.name][1]
            rows.append(r)
            rhs.append(b)
        for k, e in enumerate(self.edges):     # loop laws
            r = np.zeros(N)
            r[:m] = self.A[:, k]
            if e.type == 'conn':
                r[m + conn.index(k)] -= 1
                rhs.append(0.)
            else:
                rhs.append(known[e.name][0])
            rows.append(r)
        for row in self.conn_rows():
            r = np.zeros(N)
            for q, k in enumerate(conn):
                r[m+q] = row[k]
                r[m+nc+q] = row[n+k]
            rows.append(r)
            rhs.append(0.)
        rows, rhs = np.array(rows), np.array(rhs)
        if N == 0:
            return float(np.abs(rhs).max()) if len(rhs) else 0.
        sol = np.linalg.lstsq(rows, rhs, rcond=None)[0]
        res = rows.dot(sol) - rhs
        scale = 1. + np.abs(rhs).max() + np.abs(sol).max()
        return float(np.abs(res).max()/scale)

    def transfer(self, s, slopes=None):
        """port transfer matrix (dict of dict by port name) at complex s of the
        network linearised at the origin; None if ill-posed"""
        n, m = len(self.edges), len(self.nodes)
        ports = self.of('port')
        N = m + n                               # potentials, fluxes
        M = np.zeros((m + n, N), dtype=complex)
        B = np.zeros((m + n, len(ports)), dtype=complex)
        M[:m, m:] = self.A
        crow = self.conn_rows()
        ic = 0
        for k, e in enumerate(self.edges):
            r = m + k
            Arow = self.A[:, k]
            if e.type == 'stor':
                q = e.d2h(0.)
                if e.ctrl == 'f':               # s x = f, e = q x
                    M[r, :m] = s*Arow
                    M[r, m+k] = -q
                else:                           # s x = e, f = q x
                    M[r, m+k] = s
                    M[r, :m] = -q*Arow
            elif e.type == 'diss':
                M[r, :m] = Arow
                M[r, m+k] = -e.slope
            elif e.type == 'port':
                j = ports.index(e)
                if e.ctrl == 'f':               # u is the effort
                    M[r, :m] = Arow
                else:
                    M[r, m+k] = 1.
                B[r, j] = 1.
            else:
                row = crow[ic]
                ic += 1
                for kk in range(n):
                    M[r, :m] += row[kk]*self.A[:, kk]
                    M[r, m+kk] += row[n+kk]
        if N == 0 or np.linalg.cond(M) > 1e10:
            return None
        sol = np.linalg.solve(M, B)
        out = {}
        for i, e in enumerate(ports):
            k = self.index[e.name]
            val = sol[m+k] if e.ctrl == 'f' else self.A[:, k].dot(sol[:m])
            for j, pj in enumerate(ports):
                out[(e.name, pj.u)] = val[j]
        return out

    def realizable(self):
        """is there a choice of controls such that the flux-controlled edges
        form a spanning tree (independent of the algorithm under test)"""
        conns = [e for e in self.edges if e.type == 'conn' and e.first]
        m = len(self.nodes)

        def rank(cols):
            if not cols:
                return 0
            return np.linalg.matrix_rank(self.A[:, cols])
        fixed_f = [k for k, e in enumerate(self.edges) if e.ctrl == 'f']
        free = [k for k, e in enumerate(self.edges)
                if e.ctrl == '?' and e.type != 'conn']
        for choice in itertools.product((0, 1), repeat=len(conns)):
            f = list(fixed_f)
            for c, e in zip(choice, conns):
                a, b = self.index[e.name], self.index[e.other]
                if e.kind == 'gyrator':
                    f += [a, b] if c else []
                else:
                    f += [a] if c else [b]
            if rank(f) == len(f) and rank(f + free) == m:
                return True
        return False


# --------------------------------------------------------------------------- #
# generators

def cval(rng, lo=0.4, hi=2.5):
    return round(rng.uniform(lo, hi), 3)


class Gen(object):
    """random component specs"""

    def __init__(self, rng, nl=0.2, free=0.1, domains=('electronics',)):
        self.rng, self.nl, self.pfree = rng, nl, free
        self.free = {}
        self.count = 0
        self.domains = domains

    def label(self, prefix):
        self.count += 1
        return prefix + str(self.count)

    def arg(self, label, key, lo=0.4, hi=2.5):
        r = self.rng.random()
        v = cval(self.rng, lo, hi)
        if r < self.pfree:
            name = 'p%s%s' % (label, key)
            self.free[name] = v
            return name
        if r < 0.55:
            return ['%s_%s' % (label, key.lower() + 'v'), v]
        if r < 0.65:
            return self.rng.randint(2, 5)
        return v

    def fc(self, nodes):
        """flux-controlled storage"""
        rng = self.rng
        opts = ['electronics.capacitor', 'magnetics.capacitor',
                'mechanics_dual.stiffness']
        if nodes[0] == DATUM:
            opts.append('mechanics.mass')
        if rng.random() < self.nl:
            opts = ['mechanics_dual.springcubic', 'mechanics_dual.springsat',
                    'magnetics.capacitorsat']
        return self.make(rng.choice(opts), nodes)

    def ec(self, nodes):
        rng = self.rng
        opts = ['electronics.inductor', 'mechanics.stiffness', 'mechanics_dual.mass']
        if rng.random() < self.nl:
            opts = ['mechanics.springcubic', 'mechanics.springsat']
        return self.make(rng.choice(opts), nodes)

    def diss(self, nodes):
        return self.make(self.rng.choice(
            ['electronics.resistor', 'electronics.resistor', 'mechanics.damper',
             'mechanics_dual.damper', 'magnetics.resistor']), nodes)

    def make(self, name, nodes):
        d, k = name.split('.')
        pre = {'capacitor': 'C', 'inductor': 'L', 'resistor': 'R', 'mass': 'M',
               'stiffness': 'K', 'damper': 'A', 'springcubic': 'SC',
               'springsat': 'SS', 'capacitorsat': 'CS', 'diode': 'D',
               'potentiometer': 'P', 'bjt': 'Q', 'gyrator': 'G',
               'transformer': 'T', 'source': 'S'}[k]
        l = self.label(pre)
        keys = {'capacitor': 'C', 'inductor': 'L', 'resistor': 'R', 'mass': 'M',
                'stiffness': 'K', 'damper': 'A'}
        nodes = list(nodes)
        if name == 'mechanics.mass':
            nodes = [nodes[1]]
        args = {}
        if k in keys:
            args[keys[k]] = self.arg(l, keys[k])
        elif k == 'springcubic':
            args = {q: self.arg(l, q) for q in ('F1', 'F3', 'xref')}
        elif k == 'springsat':
            args = {q: self.arg(l, q) for q in ('K0', 'Ksat', 'xsat')}
        elif k == 'capacitorsat':
            args = {q: self.arg(l, q) for q in ('C0', 'Csat', 'phisat')}
        elif k == 'diode':
            args = {'Is': ['Is%s' % l, 0.02], 'v0': ['v0%s' % l, 0.3],
                    'mu': 1.5, 'R': self.arg(l, 'R')}
        elif k == 'potentiometer':
            args = {'R': self.arg(l, 'R'), 'A': self.arg(l, 'A', 0.2, 0.8),
                    'E': self.rng.choice([1., 2., 0.5])}
            if isinstance(args['A'], int):
                args['A'] = 0.25
        elif k == 'bjt':
            args = {'Is': ['Is%s' % l, 0.05], 'betaR': 10., 'betaF': 100.,
                    'Vt': 0.3, 'mu': 1.2, 'Rb': self.arg(l, 'Rb'),
                    'Rc': self.arg(l, 'Rc'), 'Re': self.arg(l, 'Re')}
        elif k in ('gyrator', 'transformer'):
            args = {'alpha': self.arg(l, 'alpha')}
        return {'dict': d, 'comp': k, 'label': l, 'nodes': nodes, 'args': args}

    def source(self, nodes, kind):
        """kind 'effort' or 'flux'"""
        d = self.rng.choice(['electronics', 'mechanics', 'mechanics_dual', 'magnetics'])
        t = {'electronics': ('voltage', 'current'), 'mechanics': ('velocity', 'force'),
             'mechanics_dual': ('force', 'velocity'),
             'magnetics': ('mmf', 'fluxvar')}[d][kind == 'flux']
        return {'dict': d, 'comp': 'source', 'label': self.label('S'),
                'nodes': list(nodes), 'args': {'type': t}}


NAMES = ['A', 'B', 'C', 'D', 'E', 'F', 'N1', 'N2', 'in', 'out', 'n_3', 'b1']


def orient(rng, a, b):
    return [a, b] if rng.random() < 0.5 else [b, a]


def realizable_net(rng, nnodes=(1, 5), extra=(0, 4), nl=0.2, free=0.1, conn=0.3,
                   big=0.1):
    """spanning tree of flux-controlled edges, co-tree effort-controlled"""
    g = Gen(rng, nl, free)
    n = rng.randint(*nnodes)
    names = rng.sample(NAMES, n)
    allnodes = [DATUM] + names
    tree, cotree = [], []
    for i, a in enumerate(names):
        tree.append((a, rng.choice(allnodes[:i+1])))
    for _ in range(max(1, rng.randint(*extra))):
        a, b = rng.sample(allnodes, 2) if len(allnodes) > 1 else (DATUM, DATUM)
        cotree.append((a, b))
    comps = []
    T, C = list(tree), list(cotree)
    rng.shuffle(T)
    rng.shuffle(C)
    if rng.random() < conn:
        for _ in range(rng.randint(1, 2)):
            k = rng.choice(['gt', 'gc', 't', 't'])
            if k == 'gt' and len(T) >= 2:
                a, b = T.pop(), T.pop()
                comps.append(g.make('connectors.gyrator', orient(rng, *a) + orient(rng, *b)))
            elif k == 'gc' and len(C) >= 2:
                a, b = C.pop(), C.pop()
                comps.append(g.make('connectors.gyrator', orient(rng, *a) + orient(rng, *b)))
            elif k == 't' and T and C:
                a, b = T.pop(), C.pop()
                if rng.random() < 0.5:
                    a, b = b, a
                comps.append(g.make('connectors.transformer',
                                    orient(rng, *a) + orient(rng, *b)))
    for a, b in T:
        o = orient(rng, a, b)
        r = rng.random()
        comps.append(g.fc(o) if r < 0.4 else g.source(o, 'effort') if r < 0.6
                     else g.diss(o))
    for a, b in C:
        o = orient(rng, a, b)
        r = rng.random()
        comps.append(g.ec(o) if r < 0.4 else g.source(o, 'flux') if r < 0.6
                     else g.diss(o))
    rng.shuffle(comps)
    return {'comps': comps, 'free': g.free}


def random_net(rng, nnodes=(1, 4), nedges=(2, 7), nl=0.2, conn=0.2):
    """anything, realizable or not"""
    g = Gen(rng, nl, 0.1)
    n = rng.randint(*nnodes)
    allnodes = [DATUM] + rng.sample(NAMES, n)
    comps = []
    for a in allnodes[1:]:
        pass
    for _ in range(rng.randint(max(nedges[0], n), max(n, nedges[1]))):
        a, b = rng.sample(allnodes, 2)
        o = [a, b]
        r = rng.random()
        if r < conn*0.5 and n >= 2:
            c, d = rng.sample(allnodes, 2)
            comps.append(g.make('connectors.' + rng.choice(['gyrator', 'transformer']),
                                o + [c, d]))
        elif r < 0.3:
            comps.append(g.fc(o))
        elif r < 0.5:
            comps.append(g.ec(o))
        elif r < 0.8:
            comps.append(g.diss(o))
        else:
            comps.append(g.source(o, rng.choice(['effort', 'flux'])))
    return {'comps': comps, 'free': g.free}


def ladder_net(rng, depth=(1, 3), nl=0., free=0.):
    """series/parallel network with clusters of like components, which have to
    be merged to be realizable (capacitors in parallel, inductors in series)"""
    g = Gen(rng, nl, free)
    comps = []
    cnt = [0]

    def node():
        cnt[0] += 1
        return 'n%d' % cnt[0]

    def branch(a, b, d):
        k = rng.random()
        if d == 0 or k < 0.35:
            r = rng.random()
            o = orient(rng, a, b)
            comps.append(g.fc(o) if r < 0.3 else g.ec(o) if r < 0.6 else g.diss(o))
        elif k < 0.68:
            for _ in range(rng.randint(2, 3)):
                branch(a, b, d-1)
        else:
            prev = a
            q = rng.randint(2, 3)
            for i in range(q):
                nxt = b if i == q-1 else node()
                branch(prev, nxt, d-1)
                prev = nxt
    top = node()
    comps.append(g.source(orient(rng, top, DATUM), rng.choice(['effort', 'flux'])))
    branch(top, DATUM, rng.randint(*depth))
    if rng.random() < 0.5:
        comps.append(g.diss(orient(rng, top, DATUM)))
    rng.shuffle(comps)
    return {'comps': comps, 'free': g.free}


def cluster_net(rng, nl=0., **kw):
    """realizable network in which some storages are replaced by equivalent
    clusters (flux-controlled in parallel, effort-controlled in series)"""
    net = realizable_net(rng, nl=0., free=kw.pop('free', 0.), **kw)
    g = Gen(rng, nl, 0.)
    g.count = 100
    g.free = net['free']
    comps = []
    k = 0
    for c in net['comps']:
        e = edges_of(net, c)[0]
        if e.type == 'stor' and rng.random() < 0.7:
            n = rng.randint(2, 3)
            if e.ctrl == 'f':
                comps += [g.fc(orient(rng, e.n1, e.n2)) for _ in range(n)]
            else:
                prev = e.n1
                for i in range(n):
                    k += 1
                    nxt = e.n2 if i == n-1 else 'k%d' % k
                    comps.append(g.ec(orient(rng, prev, nxt)))
                    prev = nxt
        else:
            comps.append(c)
    rng.shuffle(comps)
    return {'comps': comps, 'free': g.free}
