# -*- coding: utf-8 -*-
"""C14: dictionary components implement their documented laws."""
import math
import os
import random
import importlib
import numpy as np
import sympy
import vh
import shadow as S
import netlib as N

PROPERTY = 'C14'
LEVEL = 'exploration'
RULE = ('every component of the dictionary in a test bench of ideal sources on '
        'its pins x random admissible parameters given as numbers, labelled '
        'values, free symbols or left to their documented default (labels '
        'may equal the name of another parameter) x random pin names and '
        'orientation; the system built by the real code is evaluated at random '
        'points and compared with the documented laws; fractional and beam '
        'components are compared in the frequency domain with the documented '
        'transfer; distinct by spec hash, non-trivial when a law was evaluated')
REQUIRED = ['energy', 'gradient', 'law', 'kirchhoff', 'bounded', 'passive', 'free_parameter',
            'names', 'example', 'pwl_points', 'pwl_between', 'fractional', 'beam',
            'thermal_power', 'observer', 'ports']
COUNT = {'quick': 480, 'thorough': 8000}
ASSUMPTIONS = ['fractional components are approximations: 12 % of the documented transfer is '
               'allowed well inside the optimisation band',
               'number of edges of the fractional components depends on the optimiser and is not checked']

# component -> {parameter: (low, high)}, None for components of connectors
PARS = {
    'electronics.capacitor': {'C': (0.1, 3)}, 'electronics.inductor': {'L': (0.1, 3)},
    'electronics.resistor': {'R': (0.1, 3)},
    'electronics.diode': {'Is': (1e-3, 0.1), 'v0': (0.1, 0.5), 'R': (0.1, 3), 'mu': (1, 2)},
    'electronics.potentiometer': {'R': (0.1, 3), 'A': (0.05, 0.95), 'E': (0.5, 3)},
    'electronics.bjt': {'Is': (1e-3, 0.1), 'betaR': (2, 20), 'betaF': (20, 500),
                        'Vt': (0.1, 0.5), 'mu': (1, 2), 'Rb': (0.1, 3), 'Rc': (0.1, 3), 'Re': (0.1, 3)},
    'electronics.triode': {'mu': (20, 100), 'Ex': (1.1, 1.9), 'Kg': (500, 1500), 'Kp': (100, 700),
                           'Kvb': (100, 500), 'Vct': (0.1, 1), 'Va': (0.1, 0.6), 'Rgk': (500, 4000)},
    'mechanics.mass': {'M': (0.1, 3)}, 'mechanics.stiffness': {'K': (0.1, 3)},
    'mechanics.damper': {'A': (0.1, 3)},
    'mechanics.springcubic': {'F1': (0.1, 3), 'F3': (0.1, 3), 'xref': (0.1, 3)},
    'mechanics.springsat': {'K0': (0.1, 3), 'Ksat': (0.1, 3), 'xsat': (0.3, 3)},
    'mechanics.felt': {'L': (0.1, 2), 'F': (0.5, 5), 'A': (0.5, 5), 'B': (1.5, 3.5)},
    'magnetics.capacitor': {'C': (0.1, 3)}, 'magnetics.resistor': {'R': (0.1, 3)},
    'magnetics.capacitorsat': {'C0': (0.1, 3), 'Csat': (0.1, 3), 'phisat': (0.3, 3)},
    'thermics.capacitor': {'C': (0.5, 3), 'T0': (1, 5)},
    'thermics.transfer': {'R': (0.1, 3)},
    'connectors.gyrator': {'alpha': (0.2, 4)}, 'connectors.transformer': {'alpha': (0.2, 4)},
}
for _k in ('mass', 'stiffness', 'damper', 'springcubic', 'springsat', 'felt'):
    PARS['mechanics_dual.' + _k] = PARS['mechanics.' + _k]
NODES = {'electronics.potentiometer': 3, 'electronics.bjt': 3, 'electronics.triode': 3,
         'mechanics.mass': 1, 'thermics.capacitor': 1, 'connectors.gyrator': 4,
         'connectors.transformer': 4}
KINDS = sorted(PARS)
SPECIAL = ['pwl.dissipative', 'pwl.storage', 'observerec', 'ports']


def directed():
    out = [{'kind': 'examples'}]
    for cls, t, key in (('Fracintec', 'voltage', 'beta'), ('Fracintfc', 'current', 'beta'),
                        ('Fracderec', 'voltage', 'alpha'), ('Fracderfc', 'current', 'alpha')):
        for g, order in ((1.7, 0.5), (0.4, 0.3)):
            out.append({'kind': 'frac', 'cls': cls, 'src': t, 'key': key, 'g': g, 'order': order})
    out.append({'kind': 'beam', 'args': {'N': 3, 'F': 500., 'w1': 1.2e-2, 'z1': 0.3, 'w2': 1e-3, 'z2': 0.9,
                                         'D': 1., 'A': 0.4, 'R': 1.3e-3, 'E': 1.9e11, 'M': 7000.}})
    out.append({'kind': 'beam', 'args': {'N': 2, 'F': 300., 'D': 0.5}})
    out.append({'kind': 'beam', 'args': {'N': 1, 'F': 200., 'z2': 0.7, 'w2': 5e-3}})
    # labels that are the names of other parameters
    out.append(component('mechanics.springcubic', 'S', ['A', '#'],
                         {'F1': ['F3', 0.7], 'F3': ['xref', 1.9], 'xref': ['F1', 0.6]}, {}, 1))
    out.append(component('electronics.potentiometer', 'P', ['A', 'B', '#'],
                         {'R': ['A', 2.], 'A': 'E', 'E': ['R', 1.5]}, {'E': 0.3}, 2))
    out.append(component('mechanics.felt', 'F', ['A', '#'],
                         {'L': ['B', 0.6], 'F': ['L', 2.], 'A': ['F', 0.8], 'B': ['A', 2.4]}, {}, 3))
    # everything left to the documented default
    for k in KINDS:
        out.append(component(k, 'X', ['X'] if k == 'thermics.capacitor' else ['A', 'B', 'C', 'D'][:NODES.get(k, 2)], {},
                             {'alpha': 0.3} if k == 'electronics.potentiometer' else {}, 4))
    return out


def component(kind, label, nodes, args, free, seed, how='lines', flip=0):
    return {'kind': kind, 'label': label, 'nodes': nodes, 'args': args, 'free': free,
            'seed': seed, 'how': how, 'flip': flip}


def gen(rng, i, tier):
    kind = (KINDS + SPECIAL)[i % (len(KINDS) + len(SPECIAL))]
    seed = rng.randint(0, 10**6)
    if tier == 'thorough' and i % 97 == 0:
        c = rng.choice([('Fracintec', 'voltage', 'beta'), ('Fracintfc', 'current', 'beta'),
                        ('Fracderec', 'voltage', 'alpha'), ('Fracderfc', 'current', 'alpha')])
        return {'kind': 'frac', 'cls': c[0], 'src': c[1], 'key': c[2],
                'g': N.cval(rng, 0.2, 3), 'order': rng.uniform(0.25, 0.75)}
    if kind.startswith('pwl'):
        nn, npos = rng.randint(0, 3), rng.randint(1, 4)
        X = sorted(-round(rng.uniform(0.1, 3), 3) for _ in range(nn)) + [0.] + \
            sorted(round(rng.uniform(0.1, 3), 3) for _ in range(npos))
        X = sorted(set(X))
        inc = rng.random() < 0.5
        if kind == 'pwl.dissipative' or inc:
            Y, y = [], 0.
            for x in [v for v in X if v > 0]:
                y += round(rng.uniform(0.1, 2), 3)
                Y.append(y)
            Z, y = [], 0.
            for x in [v for v in X if v < 0]:
                y -= round(rng.uniform(0.1, 2), 3)
                Z.insert(0, y)
            Y = Z + [0.] + Y
        else:
            Y = [0. if x == 0 else round(rng.uniform(0, 3), 3) for x in X]
        return {'kind': kind, 'X': X, 'Y': Y, 'ctrl': rng.choice('ef'), 'integ': inc,
                'key': rng.choice(['integ', 'integrate', None]), 'seed': seed, 'sep': rng.choice([' ', '\t', '  '])}
    if kind == 'observerec':
        return {'kind': kind, 'label': rng.choice(['obs', 'M1']), 'seed': seed}
    if kind == 'ports':
        d = rng.choice(['electronics', 'mechanics', 'mechanics_dual', 'magnetics', 'thermics'])
        t = rng.choice({'electronics': ['voltage', 'current'], 'mechanics': ['force', 'velocity'],
                        'mechanics_dual': ['force', 'velocity'], 'magnetics': ['mmf', 'fluxvar'],
                        'thermics': ['temperature', 'entropyvar']}[d])
        return {'kind': kind, 'dict': d, 'type': t, 'case': rng.choice(['lower', 'upper']),
                'const': rng.choice([None, None, 1.75]), 'R': N.cval(rng), 'seed': seed}
    keys = list(PARS[kind])
    args, free = {}, {}
    label = rng.choice(['X1', 'comp', 'Ra', 'Zz'])
    used = set()
    for k in keys:
        lo, hi = PARS[kind][k]
        v = float('%.4g' % rng.uniform(lo, hi))
        r = rng.random()
        names = [q for q in keys + ['lab%s' % k, k] if q not in used and q != label]
        name = rng.choice(names) if rng.random() < 0.5 and names else 'lab' + k
        if r < 0.12:
            if kind == 'electronics.potentiometer' and k == 'A':
                free['alpha'] = 0.4
            continue                                   # documented default
        if r < 0.45:
            args[k] = v
        elif r < 0.75:
            args[k] = [name, v]
            used.add(name)
        else:
            args[k] = name
            free[name] = v
            used.add(name)
    n = NODES.get(kind, 2)
    nodes = rng.sample(['A', 'B', 'C', 'D', 'n1', 'out'], n)
    if n > 1 and rng.random() < 0.5:
        nodes[rng.randrange(n)] = '#'
    if kind == 'thermics.capacitor':
        nodes = [label]
    return component(kind, label, nodes, args, free, seed,
                     rng.choice(['lines', 'file', 'components']), rng.randint(0, 15))


# --------------------------------------------------------------------------- #
# documented laws

def klass(kind):
    d, c = kind.split('.')
    return getattr(importlib.import_module('pyphs.dictionary.' + d), c.capitalize())


def edges(spec):
    """documented edges of the component, with the values of its parameters"""
    kind, l = spec['kind'], spec['label']
    default = {p[0]: p[3] for p in klass(kind).metadata['parameters']}
    args = dict(default)
    args.update(spec['args'])
    net = {'free': dict(spec['free'])}
    for k, v in args.items():
        if isinstance(v, str) and v not in net['free']:
            try:
                args[k] = float(v)
            except ValueError:
                pass
    v = {k: N.num(net, a) for k, a in args.items()}
    d, c = kind.split('.')
    Ns = list(spec['nodes'])
    if c == 'felt':
        L, F, A, B = v['L'], v['F'], v['A'], v['B']
        h = lambda q: (L*F/(B+1))*(q/L)**(B+1) if q > 0 else 0.
        dh = lambda q: F*(q/L)**B if q > 0 else 0.
        z = lambda w, q: (A*L/B)*(q/L)**(B-1)*w if q > 0 else 0.
        if d == 'mechanics':
            return [N.Stor('q'+l, Ns[0], Ns[1], 'e', h, dh, None, False, 2*L),
                    N.Diss('dtq'+l, Ns[0], Ns[1], 'e', {'e': z}, False, None, deps=['dtq'+l, 'q'+l])]
        return [N.Stor('q'+l, Ns[0], l+'_N3', 'f', h, dh, None, False, 2*L),
                N.Diss('dtq'+l, l+'_N3', Ns[1], 'f', {'f': z}, False, None, deps=['dtq'+l, 'q'+l])]
    if c == 'triode':
        def ipk(vp, vg):
            if vp <= 0:
                return (vp+vg)*1e-12
            e3 = v['Kp']*(1/v['mu'] + (vg + v['Vct'])/math.sqrt(v['Kvb'] + vp*vp))
            E1 = vp/v['Kp']*(math.log1p(math.exp(e3)) if e3 < 500 else e3)
            return 2*E1**v['Ex']/v['Kg'] + (vp+vg)*1e-12

        def igk(vp, vg):
            return max(vg - v['Va'], 0.)/v['Rgk'] + (vp+vg)*1e-12
        dep = ['w'+l+'pk', 'w'+l+'gk']
        return [N.Diss('w'+l+'pk', Ns[1], Ns[0], 'e', {'e': ipk}, False, None, 3., dep),
                N.Diss('w'+l+'gk', Ns[2], Ns[0], 'e', {'e': igk}, False, None, 3., dep)]
    if d == 'thermics' and c == 'capacitor':
        C, T0 = v['C'], v['T0']
        return [N.Stor('x'+l, '#', Ns[0], 'f', lambda x: C*T0*math.exp(x/C),
                       lambda x: T0*math.exp(x/C), None, False, 2*C)]
    if c == 'transfer':
        R = v['R']
        w = ['w%s_%d' % (l, k) for k in range(2)]
        t = ['gx%s' % n for n in Ns]
        return [N.Diss(w[0], '#', Ns[0], 'e', {'e': lambda a, b, t: R*(a-b)/t}, False, None, 1., w + [t[0]]),
                N.Diss(w[1], '#', Ns[1], 'e', {'e': lambda a, b, t: R*(b-a)/t}, False, None, 1., w + [t[1]])]
    net['free'].update({})
    return N.edges_of(net, {'dict': d, 'comp': c, 'label': l, 'nodes': Ns,
                            'args': {k: [k, x] for k, x in v.items()}})


def bench(spec):
    """ideal sources on the pins of the component"""
    kind, flip = spec['kind'], spec['flip']
    d, c = kind.split('.')
    el = 'electronics'
    me = {'dict': d, 'comp': c, 'label': spec['label'], 'nodes': spec['nodes'], 'args': spec['args']}

    def src(k, t, a, b):
        n = [a, b] if not (flip >> k) & 1 else [b, a]
        return {'dict': el, 'comp': 'source', 'label': 'IN%d' % k, 'nodes': n, 'args': {'type': t}}
    n = list(spec['nodes'])
    if c in ('potentiometer', 'bjt', 'triode'):
        s = [src(k, 'voltage', '#', q) for k, q in enumerate(n) if q != '#']
        if c == 'potentiometer' and n[1] != '#':
            s = [src(k, 'current' if q == n[1] else 'voltage', '#', q)
                 for k, q in enumerate(n) if q != '#']
        return [me] + s
    if c == 'gyrator':
        t = ['voltage', 'voltage'] if flip & 8 else ['current', 'current']
        s = [src(0, t[0], n[0], n[1]), src(1, t[1], n[2], n[3])]
    elif c == 'transformer':
        t = ['voltage', 'current'] if flip & 8 else ['current', 'voltage']
        s = [src(0, t[0], n[0], n[1]), src(1, t[1], n[2], n[3])]
    elif c == 'transfer':
        if flip & 8:
            s = [{'dict': 'thermics', 'comp': 'source', 'label': q, 'nodes': [q],
                  'args': {'type': 'temperature'}} for q in n]
        else:
            s = [{'dict': 'thermics', 'comp': 'capacitor', 'label': q, 'nodes': [q],
                  'args': {'C': 1.3, 'T0': 2.}} for q in n]
        return [me] + s
    else:
        if kind in ('mechanics.mass', 'thermics.capacitor'):
            n = ['#', n[0]]
        ctrl = {'e': 'voltage', 'f': 'current'}
        q = edges(spec)[0].ctrl
        s = [src(0, ctrl.get(q, ['voltage', 'current'][(flip >> 3) & 1]), n[0], n[1])]
    return [me] + s


def ground(comps):
    """datum must be one of the nodes: join the first pin to it otherwise"""
    return comps


# --------------------------------------------------------------------------- #

def run(spec, mon):
    kind = spec['kind']
    mon.key(kind)
    if kind == 'examples':
        return examples(mon)
    if kind == 'frac':
        return frac(spec, mon)
    if kind == 'beam':
        return beam(spec, mon)
    if kind.startswith('pwl'):
        return pwl(spec, mon)
    if kind == 'observerec':
        return observer(spec, mon)
    if kind == 'ports':
        return ports(spec, mon)
    comps = bench(spec)
    if kind == 'thermics.transfer' and '#' in spec['nodes']:
        spec = dict(spec, nodes=['T1' if n == '#' else n for n in spec['nodes']])
        comps = bench(spec)
    # a pin becomes the datum when none is (floating benches are not realizable)
    allnodes = [n for c in comps for n in c['nodes']]
    if '#' not in allnodes and kind != 'thermics.transfer' and kind not in ('mechanics.mass', 'thermics.capacitor'):
        ren = {spec['nodes'][0]: '#'}
        if kind.startswith('connectors'):
            ren[spec['nodes'][2]] = '#'
        spec = dict(spec, nodes=[ren.get(n, n) for n in spec['nodes']])
        comps = bench(spec)
    elif kind.startswith('connectors'):
        nn = list(spec['nodes'])
        if '#' not in nn[:2]:
            nn[0] = '#'
        if '#' not in nn[2:]:
            nn[2] = '#'
        spec = dict(spec, nodes=nn)
        comps = bench(spec)
    net = {'comps': [c for c in comps if c is not comps[0]], 'free': spec['free']}
    W = network(spec, comps)
    graph = N.make_graph(comps, os.path.join(mon.dir, 'c.net'), spec['how'], label='bench')
    try:
        core = graph.to_core()
    except ValueError:
        # the realizability analysis is a heuristic that may give up on the current
        # driven diode; the voltage driven one has to be built
        if not (kind == 'electronics.diode' and spec['flip'] & 8):
            raise
        return run(dict(spec, flip=spec['flip'] & 7), mon)
    compare(core, W, spec, mon)


def network(spec, comps):
    ed = edges(spec)
    net = {'comps': [], 'free': {}}
    W = N.Network(net)
    W.net = net
    for c in comps[1:]:
        if c['dict'] == 'thermics':
            l = c['label']
            if c['comp'] == 'source':
                ed.append(N.Port(l, '#', l, 'f'))
            else:
                ed.append(N.Stor('x'+l, '#', l, 'f', lambda x: 1.3*2*math.exp(x/1.3),
                                 lambda x: 2*math.exp(x/1.3), None, False, 2.))
        else:
            ed += N.edges_of(net, c)
    nodes = []
    for e in ed:
        for n in (e.n1, e.n2):
            if n not in nodes and n != '#':
                nodes.append(n)
    A = np.zeros((len(nodes), len(ed)))
    for k, e in enumerate(ed):
        if e.n1 != '#':
            A[nodes.index(e.n1), k] += 1
        if e.n2 != '#':
            A[nodes.index(e.n2), k] -= 1
    W.edges, W.nodes, W.A = ed, nodes, A
    W.byname = {e.name: e for e in ed}
    W.index = {e.name: k for k, e in enumerate(ed)}
    return W


def compare(core, W, spec, mon):
    rng = random.Random(spec['seed'])
    at = dict(core.subs)
    for k, v in spec['free'].items():
        at[core.symbols(k)] = v
    stor, diss, port = W.of('stor'), W.of('diss'), W.of('port')
    xs, ws, ys = ([str(s) for s in l] for l in (core.x, core.w, core.y))
    if not mon.check('names', sorted(xs) == sorted(e.name for e in stor) and
                     sorted(ws) == sorted(e.name for e in diss) and
                     sorted(ys) == sorted(e.name for e in port),
                     lambda: 'variables %s %s %s, expected %s' % (xs, ws, ys, [e.name for e in W.edges])):
        return
    free = set()
    for e in list(core.M) + list(core.z) + [core.H]:
        free |= sympy.sympify(e).free_symbols
    gs = [core.symbols('g' + str(x)) for x in core.x]
    free -= set(core.x) | set(core.w) | set(gs) | set(core.observers)
    unknown = [s for s in free if s not in at]
    if not mon.check('names', not unknown, lambda: 'unknown symbols %s, subs %s' % (unknown, core.subs)):
        return
    used = [k for k in spec['free'] if core.symbols(k) in free]
    mon.check('free_parameter', all(core.symbols(k) in core.p for k in used) and
              not any(core.symbols(k) in core.subs for k in spec['free']),
              lambda: 'free %s, p %s subs %s' % (sorted(spec['free']), core.p, core.subs))
    M = S.matvalue(core.M, at)
    wide = 4 if spec['kind'].endswith('triode') else 1
    roles = None
    for t in range(8*wide):
        pt = dict(at)
        for s in core.x:
            lim = W.byname[str(s)].lim or 2.
            pt[s] = rng.uniform(-lim, lim)
        if t >= 2:
            for s in core.w:
                e = W.byname[str(s)]
                pt[s] = rng.uniform(-3, 3)*e.scale
                if spec['kind'].endswith('triode'):
                    pt[s] = rng.uniform(-30, 300) if str(s).endswith('pk') else rng.uniform(-5, 5)
                if e.laws.get('f') is not None and not e.lin and spec['kind'].endswith('diode'):
                    pt[s] = abs(pt[s])
        else:
            for s in core.w:
                pt[s] = 0. if t == 0 else rng.uniform(0, 0.1)
        for s in core.u:
            pt[s] = rng.uniform(0.5, 4)
        for e, v in core.observers.items():
            if (sympy.sympify(v).free_symbols <= set(pt)):
                pt[e] = S.value(v, pt)
        # energy
        ref, grad = 0., []
        for s, g in zip(core.x, gs):
            e = W.byname[str(s)]
            ref += e.h(pt[s])
            grad.append(e.dh(pt[s]))
            pt[g] = e.dh(pt[s])
        if xs:
            mon.close('energy', [S.value(core.H, pt)], [ref], 1e-8, 1e-10)
            mon.check('bounded', S.value(core.H, pt) >= -1e-9*(1 + abs(ref)), 'H=%s' % S.value(core.H, pt))
            mon.close('gradient', [S.value(core.H.diff(s), pt) for s in core.x], grad, 1e-7, 1e-9)
        # laws
        power = total = 0.
        good = {}
        for s, z in zip(core.w, core.z):
            e = W.byname[str(s)]
            got = S.value(z, pt)
            power += pt[s]*got
            total += abs(pt[s]*got)
            a = [pt[core.symbols(n)] for n in e.deps]
            for role in sorted(e.laws):
                try:
                    r = e.laws[role](*a)
                except (ValueError, OverflowError):
                    continue
                tol = 1e-9*max(1e-6, abs(r)) + 1e-7*abs(r)
                if spec['kind'].endswith('triode'):
                    tol += 1e-12
                good.setdefault(str(s), {})[role] = (abs(got - r) <= tol, r, got)
        for w, d in good.items():
            if roles is not None:
                d = {k: v for k, v in d.items() if k in roles.get(w, [])}
            ok = [k for k, v in d.items() if v[0]]
            mon.check('law', bool(ok), lambda: 'law of %s at %s: %s' % (w, {str(k): v for k, v in pt.items()}, d))
            good[w] = ok
        roles = {w: [k for k in good.get(w, []) if roles is None or k in roles.get(w, [])] for w in ws}
        if ws and not spec['kind'].endswith('transfer'):
            mon.check('passive', power >= -1e-9*(1e-3 + total), lambda: 'w.z=%s at %s' % (power, pt))
    if spec['kind'].endswith('transfer'):
        for t in range(4):
            pt = dict(at)
            T = {str(n): rng.uniform(0.5, 5) for n in spec['nodes']}
            zz = []
            for k, (s, z) in enumerate(zip(core.w, core.z)):
                n = spec['nodes'][int(str(s)[-1])]
                pt[s] = T[n]
            for n in spec['nodes']:
                pt[core.symbols('gx' + n)] = T[n]
            zz = [S.value(z, pt) for z in core.z]
            p = sum(pt[s]*v for s, v in zip(core.w, zz))
            mon.check('thermal_power', abs(p) <= 1e-9*(1 + sum(map(abs, zz))) and sum(zz) <= 1e-12,
                      lambda: 'power %s entropy %s' % (p, zz))
    # connection to the pins
    if not all(roles.get(w) for w in ws):
        return
    amb = [w for w in ws if len(roles[w]) > 1]
    best = None
    if len(amb) > 5:
        amb = amb[:5]
    for mask in range(2**len(amb)):
        rl = {w: roles[w][0] for w in ws}
        for b, w in enumerate(amb):
            rl[w] = 'ef'[(mask >> b) & 1]
        res = 0.
        r2 = random.Random(spec['seed'])
        for t in range(3):
            a = np.array([r2.uniform(-1, 1) for _ in range(M.shape[0])])
            b = M.dot(a)
            known = {}
            for k, n in enumerate(xs + ws + ys):
                e = W.byname[n]
                ctrl = rl[n] if e.type == 'diss' else e.ctrl
                known[n] = (b[k], a[k]) if ctrl == 'e' else (a[k], b[k])
            res = max(res, W.kirchhoff(known))
        best = res if best is None else min(best, res)
    mon.check('kirchhoff', best < 1e-7, lambda: 'residual %g' % best)
    mon.sample = {'kind': spec['kind'], 'H': str(core.H)[:120], 'z': [str(z)[:80] for z in core.z][:3]}


# --------------------------------------------------------------------------- #

def examples(mon):
    """documented example of each component"""
    import pyphs.dictionary as D
    n = 0
    for d in ('electronics', 'mechanics', 'mechanics_dual', 'magnetics', 'thermics',
              'connectors', 'transducers', 'beams'):
        mod = importlib.import_module('pyphs.dictionary.' + d)
        for c in mod.__all__:
            k = getattr(mod, c)
            md = k.metadata
            pars = {p[0]: p[3] for p in md['parameters']}
            for kw in (dict(pars), {}):
                if d == 'beams':
                    kw['N'] = pars['N']
                g = k(md['label'], md['nodes'], **kw)
                mon.check('example', len(g.nodes) == md['nnodes'] and len(g.edges) == md['nedges'],
                          '%s.%s: %d nodes %d edges, documented %d %d' %
                          (d, c, len(g.nodes), len(g.edges), md['nnodes'], md['nedges']))
            n += 1
    mon.key('components=%d' % n)


def tf(core, s):
    """port transfer of a linear core: {(y, u): value}"""
    at = dict(core.subs)
    pt = dict(at)
    for v in list(core.x) + list(core.w):
        pt[v] = 0.
    nx, nw, ny = len(core.x), len(core.w), len(core.y)
    M = S.matvalue(core.M, at)
    Q = np.diag([S.value(core.H.diff(x, x), pt) for x in core.x])
    Z = np.diag([S.value(z.diff(w), pt) for z, w in zip(core.z, core.w)])
    n = nx + nw
    D = np.zeros((n, n), dtype=complex)
    D[:nx, :nx], D[nx:, nx:] = Q, Z
    L = np.eye(n, dtype=complex)
    L[:nx, :nx] *= s
    v = np.linalg.solve(L - M[:n, :n].dot(D), M[:n, n:].astype(complex))
    G = M[n:, n:] + M[n:, :n].dot(D.dot(v))
    return {(str(y), str(u)): G[i, j] for i, y in enumerate(core.y) for j, u in enumerate(core.u)}


def frac(spec, mon):
    from pyphs import Graph
    from pyphs.dictionary import fraccalc, electronics
    g = Graph(label='f')
    g += electronics.Source('IN', ('#', 'A'), type=spec['src'])
    g += getattr(fraccalc, spec['cls'])('F', ('#', 'A'), **{
        'g': spec['g'], spec['key']: spec['order'], 'NbPoles': 8, 'PolesMinMax': (-1, 6),
        'NbFreqPoints': 80, 'FreqsMinMax': (1, 1000.)})
    core = g.to_core()
    sgn = -1 if 'int' in spec['cls'] else 1
    dev = 0.
    for f in (4., 10., 30., 100., 250.):
        s = 2j*math.pi*f
        ref = -spec['g']*s**(sgn*spec['order'])
        got = tf(core, s)[('yIN', 'uIN')]
        dev = max(dev, abs(got-ref)/abs(ref))
    mon.check('fractional', dev < 0.12, 'deviation %g' % dev)
    mon.maxdev['fractional'] = dev/0.12
    for w, z in zip(core.w, core.z):
        mon.check('passive', S.value(z.diff(w), dict(core.subs)) >= 0, '%s %s' % (w, z))
    for x in core.x:
        mon.check('bounded', S.value(core.H.diff(x, x), dict(core.subs)) >= 0, str(x))


def beam(spec, mon):
    from pyphs import Graph
    from pyphs.dictionary import beams, mechanics
    p = {q[0]: q[3] for q in beams.Cantilever.metadata['parameters']}
    p.update(spec['args'])
    g = Graph(label='b')
    g += mechanics.Source('IN', ('#', 'P'), type='force')
    g += mechanics.Source('OUT', ('#', 'Q'), type='force')
    g += beams.Cantilever('b', ('P', 'Q'), **spec['args'])
    core = g.to_core()
    # modes of a clamped-free beam whose first frequency is F
    roots = []
    f = lambda x: math.cos(x) + 1/math.cosh(x)
    for k in range(p['N']):
        a, b = (k + 0.5)*math.pi - 1., (k + 0.5)*math.pi + 1.
        a = max(a, 0.1)
        for _ in range(100):
            c = 0.5*(a + b)
            if (f(a) < 0) != (f(c) < 0):
                b = c
            else:
                a = c
        roots.append(0.5*(a+b))
    Kb, Mb = p['E']*math.pi*p['R']**4/4, math.pi*p['R']**2*p['M']
    k1 = ((2*math.pi*p['F'])**2*Mb/Kb)**0.25
    L = roots[0]/k1
    ks = [r/L for r in roots]
    damp = [p['A']*10**v for v in np.linspace(0, p['D'], p['N'])]

    def shape(k, z):
        a = k*L
        s = (math.sin(a) - math.sinh(a))/(math.cos(a) + math.cosh(a))
        return (np.cosh(k*z) - np.cos(k*z)) + s*(np.sinh(k*z) - np.sin(k*z))

    def proj(k, zp, wp):
        z = np.linspace(0, L, 20001)
        psi = shape(k, z)
        nrm = math.sqrt(np.trapz(psi**2, z))
        if wp < 1e-9:
            return shape(k, np.array([zp]))[0]/nrm
        # cosine window of unit area (extends outside of the beam analytically)
        zz = np.linspace(zp - wp/2, zp + wp/2, 4001)
        win = math.pi/(2*wp)*np.cos(math.pi*(zz - zp)/wp)
        return np.trapz(win*shape(k, zz), zz)/nrm
    om = {n: [proj(k, p['z%d' % n]*L, p['w%d' % n]) for k in ks] for n in (1, 2)}
    for f0 in (0.3*p['F'], 0.9*p['F'], 2.2*p['F']):
        s = 2j*math.pi*f0
        got = tf(core, s)
        for (y, i) in (('yIN', 1), ('yOUT', 2)):
            for (u, j) in (('uIN', 1), ('uOUT', 2)):
                # source edge #->P: effort is -velocity of P, flux is the force
                ref = sum(om[i][m]*om[j][m]*s/(Mb*s*s + damp[m]*s + Kb*ks[m]**4)
                          for m in range(p['N']))
                d = abs(got[(y, u)] + ref)/abs(ref)
                mon.maxdev['beam'] = max(mon.maxdev.get('beam', 0), d/1e-2)
                mon.check('beam', d < 1e-2, 'H(%s/%s) at %g Hz: %s, expected %s' % (y, u, f0, got[(y, u)], -ref))


def pwl(spec, mon):
    from pyphs.dictionary import pwl as P
    path = os.path.join(mon.dir, 'data.pwl')
    with open(path, 'w') as f:
        for l in (spec['X'], spec['Y']):
            f.write(spec['sep'].join(repr(v) for v in l) + '\n')
    X, Y = np.array(spec['X']), np.array(spec['Y'])

    def interp(x):
        k = int(np.clip(np.searchsorted(X, x) - 1, 0, len(X) - 2))
        return Y[k] + (Y[k+1]-Y[k])*(x-X[k])/(X[k+1]-X[k])

    def integ(x):
        pts = [0.] + sorted([v for v in X if min(0, x) < v < max(0, x)], key=abs) + [x]
        return sum((b-a)*(interp(a)+interp(b))/2 for a, b in zip(pts[:-1], pts[1:]))
    kw = {'file': path, 'ctrl': spec['ctrl']}
    rng = random.Random(spec['seed'])
    xs = [rng.uniform(X[0]-1, X[-1]+1) for _ in range(12)] + [X[0]-0.7, X[-1]+0.9]
    if spec['kind'] == 'pwl.dissipative':
        g = P.Dissipative('D', ('A', '#'), **kw)
        (n1, n2, data), = g.edges(data=True)
        w, z = g.core.w[0], data['z'][spec['ctrl'] + '_ctrl']
        mon.check('names', (n1, n2) == ('A', '#') and data['ctrl'] == spec['ctrl'], 'edge %s' % ((n1, n2),))
        mon.close('law', S.value(z, {w: 0.37}), S.value(g.core.z[0], {w: 0.37}), 1e-12, 1e-12)
        func, ref = (lambda v: S.value(z, {w: v})), interp
        for v in xs:
            if X[0] <= v <= X[-1] or True:
                mon.check('passive', v*func(v) >= -1e-9, 'w=%s z=%s' % (v, func(v)))
    else:
        if spec['integ']:
            kw['integ' if spec['key'] is None else spec['key']] = True
        elif spec['key']:
            kw[spec['key']] = False
        g = P.Storage('S', ('A', '#'), **kw)
        (n1, n2, data), = g.edges(data=True)
        mon.check('names', (n1, n2) == ('A', '#') and data['ctrl'] == spec['ctrl'], 'edge %s' % ((n1, n2),))
        x = g.core.x[0]
        if spec['integ']:
            dH = g.core.H.diff(x)
            Hf = lambda v: S.value(g.core.H, {x: v})
            for v in xs:
                mon.close('energy', [Hf(v)], [integ(v)], 1e-8, 1e-8)
                mon.check('bounded', Hf(v) >= -1e-8, 'H(%s)=%s' % (v, Hf(v)))
            h = 1e-6
            func = lambda v: (Hf(v+h) - Hf(v-h))/(2*h)
            for v in X:
                mon.close('pwl_points', [func(v)], [interp(v)], 1e-4, 1e-4)
            xs = [v for v in xs if min(abs(v - X)) > 1e-4]
            for v in xs:
                mon.close('pwl_between', [func(v)], [interp(v)], 1e-6, 1e-7)
            return
        func, ref = (lambda v: S.value(g.core.H, {x: v})), interp
    mon.close('pwl_points', [func(v) for v in X], Y, 1e-9, 1e-9)
    mon.close('pwl_between', [func(v) for v in xs], [ref(v) for v in xs], 1e-9, 1e-9)


def observer(spec, mon):
    from pyphs import Graph
    from pyphs.dictionary import mechanics, edges as E
    l = spec['label']
    g = Graph(label='o')
    g += mechanics.Source('IN', ('#', 'P'), type='force')
    g += mechanics.Mass('mass', ('P',), M=0.7)
    g += E.Observerec(l, ('#', 'P'))
    core = g.to_core()
    ob = {str(k): v for k, v in core.observers.items()}
    mon.check('observer', sorted(ob) == ['dtq_' + l, 'q_' + l], str(ob))
    rng = random.Random(spec['seed'])
    x = core.symbols('x' + l)
    pt = {s: rng.uniform(-1, 1) for s in list(core.x) + list(core.dx())}
    fs = core.symbols('f_s') if core.symbols('f_s') in ob['dtq_' + l].free_symbols else \
        [s for s in ob['dtq_' + l].free_symbols if s not in pt][0]
    pt[fs] = 48e3
    mon.close('observer', [S.value(ob['q_' + l], pt), S.value(ob['dtq_' + l], pt)],
              [pt[x], pt[core.symbols('dx' + l)]*48e3], 1e-12, 1e-12)
    # velocity of the mass: dx = effort of the edge #->P, as the mass
    pt.update(core.subs)
    mon.check('bounded', 0 <= S.value(core.H, dict(pt, **{})), 'H')
    # the observer does not load the mechanism
    k = [str(s) for s in core.x].index('x' + l)
    z = dict(pt)
    mon.check('observer', abs(S.value(core.H.diff(x), z)) < 1e-9, 'reaction of the observer')


def ports(spec, mon):
    from pyphs import Graph
    d = importlib.import_module('pyphs.dictionary.' + spec['dict'])
    from pyphs.dictionary import electronics
    t = spec['type'] if spec['case'] == 'lower' else spec['type'].capitalize()
    kw = {'type': t}
    if spec['const'] is not None:
        kw['const'] = spec['const']
    if spec['dict'] == 'thermics':
        nodes, n, lab = ('T1',), 'T1', 'T1'
    else:
        nodes, n, lab = ('#', 'A'), 'A', 'IN'
    g = Graph(label='p')
    g += d.Source(lab, nodes, **kw)
    g += electronics.Resistor('R', ('#', n), R=spec['R'])
    core = g.to_core()
    effort = spec['type'] in ('voltage', 'velocity', 'mmf', 'temperature')
    if spec['dict'] == 'mechanics_dual':
        effort = spec['type'] == 'force'
    M = S.matvalue(core.M, dict(core.subs))
    w = core.w[0]
    Z = S.value(core.z[0].diff(w), dict(core.subs))
    # y = Myw z(w), w = Mwu u
    gain = M[1, 1] + M[1, 0]*Z/(1 - M[0, 0]*Z)*M[0, 1]
    ref = -1/spec['R'] if effort else -spec['R']
    mon.close('ports', [gain], [ref], 1e-9, 1e-12)
    u = core.symbols('u' + lab)
    mon.check('ports', [str(s) for s in core.u] == ['u' + lab] and [str(s) for s in core.y] == ['y' + lab]
              and core.subs.get(u) == spec['const'], 'u %s y %s subs %s' % (core.u, core.y, core.subs))
