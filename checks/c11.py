# -*- coding: utf-8 -*-
"""C11: systems built from netlists obey the laws of the circuit."""
import math
import random
import numpy as np
import sympy
import vh
import netlib as N
import shadow as S

PROPERTY = 'C11'
LEVEL = 'exploration'
RULE = ('random networks of dictionary components (constructed realizable: '
        'spanning tree of flux-controlled edges; arbitrary ones; series/parallel '
        'ones with like components to be merged; with diodes, transistors, '
        'potentiometers, transformers and gyrators) through the file, line and '
        'component interfaces; the produced system is compared with an '
        'independent model: for random efforts/fluxes allowed by its structure '
        'the node and loop laws and connector relations must be solvable, the '
        'energy and every dissipation law must be those of the components, and '
        'the small-signal transfer matrix between ports at random complex '
        'frequencies must be that of the network; non-trivial when a system was '
        'produced and compared; distinct by spec hash')
REQUIRED = ['built', 'kirchhoff', 'energy', 'law', 'transfer', 'skew', 'refused',
            'merged', 'names', 'again', 'connect_later']
COUNT = {'quick': 350, 'thorough': 8000}
CASE_TIMEOUT = 60
ASSUMPTIONS = ['the realizability algorithm is a heuristic: refusing a realizable '
               'network is an alarm only on the directed networks',
               'effort of an edge n1->n2 is p(n1)-p(n2), flux is positive n1->n2, '
               'sources in receiver convention']
# how an unrealizable network may be refused
REFUSALS = ('CanNotUnlock', 'UndefinedPotential', 'AssertionError', 'ValueError',
            'IndexError', 'KeyError', 'NotImplementedError', 'NetworkXError',
            'IndeterminateRealizability', 'TypeError', 'UnboundLocalError',
            'StopIteration', 'AttributeError')


def E(dic, comp, label, nodes, **args):
    return {'dict': dic, 'comp': comp, 'label': label, 'nodes': list(nodes),
            'args': args}


def directed():
    out = []

    def add(comps, free=None, **kw):
        out.append(dict({'net': {'comps': comps, 'free': free or {}},
                         'how': 'file', 'must': True, 'seed': len(out)}, **kw))
    el = 'electronics'
    src = E(el, 'source', 'IN', '#A', type='voltage')
    for how in ('file', 'lines', 'components'):
        add([src, E(el, 'resistor', 'R1', 'AB', R=['R1', 1.5]),
             E(el, 'inductor', 'L1', 'BC', L=['L1', 0.7]),
             E(el, 'capacitor', 'C1', 'C#', C=['C1', 0.9])], how=how)
    # parallel RLC driven by a current
    add([E(el, 'source', 'IN', '#A', type='current'),
         E(el, 'resistor', 'R1', 'A#', R=0.6), E(el, 'inductor', 'L1', '#A', L=0.7),
         E(el, 'capacitor', 'C1', 'A#', C=2.9)])
    # capacitors in parallel, inductors in series, both orientations
    for o1, o2 in (('A#', 'A#'), ('A#', '#A')):
        add([E(el, 'source', 'IN', '#B', type='voltage'),
             E(el, 'resistor', 'R1', 'AB', R=0.6),
             E(el, 'capacitor', 'C1', o1, C=['C1', 2.9]),
             E(el, 'capacitor', 'C2', o2, C=['C2', 1.3])])
    for o1, o2 in (('AB', 'BC'), ('AB', 'CB'), ('BA', 'CB')):
        add([src, E(el, 'inductor', 'L1', o1, L=['L1', 0.6]),
             E(el, 'inductor', 'L2', o2, L=['L2', 2.3]),
             E(el, 'resistor', 'R1', 'C#', R=1.7)])
    # transformers and gyrators, all four causalities, both orientations
    for a, b in (('A#', 'B#'), ('#A', 'B#'), ('A#', '#B')):
        for kind in ('transformer', 'gyrator'):
            for s in ('voltage', 'current'):
                for q in ('capacitor', 'inductor'):
                    par = {'C': 0.8} if q == 'capacitor' else {'L': 0.8}
                    comps = [E(el, 'source', 'IN', '#A', type=s),
                             E('connectors', kind, 'X', list(a) + list(b),
                               alpha=['al', 2.5]),
                             E(el, q, 'Q', 'B#', **par)]
                    add(comps + [E(el, 'resistor', 'R', '#B' if a == 'A#' else 'B#',
                                   R=1.4)], must='if_realizable')
    # integer nodes, labels that look like internal names
    add([E(el, 'source', 'v_out_1', ['#', 1], type='voltage'),
         E(el, 'resistor', 'R_out_', [1, 2], R=0.5),
         E(el, 'inductor', 'L1', [2, 3], L=0.5),
         E(el, 'capacitor', 'serial1', [3, '#'], C=0.5)])
    # diode clipper, transistor
    d = E(el, 'diode', 'D1', 'B#', Is=['Is', 0.02], v0=['v0', 0.3], mu=1.5, R=0.4)
    add([src, E(el, 'resistor', 'R1', 'AB', R=1.5), d,
         E(el, 'capacitor', 'C1', 'B#', C=0.7)])
    add([src, E(el, 'resistor', 'R1', 'AB', R=1.5),
         E(el, 'inductor', 'L1', 'BC', L=1.5),
         E(el, 'diode', 'D1', 'C#', Is=['Is', 0.02], v0=['v0', 0.3], mu=1.5, R=0.4)],
        must=False)
    bjt = E(el, 'bjt', 'Q1', 'BCE', Is=['Is', 0.05], betaR=10., betaF=100., Vt=0.3,
            mu=1.2, Rb=0.5, Rc=0.3, Re=0.2)
    add([src, E(el, 'resistor', 'R1', 'AB', R=1.5), bjt,
         E(el, 'source', 'VCC', '#V', type='voltage'),
         E(el, 'resistor', 'RC', 'VC', R=0.9), E(el, 'resistor', 'RE', 'E#', R=0.5),
         E(el, 'capacitor', 'CE', 'E#', C=0.5)])
    add([src, E(el, 'potentiometer', 'P', 'AB#', R=['Rp', 2.], A='knob', E=2.),
         E(el, 'capacitor', 'C1', 'B#', C=0.5)], free={'knob': 0.3})
    # mechanics, both conventions
    add([E('mechanics', 'source', 'F', '#P', type='force'),
         E('mechanics', 'mass', 'M', ['P'], M=0.8),
         E('mechanics', 'stiffness', 'K', '#P', K=1.8),
         E('mechanics', 'damper', 'A', 'P#', A=0.3),
         E('mechanics', 'springcubic', 'S', 'P#', F1=1.2, F3=['f3', 0.7], xref=0.9)])
    add([E('mechanics_dual', 'source', 'F', '#A', type='force'),
         E('mechanics_dual', 'mass', 'M', 'AB', M=0.8),
         E('mechanics_dual', 'stiffness', 'K', 'BC', K=1.8),
         E('mechanics_dual', 'damper', 'A', 'CD', A=0.3),
         E('mechanics_dual', 'springsat', 'S', '#D', K0=1.2, Ksat=0.7, xsat=0.9)])
    # loudspeaker: gyrator between an electrical and a mechanical part
    add([E(el, 'source', 'IN', '#A', type='voltage'),
         E(el, 'resistor', 'R', 'AB', R=1.5), E(el, 'inductor', 'L', 'BC', L=0.4),
         E('connectors', 'gyrator', 'G', 'C#D#', alpha=['Bl', 1.9]),
         E('mechanics_dual', 'mass', 'M', 'DE', M=0.8),
         E('mechanics_dual', 'stiffness', 'K', 'EF', K=1.8),
         E('mechanics_dual', 'damper', 'A', 'F#', A=0.3)])
    # dangling loop (chain that starts and ends at the same node)
    add([E(el, 'resistor', 'R7', 'AF', R=1.1), E(el, 'resistor', 'R5', 'FB', R=1.2),
         E(el, 'resistor', 'R3', 'F#', R=1.3), E(el, 'capacitor', 'C1', 'FC', C=1.4),
         E(el, 'resistor', 'R2', 'BC', R=1.5), E(el, 'resistor', 'R4', 'FA', R=1.6),
         E(el, 'source', 'IN', '#F', type='current')])
    # unrealizable: two voltage sources in parallel, two current sources in
    # series, a loop of capacitors closed by a voltage source
    bad = [[src, E(el, 'source', 'I2', 'A#', type='voltage'),
            E(el, 'resistor', 'R', 'A#', R=1.)],
           [E(el, 'source', 'I1', '#A', type='current'),
            E(el, 'source', 'I2', 'AB', type='current'),
            E(el, 'resistor', 'R', 'B#', R=1.)],
           [src, E(el, 'capacitor', 'C', '#A', C=1.5),
            E(el, 'resistor', 'R', 'A#', R=1.)],
           [src, E(el, 'capacitor', 'C1', 'AB', C=1.5),
            E(el, 'capacitor', 'C2', 'B#', C=1.5), E(el, 'resistor', 'R', 'B#', R=1.)],
           [E(el, 'source', 'IN', '#A', type='current'),
            E(el, 'inductor', 'L', 'A#', L=1.5)]]
    for b in bad:
        add(b, must=False, unreal=True)
    return out


def gen(rng, i, tier):
    r = rng.random()
    if r < 0.5:
        net = N.realizable_net(rng, nl=rng.choice([0., 0.2, 0.5]),
                               conn=rng.choice([0., 0.6, 1.]))
        kind = 'real'
        if rng.random() < 0.3:      # add multi-edge components
            g = N.Gen(rng)
            g.count = 50
            nodes = sorted({str(n) for c in net['comps'] for n in c['nodes']} | {'#'})
            k = rng.choice(['diode', 'potentiometer', 'bjt', 'diode'])
            if k == 'diode' or len(nodes) < 3:
                a = rng.sample(nodes, 2) if len(nodes) > 1 else None
                if a:
                    net['comps'].append(g.make('electronics.diode', a))
            else:
                net['comps'].append(g.make('electronics.' + k, rng.sample(nodes, 3)))
            net['free'].update(g.free)
    elif r < 0.7:
        net, kind = N.random_net(rng), 'any'
    elif r < 0.9:
        net, kind = N.cluster_net(rng, nl=rng.choice([0., 0., 0.1])), 'cluster'
    else:
        net, kind = N.ladder_net(rng, nl=rng.choice([0., 0., 0.15])), 'ladder'
    return {'net': net, 'kind': kind, 'seed': rng.randint(0, 10**6),
            'how': rng.choice(['file', 'lines', 'components'])}


# --------------------------------------------------------------------------- #

def values(core, net):
    """numerical values of all parameters of the core"""
    at = {}
    for s, v in core.subs.items():
        at[s] = v
    for k, v in net['free'].items():
        at[core.symbols(k)] = v
    return at


def compare(core, W, net, mon, seed, must_names=True):
    """oracles on a system produced from the network W"""
    rng = random.Random(seed)
    at = values(core, net)
    stor, diss, port = W.of('stor'), W.of('diss'), W.of('port')
    xs = [str(s) for s in core.x]
    ws = [str(s) for s in core.w]
    ys = [str(s) for s in core.y]
    us = [str(s) for s in core.u]
    mon.check('names', sorted(ys) == sorted(e.name for e in port)
              and [y[1:] for y in ys] == [u[1:] for u in us],
              lambda: 'ports %s, expected %s' % (ys, [e.name for e in port]))
    merged = sorted(xs) != sorted(e.name for e in stor) or \
        sorted(ws) != sorted(e.name for e in diss)
    if merged:
        mon.seen('merged')
    mon.check('names', len(xs) == len(set(xs)) and len(ws) == len(set(ws)) and
              core.dims.cy() == 0, lambda: 'variables %s %s %s' % (xs, ws, core.cy))
    free = set()
    for e in list(core.M) + list(core.z) + [core.H]:
        free |= sympy.sympify(e).free_symbols
    free -= set(core.x) | set(core.w)
    unknown = [s for s in free if s not in at]
    if not mon.check('names', not unknown, lambda: 'unknown symbols %s' % unknown):
        return
    M = S.matvalue(core.M, at)
    mon.close('skew', M + M.T, np.zeros(M.shape), atol=1e-9)
    # ---- energy: sum over the storages
    if not merged or sorted(xs) == sorted(e.name for e in stor):
        for _ in range(3):
            pt = dict(at)
            ref = 0.
            for s in core.x:
                e = W.byname[str(s)]
                lim = e.lim or 2.
                pt[s] = rng.uniform(-lim, lim)
                ref += e.h(pt[s])
            mon.close('energy', [S.value(core.H, pt)], [ref], rtol=1e-8, atol=1e-9)
    else:
        energy_merged(core, W, at, mon, rng)
    # ---- dissipation laws
    roles = {}
    wat = dict(at)
    for s in core.x:
        wat[s] = 0.
    for s, z in zip(core.w, core.z):
        e = W.byname.get(str(s))
        if e is None:
            continue
        good = []
        for role in sorted(e.laws):
            okk = True
            for _ in range(3):
                pt = dict(wat)
                for t in core.w:
                    pt[t] = rng.uniform(0.02, 0.9)
                    q = W.byname.get(str(t))
                    if q is not None:
                        pt[t] *= q.scale
                a = [pt[core.symbols(n)] for n in e.deps]
                ref = e.laws[role](*a)
                okk = okk and abs(S.value(z, pt) - ref) <= 1e-9 + 1e-7*abs(ref)
            if okk:
                good.append(role)
        if mon.check('law', bool(good), lambda: 'law of %s: %s' % (s, z)):
            roles[str(s)] = good[0] if len(good) == 1 else None
    # ---- structure: node and loop laws, connector relations
    if not merged and len(roles) == len(ws):
        amb = [w for w in ws if roles[w] is None]
        if len(amb) <= 4:
            best = None
            for mask in range(2**len(amb)):
                rl = dict(roles)
                for b, w in enumerate(amb):
                    rl[w] = 'ef'[(mask >> b) & 1]
                res = 0.
                for t in range(3):
                    a = np.array([rng.uniform(-1, 1) for _ in range(M.shape[0])])
                    b = M.dot(a)
                    known = {}
                    for k, n in enumerate(xs + ws + ys):
                        e = W.byname[n]
                        ctrl = rl[n] if e.type == 'diss' else e.ctrl
                        # ctrl 'e': the controlling variable b is the effort
                        known[n] = (b[k], a[k]) if ctrl == 'e' else (a[k], b[k])
                    res = max(res, W.kirchhoff(known))
                best = res if best is None else min(best, res)
            mon.check('kirchhoff', best < 1e-7, lambda: 'residual %g' % best)
    # ---- transfer matrix between ports, linearised at the origin
    if port and all(e.slope is not None for e in diss):
        transfer(core, W, at, mon, rng)


def transfer(core, W, at, mon, rng):
    nx, nw, ny = len(core.x), len(core.w), len(core.y)
    pt = dict(at)
    for s in list(core.x) + list(core.w):
        pt[s] = 0.
    try:
        Q = np.array([[S.value(sympy.diff(core.H, a, b), pt) for b in core.x]
                      for a in core.x]).reshape(nx, nx)
        Z = np.array([[S.value(sympy.diff(z, b), pt) for b in core.w]
                      for z in core.z]).reshape(nw, nw)
    except (ZeroDivisionError, ValueError, TypeError, OverflowError):
        return
    M = S.matvalue(core.M, at)
    for _ in range(2):
        s = complex(rng.uniform(0.2, 1.5), rng.uniform(-2, 2))
        ref = W.transfer(s)
        if ref is None:
            continue
        n = nx + nw
        D = np.zeros((n, n), dtype=complex)
        D[:nx, :nx] = Q
        D[nx:, nx:] = Z
        L = np.eye(n, dtype=complex)
        L[:nx, :nx] *= s
        A = L - M[:n, :n].dot(D)
        if n and np.linalg.cond(A) > 1e10:
            continue
        v = np.linalg.solve(A, M[:n, n:].astype(complex)) if n else np.zeros((0, ny))
        Gs = M[n:, n:] + M[n:, :n].dot(D.dot(v)) if n else M[n:, n:].astype(complex)
        for i, y in enumerate(core.y):
            for j, u in enumerate(core.u):
                r = ref[(str(y), str(u))]
                mon.check('transfer', abs(Gs[i, j] - r) <= 1e-7*(1 + abs(r)),
                          lambda: 'H(%s/%s) at s=%s is %s, network %s'
                          % (y, u, s, Gs[i, j], r))


def parts(name, labels):
    """ordered list of labels whose concatenation is name"""
    if name == '':
        return []
    for l in labels:
        if name.startswith(l):
            r = parts(name[len(l):], [q for q in labels if q != l])
            if r is not None:
                return [l] + r
    return None


def solve_inc(f, v, lim):
    """x in [-lim, lim] with f(x) = v, f increasing and odd"""
    a, b = -lim, lim
    for _ in range(200):
        c = 0.5*(a+b)
        if f(c) < v:
            a = c
        else:
            b = c
    return 0.5*(a+b)


def stiffnesses(ks):
    """stiffnesses that linear storages merged two by two can have"""
    if len(ks) == 1:
        return [ks[0]]
    out = []
    for cut in range(1, len(ks)):
        for a in stiffnesses(ks[:cut]):
            for b in stiffnesses(ks[cut:]):
                out += [a + b, 1/(1/a + 1/b)]
    return out


def energy_merged(core, W, at, mon, rng):
    """each merged storage has the energy of its parts: either they share the
    effort dH (states add) or they share the state (efforts add)"""
    stor = {e.name[1:]: e for e in W.of('stor')}
    names = {}
    for s in core.x:
        n = str(s)
        if n in W.byname:
            names[n] = [W.byname[n]]
        else:
            p = parts(n[1:], sorted(stor, key=lambda l: -len(l)))
            if not mon.check('names', p is not None and len(p) > 1,
                             lambda: 'state %s, storages %s' % (n, sorted(stor))):
                return
            names[n] = [stor[l] for l in p]
    allp = sorted(e.name for l in names.values() for e in l)
    if not mon.check('names', allp == sorted(e.name for e in stor.values()),
                     lambda: 'storages %s, expected %s' % (allp, sorted(stor))):
        return
    zero = dict(at)
    for s in core.x:
        zero[s] = 0.
    try:
        h0 = S.value(core.H, zero)
    except (ZeroDivisionError, ValueError):
        return
    for s in core.x:
        es = names[str(s)]
        dH = sympy.diff(core.H, s)
        good = {'effort': True, 'state': True}
        det = ''
        for V in (0.3, -0.2, 0.11):
            if all(e.lim is None for e in es):
                qs = [V/e.d2h(0.) for e in es]
            else:
                qs = [solve_inc(e.dh, V, e.lim/0.8*0.999999 if e.lim else 1e3)
                      for e in es]
            for mode in list(good):
                if not good[mode]:
                    continue
                if mode == 'effort':
                    X, h, dh = sum(qs), sum(e.h(q) for e, q in zip(es, qs)), V
                else:
                    X = 0.3*V
                    h, dh = sum(e.h(X) for e in es), sum(e.dh(X) for e in es)
                pt = dict(zero)
                pt[s] = X
                try:
                    a, b = S.value(core.H, pt) - h0, S.value(dH, pt)
                except (ZeroDivisionError, ValueError, OverflowError, TypeError) as ex:
                    a = b = float('nan')
                if not (abs(a - h) <= 1e-7*(1e-3 + abs(h)) and
                        abs(b - dh) <= 1e-6*(1e-3 + abs(dh))):
                    good[mode] = False
                    det += '%s at V=%g: H=%s (parts %s) dH=%s (%s); ' % (
                        mode, V, a, h, b, dh)
        if not any(good.values()) and len(es) > 2:
            # merged in several steps of both kinds
            if not all(e.lin for e in es):
                mon.seen('energy_unknown')
                continue
            X = 0.37
            pt = dict(zero)
            pt[s] = X
            k = S.value(dH, pt)/X
            good['steps'] = abs(S.value(core.H, pt) - h0 - k*X*X/2) < 1e-8 and any(
                abs(k - q) <= 1e-7*q for q in stiffnesses([e.d2h(0.) for e in es]))
        mon.check('energy', any(good.values()),
                  lambda: '%s merged from %s: %s' % (s, [e.name for e in es], det))


def run(spec, mon):
    net = spec['net']
    W = N.Network(net)
    try:
        g = N.make_graph(net['comps'], 'net.net', spec['how'])
        core = g.to_core()
    except Exception as e:
        name = type(e).__name__
        mon.seen('refused')
        if spec.get('must') is True or spec.get('must') and W.realizable():
            raise
        if W.realizable():
            mon.seen('refused_realizable')
        mon.check('refusal', name in REFUSALS, lambda: 'refused with %r' % e)
        return
    mon.seen('built')
    if W.realizable():
        mon.seen('built_realizable')
    mon.check('unrealizable', not spec.get('unreal'),
              'an unrealizable network was given a system')
    compare(core, W, net, mon, spec['seed'])
    mode = spec['seed'] % 3
    if mode < 2:
        # a second analysis of the same graph gives the same network
        try:
            core = g.to_core(connect=bool(mode))
        except Exception as e:
            if spec.get('must'):
                raise
            mon.seen('refused_again')
        else:
            if not mode:
                mon.check('names', core.dims.cy() == len(W.of('conn')),
                          lambda: 'connectors %s' % core.cy)
                core.connect()
            compare(core, W, net, mon, spec['seed'] + 1)
            mon.seen(['connect_later', 'again'][mode])
    mon.key('n%d e%d c%d' % (len(W.nodes), len(W.edges), len(W.of('conn'))))
