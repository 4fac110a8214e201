# -*- coding: utf-8 -*-
"""C12: graph transformations and line order keep the network behaviour."""
import random
import numpy as np
import sympy
import vh
import netlib as N
import shadow as S
import c11

PROPERTY = 'C12'
LEVEL = 'exploration'
RULE = ('random networks (realizable by construction, series/parallel with like '
        'components, arbitrary) built once as given and then through variants: '
        'lines permuted, nodes renamed, series/parallel splitting and assembling '
        'any number of times in any order, merging of all compatible components, '
        'summing the graphs of two parts (analysed before or not), second '
        'analysis; every produced system is compared with the independent model '
        'of the network (laws, structure, energy) and its small-signal transfer '
        'matrix with the one of the first system; non-trivial when at least one '
        'variant gave a system; distinct by spec hash')
REQUIRED = ['base', 'perm', 'rename', 'sp', 'merge_all', 'sum', 'sum_analysed',
            'again', 'transfer', 'energy', 'law', 'same', 'merged', 'edges', 'static']
COUNT = {'quick': 200, 'thorough': 5000}
CASE_TIMEOUT = 60
ASSUMPTIONS = ['behaviours are compared only when the realizability heuristic '
               'accepts both forms of the network',
               'graphs are summed at nodes which the analysed part still has']
VARIANTS = ['perm', 'rename', 'sp', 'merge_all', 'sum', 'sum_analysed', 'again']


def directed():
    out = []
    for s in c11.directed():
        if s.get('must') is True and s['how'] == 'file':
            for v in (['sp', 'merge_all'], ['perm', 'rename'],
                      ['sum', 'sum_analysed', 'again']):
                out.append({'net': s['net'], 'seed': s['seed'], 'how': 'lines',
                            'variants': v, 'must': True})
    return out


def gen(rng, i, tier):
    if i % 5 == 4:
        return {'net': diode_net(rng), 'seed': rng.randint(0, 10**6), 'how': 'lines', 'static': True,
                'variants': ['merge_all', rng.choice(['sp', 'perm', 'again'])]}
    r = rng.random()
    if r < 0.35:
        net = N.realizable_net(rng, nl=rng.choice([0., 0., 0.3]),
                               conn=rng.choice([0., 0.6]))
    elif r < 0.7:
        net = N.cluster_net(rng, nl=rng.choice([0.]*5 + [0.1]))
    elif r < 0.93:
        net = N.ladder_net(rng, nl=rng.choice([0.]*5 + [0.1]))
    else:
        net = N.random_net(rng)
    return {'net': net, 'seed': rng.randint(0, 10**6),
            'how': rng.choice(['file', 'lines', 'components']),
            'variants': rng.sample(VARIANTS, 3)}


GMIN = 0.01


def diode_net(rng):
    """series/parallel networks of diodes in any direction, resistors and one
    or two sources"""
    g = N.Gen(rng, 0., 0.)
    comps, cnt = [], [0]

    def node():
        cnt[0] += 1
        return 'n%d' % cnt[0]

    def leaf(a, b):
        o = N.orient(rng, a, b)
        if rng.random() < 0.55 and sum(c['comp'] == 'diode' for c in comps) < 3:
            comps.append(g.make('electronics.diode', o))
        else:
            comps.append(g.diss(o))

    def branch(a, b, d):
        k = rng.random()
        if d == 0:
            leaf(a, b)
        elif k < 0.5:
            for _ in range(2):
                branch(a, b, d-1)
        else:
            m = node()
            branch(a, m, d-1)
            branch(m, b, d-1)
    top = node()
    comps.append(g.source(N.orient(rng, top, N.DATUM), rng.choice(['effort', 'flux'])))
    if rng.random() < 0.5:
        m = node()
        comps.append(g.diss(N.orient(rng, top, m)))
        top = m
    branch(top, N.DATUM, rng.randint(1, 2))
    rng.shuffle(comps)
    return {'comps': comps, 'free': g.free}


def newton(f, n, steps=8):
    """root of f(v, t), followed from t = 0 to 1; None without convergence"""
    v = np.zeros(n)
    for k in range(1, steps + 1):
        t = k/float(steps)
        for it in range(120):
            r = f(v, t)
            if r is None or not np.isfinite(r).all():
                return None
            if np.abs(r).max(initial=0) < 1e-12:
                break
            J = np.empty((n, n))
            for j in range(n):
                h = 1e-6*(1 + abs(v[j]))
                a, b = v.copy(), v.copy()
                a[j] += h
                b[j] -= h
                fa, fb = f(a, t), f(b, t)
                if fa is None or fb is None:
                    return None
                J[:, j] = (fa - fb)/(2*h)
            try:
                d = np.linalg.solve(J, r)
            except np.linalg.LinAlgError:
                return None
            v = v - d*min(1., 0.3/max(np.abs(d).max(), 1e-300))
        else:
            return None
    return v


def static_network(W, u):
    """outputs of the network of resistive components for the inputs u"""
    nodes = [n for n in W.nodes if n != N.DATUM]
    pos = {n: i for i, n in enumerate(nodes)}
    fports = [e for e in W.of('port') if e.ctrl == 'f']
    n = len(nodes) + len(fports)

    def flows(v, t):
        pot = lambda q: 0. if q == N.DATUM else v[pos[q]]
        out = {}
        for e in W.of('diss'):
            out[e.name] = (e, pot(e.n1) - pot(e.n2), e.laws['e'](pot(e.n1) - pot(e.n2)))
        for i, e in enumerate(fports):
            out[e.name] = (e, pot(e.n1) - pot(e.n2), v[len(nodes) + i])
        for e in W.of('port'):
            if e.ctrl == 'e':
                out[e.name] = (e, pot(e.n1) - pot(e.n2), t*u[e.name])
        return out

    def f(v, t):
        try:
            fl = flows(v, t)
        except OverflowError:
            return None
        r = np.zeros(n)
        for e, _, c in fl.values():
            if e.n1 != N.DATUM:
                r[pos[e.n1]] += c
            if e.n2 != N.DATUM:
                r[pos[e.n2]] -= c
        for i, e in enumerate(fports):
            r[len(nodes) + i] = fl[e.name][1] - t*u[e.name]
        return r
    v = newton(f, n)
    if v is None:
        return None
    fl = flows(v, 1.)
    return {e.name: fl[e.name][2 if e.ctrl == 'f' else 1] for e in W.of('port')}


def static_core(core, at, u):
    """outputs of a system without storage for the inputs u"""
    nw = len(core.w)
    M = S.matvalue(core.M, at)
    num = {k: v for k, v in at.items()}
    z = [sympy.sympify(e) for e in core.z]
    for _ in range(4):
        z = [e.subs(num) for e in z]
    Z = [sympy.lambdify(list(core.w), e, modules='mpmath') for e in z]
    uu = np.array([u[str(y)] for y in core.y])

    def law(w):
        try:
            q = [complex(g(*[float(t) for t in w])) for g in Z]
        except (OverflowError, ValueError, ZeroDivisionError, TypeError):
            return None
        if any(abs(t.imag) > 1e-9 for t in q):
            return None
        return np.array([t.real for t in q])

    def f(w, t):
        q = law(w)
        return None if q is None else w - M[:nw, :nw].dot(q) - t*M[:nw, nw:].dot(uu)
    w = newton(f, nw) if nw else np.zeros(0)
    if w is None:
        return None
    y = M[nw:, :nw].dot(law(w) if nw else w) + M[nw:, nw:].dot(uu)
    return {str(q): t for q, t in zip(core.y, y)}


def static(core, W, net, mon, rng):
    """large signals through networks of resistive components"""
    at = c11.values(core, net)
    for s in list(at):
        if str(s) == 'gmin':
            at[s] = GMIN
    for k in range(2):
        u = {e.name: rng.choice([-1, 1])*rng.uniform(0.3, 1.6) for e in W.of('port')}
        ref = static_network(W, u)
        got = static_core(core, at, u) if ref is not None else None
        if got is None:
            mon.seen('static_unsolved')
            continue
        mon.check('static', set(ref) == set(got) and all(abs(ref[q] - got[q]) <= 1e-6*(1 + abs(ref[q])) for q in ref),
                  lambda: 'outputs %s for inputs %s, network %s (w=%s)' % (got, u, ref, core.w))


def port_gain(core, net, s):
    """small-signal transfer matrix {(y, u): value} (None if ill-posed)"""
    at = c11.values(core, net)
    nx, nw = len(core.x), len(core.w)
    for q in list(core.x) + list(core.w):
        at[q] = 0.
    try:
        Q = np.array([[S.value(sympy.diff(core.H, a, b), at) for b in core.x]
                      for a in core.x]).reshape(nx, nx)
        Z = np.array([[S.value(sympy.diff(z, b), at) for b in core.w]
                      for z in core.z]).reshape(nw, nw)
    except (ZeroDivisionError, ValueError, TypeError, OverflowError):
        return None
    M = S.matvalue(core.M, at)
    n = nx + nw
    D = np.zeros((n, n), dtype=complex)
    D[:nx, :nx] = Q
    D[nx:, nx:] = Z
    L = np.eye(n, dtype=complex)
    L[:nx, :nx] *= s
    A = L - M[:n, :n].dot(D)
    if n and np.linalg.cond(A) > 1e10:
        return None
    G = M[n:, n:].astype(complex)
    if n:
        G = G + M[n:, :n].dot(D.dot(np.linalg.solve(A, M[:n, n:].astype(complex))))
    return {(str(y), str(u)): G[i, j] for i, y in enumerate(core.y)
            for j, u in enumerate(core.u)}


def rename(comps, rng, mode):
    nodes = []
    for c in comps:
        for n in c['nodes']:
            if n != N.DATUM and n not in nodes:
                nodes.append(n)
    if mode == 0:                       # permutation of the names
        new = list(nodes)
        rng.shuffle(new)
    elif mode == 1:                     # numbers
        new = list(range(1, len(nodes) + 1))
        rng.shuffle(new)
    else:                               # long names, opposite sort order
        new = ['node_%03d' % (999 - 7*i) for i in range(len(nodes))]
    table = dict(zip(nodes, new))
    table[N.DATUM] = N.DATUM
    return [dict(c, nodes=[table[n] for n in c['nodes']]) for c in comps], table


def edge_set(g):
    return sorted((str(e[0]), str(e[1]), str(e[2]['label']), str(e[2]['type']))
                  for e in g.edgeslist)


def run(spec, mon):
    net = spec['net']
    comps = net['comps']
    rng = random.Random(spec['seed'])
    W = N.Network(dict(net, gmin=GMIN) if spec.get('static') else net)
    s0 = complex(rng.uniform(0.2, 1.5), rng.uniform(-2, 2))

    def attempt(name, f):
        """a system, or None when the network is refused"""
        try:
            return f()
        except Exception as e:
            t = type(e).__name__
            if name == 'base' and spec.get('must'):
                raise
            mon.seen('refused_' + name)
            mon.check('refusal', t in c11.REFUSALS, lambda: '%s: %r' % (name, e))
            return None

    base = attempt('base', lambda: N.make_graph(comps, 'net.net', spec['how']).to_core())
    ref = None
    if base is not None:
        mon.seen('base')
        if spec.get('static'):
            static(base, W, net, mon, rng)
    if base is not None and not spec.get('static'):
        c11.compare(base, W, net, mon, spec['seed'])
        ref = port_gain(base, net, s0)

    def judge(name, core, net2=None, W2=None):
        if core is None:
            return
        mon.seen(name)
        if spec.get('static'):
            static(core, W, net, mon, rng)
            return
        c11.compare(core, W2 or W, net2 or net, mon, spec['seed'] + 1)
        got = port_gain(core, net, s0)
        if ref is not None and got is not None:
            ok = set(ref) == set(got) and all(
                abs(got[k] - ref[k]) <= 1e-7*(1 + abs(ref[k])) for k in ref)
            mon.check('same', ok, lambda: '%s: %s, first system %s' % (name, got, ref))

    for name in spec['variants']:
        if name == 'perm':
            p = list(comps)
            rng.shuffle(p)
            judge(name, attempt(name, lambda: N.make_graph(
                p, 'perm.net', spec['how']).to_core()))
        elif name == 'rename':
            p, _ = rename(comps, rng, rng.randint(0, 2))
            net2 = dict(net, comps=p)
            judge(name, attempt(name, lambda: N.make_graph(
                p, 'ren.net', spec['how']).to_core()), net2, N.Network(net2))
        elif name == 'sp':
            g = N.make_graph(comps, 'sp.net', spec['how'])
            before = edge_set(g)

            def go():
                for _ in range(rng.randint(1, 3)):
                    for _ in range(rng.randint(1, 2)):
                        g.sp_split()
                    levels, tree = g.sp_subgraphs_levels, g.sp_subgraphs_tree
                    g.sp_assemble()
                    # splitting without merging returns the same graph
                    mon.check('edges', edge_set(g) == before,
                              lambda: 'after split/assemble %s, before %s'
                              % (edge_set(g), before))
                return g.to_core()
            judge(name, attempt(name, go))
        elif name == 'merge_all':
            def go():
                return N.make_graph(comps, 'mrg.net', spec['how']
                                    ).to_core(merge_all=True)
            core = attempt(name, go)
            judge(name, core)
        elif name in ('sum', 'sum_analysed'):
            if len(comps) < 2:
                continue
            cut = rng.randint(1, len(comps) - 1)
            p = list(comps)
            rng.shuffle(p)
            g1 = N.make_graph(p[:cut], 'g1.net', spec['how'])
            g2 = N.make_graph(p[cut:], 'g2.net', spec['how'])
            if name == 'sum_analysed':
                n1 = {str(n) for n in g1.nodes} & {str(n) for n in g2.nodes}
                try:
                    g1.to_core()
                    if rng.random() < 0.5:
                        g2.to_core()
                except Exception:
                    continue        # refused half-way
                if any(e[-1]['type'] == 'graph' for g in (g1, g2)
                       for e in g.edgeslist):
                    continue
                if not n1 <= ({str(n) for n in g1.nodes} &
                              {str(n) for n in g2.nodes}):
                    continue
            e2 = edge_set(g2)

            def go():
                g = g1
                g += g2
                return g.to_core()
            core = attempt(name, go)
            mon.check('edges', edge_set(g2) == e2, 'second graph changed by the sum')
            judge(name, core)
        elif name == 'again':
            g = attempt(name, lambda: N.make_graph(comps, 'again.net', spec['how']))
            if g is None:
                continue
            first = attempt(name, lambda: g.to_core())
            if first is None:
                continue
            for _ in range(2):
                second = attempt(name, lambda: g.to_core(
                    force=rng.random() < 0.6, merge_all=rng.random() < 0.3))
                judge(name, second)
    mon.key('n%d e%d' % (len(W.nodes), len(W.edges)))
