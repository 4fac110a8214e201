# -*- coding: utf-8 -*-
"""C07: connecting ports imposes exactly the declared connection."""
import numpy as np
import sympy
import random
import vh
import gen as G
import shadow as S

PROPERTY = 'C07'
LEVEL = 'exploration'
RULE = ('random systems (alone or sums of two) with 2-6 ports x 1-3 connector '
        'declarations with default, numeric, symbolic, parameter- or '
        'state-dependent ratios, connected together or one by one, with moves '
        'and splits in between; at random points the declared relations are '
        'imposed on the original equations by an independent linear solve; '
        'non-trivial when a connection was made; distinct by spec hash')
REQUIRED = ['outputs', 'laws', 'ports', 'conservative', 'order', 'pending', 'moved', 'unresolvable', 'resolvable']
COUNT = {'quick': 220, 'thorough': 6000}
CASE_TIMEOUT = 30
ASSUMPTIONS = ['evaluation points where the declared connection is singular are skipped']

ALPHA = ['1', '2.5', '-0.7', '1/3', 'aS', '1/aS', 'aS*(1 + p0**2)', '1 + xx**2/3']


def gen_(rng, i, tier):
    two = rng.random() < 0.5
    cores = []
    for k in range(2 if two else 1):
        c = G.gen_core(rng, nx=(1, 3), nw=(0, 2), ny=(1, 3) if two else (2, 6), np_=(0, 1),
                       resist=0.3, density=rng.choice([0.3, 0.6, 0.9]), obs=0.2)
        cores.append(rename(c, 'ab'[k]))
    n = sum(len(c['y']) for c in cores)
    ports = list(range(n))
    rng.shuffle(ports)
    npairs = max(1, min(3, n//2))
    if rng.random() < 0.4:
        npairs = rng.randint(1, npairs)
    if n < 2:
        npairs = 0
    pairs = [[ports[2*k], ports[2*k+1], rng.choice(ALPHA)] for k in range(npairs)]
    if rng.random() < 0.2 and pairs:
        pairs[0][2] = None
    return {'cores': cores, 'pairs': pairs, 'seq': rng.random() < 0.3,
            'prep': [rng.choice(['lnl', 'stor', 'diss', 'port', 'copy', 'conn'])
                     for _ in range(rng.randint(0, 2))],
            'moves': [[rng.randrange(6), rng.randrange(6)] for _ in range(rng.choice([0, 2, 6, 9]))],
            'seed': rng.randint(0, 10**6), 'order': rng.sample(range(npairs), npairs)}


def rename(c, tag):
    """distinct names for two systems"""
    import re
    names = [n for k in ('x', 'w', 'u', 'y', 'p', 'cu', 'cy') for n in c[k]]
    names += list(c['obs']) + list(c['subs'])
    m = {n: n + tag for n in names}
    m.update({'g' + x: 'g' + x + tag for x in c['x']})
    rx = re.compile(r'\b(%s)\b' % '|'.join(sorted(map(re.escape, m), key=len, reverse=True))) if m else None

    def sub(s):
        return rx.sub(lambda q: m[q.group(0)], s) if isinstance(s, str) and rx else s
    out = {k: [m[n] for n in c[k]] for k in ('x', 'w', 'u', 'y', 'p', 'cu', 'cy')}
    out['H'] = sub(c['H'])
    out['z'] = [sub(z) for z in c['z']]
    out['J'] = [[a, b, sub(v)] for a, b, v in c['J']]
    out['R'] = [[a, b, sub(v)] for a, b, v in c['R']]
    out['obs'] = {m[k]: sub(v) for k, v in c['obs'].items()}
    out['subs'] = {m[k]: sub(v) for k, v in c['subs'].items()}
    return out


def directed():
    return []


def gen(rng, i, tier):
    if i % 9 == 8:
        return {'kind': 'loop', 'beta': rng.choice(['1', '2', '-1/2', '4', '-1', 's', '2*s', 's**2', '1/4']), 'nx': rng.randint(0, 2),
                'float': rng.random() < 0.5, 'others': rng.randint(0, 1), 'swap': rng.random() < 0.5, 'seed': rng.randint(0, 10**6)}
    return gen_(rng, i, tier)


def run_loop(spec, mon):
    """a loop of connections without solution is refused"""
    import pyphs
    rng = random.Random(spec['seed'])
    beta = sympy.sympify(spec['beta'], locals={'s': sympy.Symbol('s', real=True)})
    for singular in (True, False):
        core = pyphs.Core('loop')
        xs = [core.symbols('x%d' % k) for k in range(spec['nx'])]
        if xs:
            core.add_storages(xs, sum(x**2 for x in xs)/2)
        n = 2 + spec['others']
        core.add_ports([core.symbols('u%d' % k) for k in range(n)], [core.symbols('y%d' % k) for k in range(n)])
        core.init_M()
        nx = len(xs)
        M = sympy.zeros(nx + n, nx + n)
        for a in range(nx):
            for b in range(nx, nx + n):
                M[a, b] = rng.choice([1, 2, -1])
                M[b, a] = -M[a, b]
        M[nx, nx + 1] = beta
        M[nx + 1, nx] = -beta
        core.M = sympy.SparseMatrix(M)
        # y0 = beta*u1, u1 = alpha*y0: no solution, or any, for alpha*beta = 1
        alpha = 1/beta if singular else -3/beta
        if spec['float'] and alpha.is_number:
            alpha = float(alpha)
        core.add_connector((1, 0) if spec['swap'] else (0, 1), alpha=-alpha if spec['swap'] else alpha)
        try:
            core.connect()
            failed = None
        except Exception as e:
            failed = e
        if singular:
            mon.check('unresolvable', failed is not None, lambda: 'connected: %s' % core.M)
        else:
            mon.check('resolvable', failed is None, lambda: repr(failed))


def build(spec):
    core = G.build_core(spec['cores'][0], 'a')
    for c in spec['cores'][1:]:
        core = core + G.build_core(c, 'b')
    core.add_parameters(core.symbols('p0'))
    return core


def alpha_of(spec, a, core):
    if a is None:
        return None
    tab = {'aS': core.symbols('aS'), 'p0': core.symbols('p0'),
           'xx': core.symbols(spec['cores'][0]['x'][0])}
    core.subs[tab['aS']] = 1.37
    e = sympy.sympify(a, locals=tab)
    if e.is_Number:
        return float(e)
    return e


def ops(spec, core, rng):
    for op in spec['prep']:
        if op == 'lnl':
            core.linear_nonlinear()
        elif op == 'copy':
            core = core.__copy__()
        else:
            f, n = {'stor': (core.move_storage, core.dims.x()),
                    'diss': (core.move_dissipative, core.dims.w()),
                    'port': (core.move_port, core.dims.y()),
                    'conn': (core.move_connector, core.dims.cy())}[op]
            if n > 1:
                f(rng.randrange(n), rng.randrange(n))
    return core


def connect(spec, pairs, mon=None, prep=True):
    """the real code, declared by port names"""
    core = build(spec)
    rng = random.Random(spec['seed'])
    ynames = [str(y) for y in core.y]
    unames = [str(u) for u in core.u]
    ref = build(spec)
    done = []
    for i, j, a in pairs:
        idx = lambda k: [str(y) for y in core.y].index(ynames[k])
        al = alpha_of(spec, a, core)
        pair = (idx(i), idx(j)) if rng.random() < 0.5 else [idx(i), idx(j)]
        keep = list(pair)
        if al is None:
            core.add_connector(pair)
        else:
            core.add_connector(pair, al)
        done += [i, j]
        if mon:
            mon.check('pending', list(pair) == keep, 'indices modified')
            pend = sorted(zip(map(str, core.cu), map(str, core.cy)))
            if not spec['seq']:
                mon.check('pending', pend == sorted((unames[k], ynames[k]) for k in done),
                          'pending %s' % pend)
                at = S.point(S.freesymbols(ref) | S.freesymbols(core), 3)
                f1 = {k: v for k, v in retag(S.by_name(core, at)).items()}
                f2 = {k: v for k, v in retag(S.by_name(ref, at)).items()}
                S.same(mon, 'pending', f1, f2, 'declaration changes the equations')
        if prep:
            core = ops(spec, core, rng)
        if spec['seq']:
            core.connect()
    if prep:
        # pending connectors in any order
        for a, b in spec.get('moves', []):
            n = core.dims.cy()
            if n > 2:
                core.move_connector(a % n, b % n)
                if mon:
                    mon.seen('moved')
    core.connect()
    return core


def retag(d):
    """connectors and ports under the same key"""
    t = lambda a: ('y', a[1]) if a[0] == 'cy' else a
    return {str(k if not (isinstance(k, tuple) and k[0] == 'M') else ('M', t(k[1]), t(k[2]))): v
            for k, v in d.items()}


def run(spec, mon):
    if spec.get('kind') == 'loop':
        return run_loop(spec, mon)
    pairs = spec['pairs']
    ref = build(spec)
    refn = S.names(ref)
    allnames = refn['x'] + refn['w'] + refn['y']
    rng = random.Random(spec['seed'] + 1)
    core0 = build(spec)
    al = [alpha_of(spec, a, core0) for _, _, a in pairs]
    al = [sympy.sympify(1 if a is None else a) for a in al]
    # is the declared connection regular?
    pts, regular = [], True
    for k in range(3):
        syms = S.freesymbols(core0)
        at = {s: rng.uniform(-1.1, 1.1) for s in sorted(syms, key=str)}
        at.update(S.resolve(core0))
        M = S.matvalue(ref.M, at)
        nf = len(refn['x']) + len(refn['w'])
        ny = len(refn['y'])
        con = [k2 for i, j, _ in pairs for k2 in (i, j)]
        Sw = np.zeros((ny, ny))
        for (i, j, _), a in zip(pairs, al):
            a = S.value(a, at)
            Sw[i, j] = -a
            Sw[j, i] = a
        full = np.zeros_like(M)
        full[nf:, nf:] = Sw
        # b = M.(a_free + full.b)  ->  (I - M.full) b = M a_free
        A = np.eye(len(M)) - M.dot(full)
        sv = np.linalg.svd(A, compute_uv=False)
        if sv[-1] < 1e-3:
            regular = False
        pts.append((at, M, A, con))
    if not regular:
        raise vh.Skip('singular connection')
    core = connect(spec, pairs, mon)
    n = S.names(core)
    con = [k for i, j, _ in pairs for k in (i, j)]
    mon.key('pairs %d ports %d seq %s' % (len(pairs), len(refn['y']), spec['seq']))
    left = [k for k in range(len(refn['y'])) if k not in con]
    mon.check('ports', sorted(n['ports']) == sorted((refn['u'][k], refn['y'][k]) for k in left)
              and not n['cy'] and not n['cu'] and not core.connectors,
              'remaining %s, %s' % (n['ports'], n['cports']))
    if 'port' not in spec['prep']:
        mon.check('ports', n['y'] == [refn['y'][k] for k in left], 'order %s' % n['y'])
    for k in ('x', 'w', 'p', 'o'):
        mon.check('ports', sorted(n[k]) == sorted(refn[k]), '%s %s' % (k, n[k]))
    for at, M, A, _ in pts:
        at = dict(at)
        at.update(S.resolve(core))
        Mc = S.matvalue(core.M, at)
        lab = n['x'] + n['w'] + n['y']
        if not mon.check('outputs', Mc.shape == (len(lab),)*2, 'shape %s' % (Mc.shape,)):
            return
        for _ in range(2):
            a = {s: rng.uniform(-1, 1) for s in lab}
            a0 = np.array([a.get(s, 0.) for s in allnames])
            b0 = dict(zip(allnames, np.linalg.solve(A, M.dot(a0))))
            b = Mc.dot(np.array([a[s] for s in lab]))
            tol = 1e-8*(1 + max(abs(v) for v in b0.values()))*(1 + np.abs(Mc).max() if Mc.size else 1)
            mon.close('outputs', b, [b0[s] for s in lab], 1e-8, tol)
            # power conservation: only R of the original dissipates
            if not any(c['R'] for c in spec['cores']):
                mon.close('conservative', float(np.dot([a[s] for s in lab], b)), 0., 0, tol)
        f = S.by_name(core, at)
        g = S.by_name(ref, at)
        S.same(mon, 'laws', {k: v for k, v in f.items() if k[0] not in ('M', 'Mshape')},
               {k: v for k, v in g.items() if k[0] not in ('M', 'Mshape')})
    if len(pairs) > 1:
        other = connect(spec, [pairs[k] for k in spec['order']], prep=False)
        at = pts[0][0]
        S.same(mon, 'order', S.by_name(other, at), S.by_name(core, at), 'declaration order', 1e-8, 1e-8)
    mon.sample = {'pairs': pairs, 'ports_left': n['y']}
