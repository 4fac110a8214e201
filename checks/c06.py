# -*- coding: utf-8 -*-
"""C06: eliminating dissipative variables preserves the behaviour."""
import numpy as np
import sympy
import scipy.optimize
import random
import vh
import gen as G
import shadow as S

PROPERTY = 'C06'
LEVEL = 'exploration'
RULE = ('random systems with 1-5 dissipative variables (linear, nonlinear, '
        'mutually coupled, dependent on states/parameters/observers, with '
        'w-w interconnection, connectors and resistive structure) x random '
        'protected sets x random preparatory moves/splits; at random points the '
        'w of the original equations is solved by an independent Newton solver '
        'and must satisfy the reduced system with the same dx, y, cy and '
        'dissipated power; non-trivial when at least one point was compared; '
        'distinct by spec hash')
REQUIRED = ['computed', 'dx', 'y', 'w_kept', 'power', 'kept', 'law', 'eliminated']
COUNT = {'quick': 200, 'thorough': 5000}
CASE_TIMEOUT = 40
ASSUMPTIONS = ['points where the original algebraic loop has no numerical solution '
               'are skipped']


def gen(rng, i, tier):
    c = G.gen_core(rng, nx=(1, 4), nw=(1, 5), ny=(0, 3), ncy=(0, 1), np_=(0, 2),
                   nlprob=rng.choice([0., 0.2, 0.5, 0.8]), obs=0.4, exprsubs=0.2,
                   zdep=0.4, gdep=rng.choice([0, 0, 0.3]), density=rng.choice([0.4, 0.8]))
    nw = len(c['w'])
    if nw > 1 and rng.random() < 0.3:
        a, b = rng.sample(range(nw), 2)
        c['z'][a] += ' + %s/6' % c['w'][b]
        if rng.random() < 0.5:
            c['z'][b] += ' + %s/6' % c['w'][a]
    force = [w for w in c['w'] if rng.random() < 0.35] if rng.random() < 0.5 else []
    rng.shuffle(force)
    prep = [rng.choice(['lnl', 'mono', 'stor', 'diss', 'port', 'copy'])
            for _ in range(rng.randint(0, 3))]
    return {'core': c, 'force': force, 'prep': prep, 'seed': rng.randint(0, 10**6),
            'twice': rng.random() < 0.2}


def directed():
    return []


def run(spec, mon):
    c = spec['core']
    core = G.build_core(c)
    core.force_wnl = [core.symbols(w) for w in spec['force']]
    rng = random.Random(spec['seed'])
    for op in spec['prep']:
        if op == 'lnl':
            core.linear_nonlinear()
        elif op == 'mono':
            core.monovar_multivar()
        elif op == 'copy':
            core = core.__copy__()
        else:
            f, n = {'stor': (core.move_storage, core.dims.x()),
                    'diss': (core.move_dissipative, core.dims.w()),
                    'port': (core.move_port, core.dims.y())}[op]
            if n:
                f(rng.randrange(n), rng.randrange(n))
    n0 = S.names(core)
    laws = {str(w): z for w, z in zip(core.w, core.z)}
    try:
        core.reduce_z()
        if spec['twice']:
            core.reduce_z()
    except (ValueError, ZeroDivisionError) as e:
        # unsolvable symbolic loop
        if 'det == 0' in str(e) or 'not invertible' in str(e):
            raise vh.Skip(str(e))
        raise
    # a loop without solution is refused, not computed
    mon.check('computed', not core.M.has(sympy.nan, sympy.zoo, sympy.oo), lambda: 'M is %s' % core.M)
    n1 = S.names(core)
    for k in n0:
        if k != 'w':
            mon.check('kept', sorted(n0[k]) == sorted(n1[k]), '%s: %s -> %s' % (k, n0[k], n1[k]))
    for w in spec['force']:
        mon.check('kept', w in n1['w'], 'protected %s eliminated' % w)
    mon.check('kept', len(core.w) == len(core.z) and set(n1['w']) <= set(n0['w']), 'w')
    # every remaining variable has a reason to remain
    lin = linear_free(c, laws, spec['force'])
    mon.check('eliminated', not (set(n1['w']) & lin), 'linear but kept: %s' % (set(n1['w']) & lin))
    mon.key('w %d->%d forced %d' % (len(n0['w']), len(n1['w']), len(spec['force'])))
    mon.check('shape', core.dims.wl() == 0 and core.M.shape == (core.dims.tot(),)*2, 'dims')
    model = G.Model(c)
    nx, nw, ny, nc = len(c['x']), len(c['w']), len(c['y']), len(c['cy'])
    for k in range(4):
        env = {n: rng.uniform(-1.2, 1.2) for n in model.names}
        if rng.random() < 0.2:
            for x in c['x']:
                env[x] = 0.
        gH = np.array(model.grad(env))
        for x, g in zip(c['x'], gH):
            env['g' + x] = g
        for o, f in model.obs:
            env[o] = f(env)
        M = model.Mnum(env)
        u = np.array([env[s] for s in c['u'] + c['cu']])

        def zfun(w):
            e = dict(env)
            e.update(zip(c['w'], w))
            return np.array([f(e) for f in model.z])

        def res(w):
            a = np.concatenate([gH, zfun(w), u])
            return w - M[nx:nx+nw].dot(a)
        w = None
        for att in range(3):
            try:
                sol = scipy.optimize.root(res, np.array([rng.uniform(-1, 1) for _ in range(nw)]),
                                          tol=1e-13)
            except (OverflowError, ValueError, ZeroDivisionError):
                continue
            if np.all(np.isfinite(sol.x)) and np.max(np.abs(res(sol.x))) < 1e-10:
                w = sol.x
                break
        if w is None:
            mon.seen('unsolved_point')
            continue
        env.update(zip(c['w'], w))
        a = np.concatenate([gH, zfun(w), u])
        b = M.dot(a)
        P = zfun(w).dot(w) - a.dot((M + M.T)/2).dot(a)
        # the reduced system at the same point, by name
        at = {sympy.Symbol(n, real=True): v for n, v in env.items()}
        at.update(S.resolve(core))
        Mr = S.matvalue(core.M, at)
        zr = np.array([S.value(z, at) for z in core.z])
        gr = np.array([S.value(core.H.diff(x), at) for x in core.x])
        ur = np.array([env[str(s)] for s in list(core.u) + list(core.cu)])
        ar = np.concatenate([gr, zr, ur])
        br = Mr.dot(ar)
        scale = 1 + np.max(np.abs(a))*max(1, np.max(np.abs(M)))
        if not np.all(np.isfinite(Mr)) or np.max(np.abs(Mr)) > 1e7:
            mon.seen('singular_point')
            continue
        tol = 1e-8*scale*(1 + np.max(np.abs(Mr)))
        ref = dict(zip(['d' + x for x in c['x']], b[:nx]))
        ref.update(zip(c['y'] + c['cy'], b[nx+nw:]))
        mon.close('dx', br[:nx], [ref['d' + str(x)] for x in core.x], 1e-8, tol)
        mon.close('y', br[nx+len(zr):], [ref[str(s)] for s in list(core.y) + list(core.cy)], 1e-8, tol)
        wk = np.array([env[str(s)] for s in core.w])
        mon.close('w_kept', br[nx:nx+len(zr)], wk, 1e-8, tol)
        for s, z in zip(core.w, zr):
            mon.close('law', z, S.value(laws[str(s)], at), 1e-9, 1e-10, str(s))
        Pr = zr.dot(wk) - ar.dot((Mr + Mr.T)/2).dot(ar)
        mon.close('power', Pr, P, 1e-7, tol*scale)
    mon.sample = {'w': n0['w'], 'kept': n1['w'], 'forced': spec['force']}


def linear_free(c, laws, force):
    """names of the variables that can be eliminated"""
    names = list(laws)
    tab = {s: sympy.Symbol(s, real=True) for s in names}
    jac = {(a, b): sympy.simplify(laws[a].diff(tab[b])) for a in names for b in names}
    bad = set(force)
    for a in names:
        if sympy.simplify(laws[a].subs({v: 0 for v in tab.values()})) != 0:
            bad.add(a)
        for b in names:
            if jac[a, b].free_symbols & set(tab.values()):
                bad |= {a, b}
    ch = True
    while ch:
        ch = False
        for a in names:
            for b in names:
                if jac[a, b] != 0 and (a in bad) != (b in bad):
                    bad |= {a, b}
                    ch = True
    return set(names) - bad
