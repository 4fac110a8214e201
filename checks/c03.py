# -*- coding: utf-8 -*-
"""C03: discrete gradients are exact and consistent."""
import math
import numpy as np
import sympy
import vh
import gen as G

PROPERTY = 'C03'
LEVEL = 'exploration'
RULE = ('random storage functions of 1-5 variables (quadratic, separable '
        'nonlinear, coupled, transcendental) x gradient option x split; the '
        'gradient expressions built by the real Method are evaluated at random '
        '(x, dx) including null, tiny and large increments; non-trivial when '
        'at least one increment is non-zero; distinct by spec hash')
REQUIRED = ['exact', 'exact_small', 'consistent', 'finite', 'null_increment', 'theta', 'trapez',
            'dxH', 'hessian', 'jacobian']
COUNT = {'quick': 240, 'thorough': 6000}
ASSUMPTIONS = ['difference quotients are allowed their rounding error 1e-16*H/|dx|']


def gen(rng, i, tier):
    c = G.gen_core(rng, nx=(1, 5 if i % 4 == 0 else 3), nw=(0, 3), ny=(0, 1), np_=(0, 0),
                   nlprob=rng.choice([0., 0.5, 1.]), density=rng.choice([0.2, 0.8]),
                   statedep=0.1)
    if len(c['x']) > 2 and rng.random() < 0.5:
        x, y, z = rng.sample(c['x'], 3)
        c['H'] += rng.choice([' + {x}*{y}/5 + {y}*{z}/7', ' + {x}**2*({y} - {z})**2/3',
                              ' + cosh({x} + {y} - {z})', ' + ({x} + {z})**2/3 + {y}**4']).format(x=x, y=y, z=z)
    pts = []
    nx = len(c['x'])
    for k in range(6):
        x = [G.rnd(rng, -1.5, 1.5, 4) for _ in range(nx)]
        kind = ['normal', 'normal', 'somezero', 'zero', 'tiny', 'mixed'][k]
        s = 10**rng.uniform(-3, 0)
        dx = [rng.uniform(-s, s) for _ in range(nx)]
        if kind == 'somezero':
            dx = [v if rng.random() < 0.5 else 0. for v in dx]
        elif kind == 'zero':
            dx = [0.]*nx
        elif kind == 'tiny':
            s = 10**rng.uniform(-17, -6)
            dx = [s*rng.choice([-1, 1, 0.5]) for _ in range(nx)]
        elif kind == 'mixed':
            dx = [v*10**rng.uniform(-12, 0) for v in dx]
        pts.append([kind, x, dx])
    # increments between rounding and usual sizes, evaluated in high precision
    for k in range(4):
        x = [G.rnd(rng, -1.5, 1.5, 4) for _ in range(nx)]
        s = 10**rng.uniform(-6, -2)
        pts.append(['small', x, [s*rng.choice([-1, 1])*rng.uniform(0.3, 1) for _ in range(nx)]])
    return {'core': c, 'pts': pts, 'grad': rng.choice(['discret', 'discret', 'discret', 'theta', 'trapez']),
            'theta': rng.choice([0., 0.25, 0.5, 1.]), 'split': rng.random() < 0.5,
            'epsdg': rng.choice([None, None, None, 1e-3])}


def directed():
    return []


def precise(spec, mon, X, x, dx, fmp, Hmp):
    """exactness with 40 digits: what is left is the rounding of the coefficients"""
    import mpmath
    with mpmath.workdps(40):
        x, dx = [mpmath.mpf(v) for v in x], [mpmath.mpf(v) for v in dx]
        g = [fmp[n](*(x + dx)) for n in X]
        dH = Hmp(*[a + b for a, b in zip(x, dx)]) - Hmp(*x)
        err = abs(sum(a*b for a, b in zip(g, dx)) - dH)
        big = 1 + abs(Hmp(*x)) + sum(abs(a*b) for a, b in zip(g, dx))
        err, tol = float(err), float(1e-16*big)
    mon.check('exact_small', err <= tol, lambda: 'g.dx-dH=%r tol %r x=%s dx=%s' % (err, tol, x, dx))
    mon.maxdev['exact_small'] = max(mon.maxdev.get('exact_small', 0), err/tol)


def run(spec, mon):
    c = spec['core']
    core = G.build_core(c)
    model = G.Model(c)
    X = c['x']
    nx = len(X)
    tab = model.tab

    # symbolic derivatives reported by the system
    subs = {tab[k]: v for k, v in c['subs'].items()}
    env0 = dict(zip(X, spec['pts'][0][1]))
    at = {tab[k]: v for k, v in env0.items()}
    at.update({tab[w]: 0.3*(j + 1) for j, w in enumerate(c['w'])})
    at.update({tab[o]: 0.7 for o in c['obs']})
    val = lambda e: float(sympy.sympify(e).subs(subs).subs(at))
    H = G.parse(c['H'], tab)
    names = [str(s) for s in core.x]
    mon.close('dxH', [val(e) for e in core.dxH()],
              [val(H.diff(tab[n])) for n in names], 1e-9, 1e-11)
    hs = core.hessH()
    mon.close('hessian', [[val(hs[i, j]) for j in range(nx)] for i in range(nx)],
              [[val(H.diff(tab[a]).diff(tab[b])) for b in names] for a in names], 1e-9, 1e-11)
    if c['w']:
        jz = core.jacz()
        zz = {w: G.parse(z, tab) for w, z in zip(c['w'], c['z'])}
        wn = [str(s) for s in core.w]
        mon.close('jacobian', [[val(jz[i, j]) for j in range(len(wn))] for i in range(len(wn))],
                  [[val(zz[a].diff(tab[b])) for b in wn] for a in wn], 1e-9, 1e-11)

    cfg = {'grad': spec['grad'], 'theta': spec['theta'], 'split': spec['split']}
    if spec['epsdg']:
        cfg['epsdg'] = spec['epsdg']
    m = core.to_method(config=cfg)
    order = [str(s) for s in m.x]
    mon.check('same_states', sorted(order) == sorted(X), order)
    dxs = [tab['d' + n] for n in X]
    num = {k: v for k, v in m.subs.items()}
    exprs = {n: sympy.sympify(e).subs(num) for n, e in zip(order, m.dxH())}
    f = {n: sympy.lambdify([tab[v] for v in X] + dxs, e,
                           modules=G.MATH) for n, e in exprs.items()}
    eps = spec['epsdg'] or 2.3e-16
    args = [tab[v] for v in X] + dxs
    fmp = {n: sympy.lambdify(args, e, modules='mpmath') for n, e in exprs.items()}
    Hmp = sympy.lambdify([tab[v] for v in X], sympy.sympify(G.parse(c['H'], tab)).subs(subs), modules='mpmath')
    for kind, x, dx in spec['pts']:
        if kind == 'small':
            if spec['grad'] == 'discret' and not spec['epsdg']:
                precise(spec, mon, X, x, dx, fmp, Hmp)
            continue
        x, dx = np.array(x), np.array(dx)
        E = lambda v: dict(zip(X, v))
        H0, H1 = model.H(E(x)), model.H(E(x + dx))
        g0, g1, gm = (np.array(model.grad(E(v))) for v in (x, x + dx, x + dx/2))
        try:
            got = np.array([float(f[n](*(list(x) + list(dx)))) for n in X])
        except (ZeroDivisionError, OverflowError) as e:
            mon.check('finite', False, '%s at x=%s dx=%s' % (e, x, dx))
            continue
        if not mon.check('finite', np.isfinite(got).all(), 'x=%s dx=%s got=%s' % (x, dx, got)):
            continue
        where = lambda: 'x=%s dx=%s got=%s grad=%s' % (x.tolist(), dx.tolist(), got.tolist(), gm.tolist())
        if spec['grad'] == 'theta':
            mon.close('theta', got, np.array(model.grad(E(x + spec['theta']*dx))), 1e-10, 1e-11)
            continue
        if spec['grad'] == 'trapez':
            mon.close('trapez', got, (g0 + g1)/2, 1e-10, 1e-11)
            continue
        big = 1 + abs(H0) + abs(H1)
        act = np.abs(dx)[np.abs(dx) >= eps]
        noise = 40*2.3e-16*big/act.min() if len(act) else 0.
        s = np.sqrt(((g0 + g1 - 2*gm)**2).sum())
        # higher orders of large increments
        hi = np.sqrt(((np.array(model.grad(E(x + dx/4))) - np.array(model.grad(E(x + 3*dx/4))))**2).sum())
        tol = 1e-9*(1 + np.abs(gm).max()) + 1.5*s + noise + (0.3*hi*np.abs(dx).max())
        mon.check('consistent', (np.abs(got - gm) <= tol).all(), lambda: where() + ' tol %r' % tol)
        if kind == 'zero':
            mon.close('null_increment', got, g0, 1e-10, 1e-11)
            continue
        if not spec['epsdg']:
            err = abs(got.dot(dx) - (H1 - H0))
            t = 2e-14*big + 1e-9*np.abs(dx).max()*((np.abs(dx) < eps).any())
            mon.check('exact', err <= t, lambda: 'g.dx-dH=%r tol %r ' % (err, t) + where())
            mon.maxdev['exact'] = max(mon.maxdev.get('exact', 0), err/t)
        mon.key('kind=%s nx=%d' % (kind, nx))
    mon.key('xl=%d mono=%d x=%d split=%s' % (m.dims.xl(), m.dims.xnl_mono(), nx, spec['split']))
    mon.sample = {'dxH': [str(e)[:200] for e in m.dxH()][:2]}
