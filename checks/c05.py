# -*- coding: utf-8 -*-
"""C05: reordering and splitting only permute the system."""
import sympy
import vh
import gen as G
import shadow as S

PROPERTY = 'C05'
LEVEL = 'exploration'
RULE = ('random systems x random sequences of moves of storages, dissipations, '
        'ports, connectors and of linear/nonlinear and mono/multivariate splits; '
        'the name-indexed fingerprint (values of H, grad H, z, M at a random '
        'point) is compared with the initial one after every operation; '
        'non-trivial when at least two variables exist; distinct by spec hash')
REQUIRED = ['fingerprint', 'variables', 'Q_bl', 'Zl', 'linear_set', 'mono_set',
            'position']
COUNT = {'quick': 200, 'thorough': 5000}
ASSUMPTIONS = []

OPS = ['stor', 'diss', 'port', 'conn', 'lnl', 'mono']


def gen(rng, i, tier):
    many = i % 4 == 1
    c = G.gen_core(rng, nx=(3, 5) if many else (1, 5), nw=(3, 5) if many else (0, 4),
                   ny=(0, 3), ncy=(0, 1), np_=(0, 2),
                   nlprob=0.1 if many else rng.choice([0.2, 0.5, 0.8]), obs=0.3, exprsubs=0.2)
    X = c['x']
    if len(X) > 2 and rng.random() < 0.5:
        x, y = rng.sample(X, 2)
        c['H'] += rng.choice([' + {x}*{y}/7', ' + ({x} - {y})**2/5', ' + {x}**2*{y}**2/4']).format(x=x, y=y)
    if len(c['w']) > 1 and rng.random() < 0.3:
        a, b = rng.sample(range(len(c['w'])), 2)
        c['z'][a] += ' + %s/6' % c['w'][b]
    if c['w'] and rng.random() < 0.2:
        c['z'][0] += ' + 0.3'
    ops = []
    if many or rng.random() < 0.4:
        # moves inside the parts of a split system
        ops.append(['lnl', 0, 0])
    for k in range(rng.randint(2, 6)):
        op = rng.choice(['stor', 'diss', 'diss', 'port'] if many else OPS + ['lnl'])
        ops.append([op, rng.randint(0, 99), rng.randint(0, 99)])
    ops.append(['lnl', 0, 0])
    ops.append(['mono', 0, 0])
    return {'core': c, 'ops': ops}


def directed():
    return []


def linear_sets(core):
    """independent statement of what is linear: {x}, {w}"""
    def comps(n, coupled):
        comp = list(range(n))
        ch = True
        while ch:
            ch = False
            for i in range(n):
                for j in range(n):
                    if coupled(i, j) and comp[i] != comp[j]:
                        comp[i] = comp[j] = min(comp[i], comp[j])
                        ch = True
        return comp
    x, w = list(core.x), list(core.w)
    h = [[sympy.simplify(core.H.diff(a).diff(b)) for b in x] for a in x]
    cx = comps(len(x), lambda i, j: h[i][j] != 0)
    badx = set(cx[i] for i in range(len(x)) for j in range(len(x))
               if h[i][j].free_symbols & set(x))
    xl = [str(x[i]) for i in range(len(x)) if cx[i] not in badx]
    z = list(core.z)
    j_ = [[sympy.simplify(a.diff(b)) for b in w] for a in z]
    cw = comps(len(w), lambda i, j: j_[i][j] != 0 or j_[j][i] != 0)
    badw = set(cw[i] for i in range(len(w)) for j in range(len(w))
               if j_[i][j].free_symbols & set(w))
    badw |= set(cw[i] for i in range(len(w))
                if sympy.simplify(z[i].subs({v: 0 for v in w})) != 0)
    wl = [str(w[i]) for i in range(len(w)) if cw[i] not in badw]
    return xl, wl, h, x


def run(spec, mon):
    c = spec['core']
    core = G.build_core(c)
    ref = S.by_name(core, seed=1)
    refn = S.names(core)
    xl0, wl0, h, xs = linear_sets(core)
    mon.key('dims %d/%d w %d/%d' % (len(xl0), len(c['x']), len(wl0), len(c['w'])))
    for op, a, b in spec['ops']:
        what = op
        if op in ('stor', 'diss', 'port', 'conn'):
            attr, f, n = {'stor': ('x', core.move_storage, core.dims.x()),
                          'diss': ('w', core.move_dissipative, core.dims.w()),
                          'port': ('y', core.move_port, core.dims.y()),
                          'conn': ('cy', core.move_connector, core.dims.cy())}[op]
            if not n:
                continue
            i, j = a % n, b % n
            what = '%s %d->%d of %d' % (op, i, j, n)
            l = [str(s) for s in getattr(core, attr)]
            f(i, j)
            l.insert(j, l.pop(i))
            mon.check('position', [str(s) for s in getattr(core, attr)] == l,
                      '%s: %s expected %s' % (what, getattr(core, attr), l))
        elif op == 'lnl':
            core.linear_nonlinear()
        else:
            core.monovar_multivar()
        mon.key(op)
        n = S.names(core)
        for k in n:
            mon.check('variables', sorted(n[k]) == sorted(refn[k]), '%s: %s %s' % (what, k, n[k]))
        S.same(mon, 'fingerprint', S.by_name(core, seed=1), ref, what)
        at = S.point(S.freesymbols(core), 2)
        at.update(S.resolve(core))
        # matrices of the linear parts kept by a move
        nq, nz = core.Q.shape[0], core.Zl.shape[0]
        for i in range(nq):
            e = sum((core.Q[i, j]*core.x[j] for j in range(nq)), core.bl[i])
            mon.close('Q_bl', S.value(e, at), S.value(core.H.diff(core.x[i]), at), 1e-9, 1e-10,
                      '%s: %s' % (what, core.x[i]))
        for i in range(nz):
            e = sum((core.Zl[i, j]*core.w[j] for j in range(nz)), sympy.sympify(0))
            mon.close('Zl', S.value(e, at), S.value(core.z[i], at), 1e-9, 1e-10,
                      '%s: %s' % (what, core.w[i]))
        if op == 'lnl':
            nl, wl = core.dims.xl(), core.dims.wl()
            mon.check('linear_set', sorted(map(str, core.x[:nl])) == sorted(xl0) and
                      sorted(map(str, core.xl())) == sorted(xl0),
                      'xl=%s expected %s' % (core.x[:nl], xl0))
            mon.check('linear_set', sorted(map(str, core.w[:wl])) == sorted(wl0),
                      'wl=%s expected %s' % (core.w[:wl], wl0))
            Q, bl = core.Q, list(core.bl)
            mon.check('Q_bl', tuple(Q.shape) == (nl, nl) and len(bl) == nl, 'shape %s' % (Q.shape,))
            for i in range(nl):
                e = sum((Q[i, j]*core.x[j] for j in range(nl)), bl[i])
                mon.close('Q_bl', S.value(e, at), S.value(core.H.diff(core.x[i]), at), 1e-9, 1e-10, str(core.x[i]))
                at2 = dict(at)
                at2.update({x: v + 0.37 for x, v in S.point(core.x, 7).items()})
                for e in [bl[i]] + [Q[i, j] for j in range(nl)]:
                    mon.close('Q_bl', S.value(e, at), S.value(e, at2), 1e-9, 1e-10,
                              'Q or bl depends on x: %s' % e)
            Zl = core.Zl
            mon.check('Zl', tuple(Zl.shape) == (wl, wl), 'shape %s' % (Zl.shape,))
            for i in range(wl):
                e = sum((Zl[i, j]*core.w[j] for j in range(wl)), sympy.sympify(0))
                mon.close('Zl', S.value(e, at), S.value(core.z[i], at), 1e-9, 1e-10, str(core.w[i]))
            mon.check('parts', core.xl() + core.xnl() == core.x and core.wl() + core.wnl() == core.w
                      and core.zl() + core.znl() == core.z, 'parts')
        if op == 'mono':
            nl, nm = core.dims.xl(), core.dims.xnl_mono()
            nls = [str(s) for s in core.x[nl:]]
            idx = {str(s): i for i, s in enumerate(xs)}
            mono = [s for s in nls if all(h[idx[s]][idx[t]] == 0 for t in nls if t != s)]
            mon.check('mono_set', sorted(nls[:nm]) == sorted(mono),
                      'mono %s expected %s of %s' % (nls[:nm], mono, nls))
    mon.sample = {'x': [str(s) for s in core.x], 'xl': core.dims.xl(), 'wl': core.dims.wl()}
