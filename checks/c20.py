# -*- coding: utf-8 -*-
"""C20: the quantities a system gives about itself equal their definitions."""
import copy
import random
import mpmath
import numpy as np
import sympy
import vh
import gen as G

PROPERTY = 'C20'
LEVEL = 'exploration'
RULE = ('random systems (nonlinear, state-dependent, resistive, observers, parameters, substitutions, '
        'pending connectors, empty blocks), before and after reordering and splitting, as Core and as numerical '
        'method; every derived quantity is evaluated and compared with its definition computed from the '
        'specification with 40-digit arithmetic (derivatives by central differences); the calculus tools are '
        'called on random scalars, vectors and matrices of every size including 0; distinct by spec hash, '
        'non-trivial when a quantity was compared')
REQUIRED = ['a', 'b', 'pd', 'dxH', 'hessH', 'jacz', 'output', 'names', 'labels', 'index', 'allsymbs', 'freesymbols',
            'subsexprs', 'part_l', 'part_nl', 'gradient', 'hessian', 'jacobian', 'inverse', 'matvecprod', 'sumvecs',
            'arguments_kept', 'rejected', 'replaced_gradient', 'state_kept', 'helpers']
COUNT = {'quick': 220, 'thorough': 6000}
CASE_TIMEOUT = 100
ASSUMPTIONS = ['derivatives of the reference are central differences with 40 digits',
               'Core.Hx is not implemented in the library and is not judged']

NS = {'cosh': mpmath.cosh, 'sinh': mpmath.sinh, 'tanh': mpmath.tanh, 'log': mpmath.log, 'sqrt': mpmath.sqrt,
      'cos': mpmath.cos, 'sin': mpmath.sin, 'atan': mpmath.atan, 'exp': mpmath.exp, 'Abs': abs}


def ev(s, env):
    """value of the text of an expression"""
    with mpmath.workdps(40):
        return mpmath.mpf(eval(s, dict(NS), env)) if isinstance(s, str) else mpmath.mpf(s)


def diff(s, name, env):
    with mpmath.workdps(40):
        h = mpmath.mpf(10)**-13
        return (ev(s, dict(env, **{name: env[name] + h})) - ev(s, dict(env, **{name: env[name] - h})))/(2*h)


def diff2(s, a, b, env):
    with mpmath.workdps(40):
        h = mpmath.mpf(10)**-9
        f = lambda i, j: ev(s, dict(env, **{a: env[a] + i*h + (j*h if a == b else 0)}) if a == b
                            else dict(env, **{a: env[a] + i*h, b: env[b] + j*h}))
        return (f(1, 1) - f(1, -1) - f(-1, 1) + f(-1, -1))/(4*h*h)


def val(e, env):
    """value of an expression of the code under test"""
    e = sympy.sympify(e)
    with mpmath.workdps(40):
        fs = sorted(e.free_symbols, key=str)
        missing = [str(s) for s in fs if str(s) not in env]
        if missing:
            raise KeyError('unknown symbols %s' % missing)
        f = sympy.lambdify(fs, e, modules=[{'Abs': abs, 'sign': mpmath.sign}, 'mpmath'])
        return mpmath.mpf(f(*[env[str(s)] for s in fs]))


def gen(rng, i, tier):
    kind = ['core', 'tools', 'core', 'method', 'tools', 'core', 'helpers'][i % 7]
    s = {'kind': kind, 'seed': rng.randint(0, 10**9)}
    if kind in ('core', 'method'):
        k = dict(nx=(0, 3), nw=(0, 3), ny=(0, 2), np_=(0, 2), obs=0.4, zdep=0.3, exprsubs=0.4, statedep=0.4, resist=0.6,
                 ncy=(0, 1) if kind == 'core' and rng.random() < 0.3 else (0, 0))
        s['core'] = G.gen_core(rng, **k)
        s['split'] = rng.random() < 0.5
        s['perm'] = rng.random() < 0.5
        s['own_gradient'] = rng.random() < 0.3
    return s


def directed():
    return [{'kind': 'core', 'seed': 1, 'split': sp, 'perm': False, 'own_gradient': False, 'core': dict(
        {'x': [], 'H': '0', 'w': [], 'z': [], 'u': [], 'y': [], 'cu': [], 'cy': [], 'p': [], 'obs': {}, 'J': [],
         'R': [], 'subs': {}}, **k)} for sp in (False, True) for k in (
             {}, {'x': ['xA'], 'H': 'xA**2/2'}, {'w': ['wA'], 'z': ['wA**3']}, {'u': ['uA'], 'y': ['yA'], 'R': [[0, 0, '2.']]})]


def run(spec, mon):
    mon.key(spec['kind'])
    {'core': run_core, 'method': run_core, 'tools': run_tools, 'helpers': run_helpers}[spec['kind']](spec, mon)


def environment(rng, c):
    env = {}
    for k in ('x', 'w', 'u', 'y', 'cu', 'cy', 'p'):
        for s in c.get(k, []):
            env[s] = mpmath.mpf(repr(rng.uniform(-1, 1)))
    for x in c['x']:
        env['d' + x] = mpmath.mpf(repr(rng.uniform(-1, 1)))
        env['g' + x] = mpmath.mpf(repr(rng.uniform(-1, 1)))
        env['dt' + x] = mpmath.mpf(repr(rng.uniform(-1, 1)))
    for s, v in c['subs'].items():
        if not isinstance(v, str):
            env[s] = mpmath.mpf(v)
    for s, v in c['subs'].items():
        if isinstance(v, str):
            env[s] = ev(v, env)
    for s, v in sorted(c['obs'].items()):
        env[s] = mpmath.mpf(repr(rng.uniform(-1, 1)))
    return env


def f64(v):
    return [float(e) for e in v]


def snapshot(core):
    return ([str(e) for n in ('x', 'w', 'u', 'y', 'cu', 'cy', 'p', 'z') for e in getattr(core, n)], str(core.H),
            core.M.shape, [str(e) for e in core.M], sorted(map(str, core.subs.items())),
            [str(t) for t in core.observers.items()], str(core._dxH))


def run_core(spec, mon):
    import pyphs
    rng = random.Random(spec['seed'])
    c = spec['core']
    core = G.build_core(c)
    if spec['kind'] == 'method':
        # quantities of the numerical method: its gradient is the discrete one
        cfg = {'grad': rng.choice(['discret', 'theta', 'trapez']), 'theta': rng.choice([0., 0.5, 1.]),
               'split': spec['split']}
        core = core.to_method(cfg)
    else:
        if spec['split']:
            core.linear_nonlinear()
        if spec['perm'] and len(core.x) > 1:
            core.move_storage(0, len(core.x) - 1)
        if spec['perm'] and len(core.w) > 1:
            core.move_dissipative(len(core.w) - 1, 0)
        if spec['perm'] and len(core.y) > 1 and not c['cy']:
            core.move_port(0, len(core.y) - 1)
    X, W, Y, CY, U = [[str(e) for e in getattr(core, n)] for n in ('x', 'w', 'y', 'cy', 'u')]
    env = environment(rng, c)
    before = snapshot(core)
    ztext = dict(zip(c['w'], c['z']))
    order = c['x'] + c['w'] + c['y'] + c['cy']
    n = len(order)
    pos = {s: i for i, s in enumerate(order)}
    Jm = mpmath.zeros(n, n)
    Rm = mpmath.zeros(n, n)
    for i, j, v in c['J']:
        e = ev(v, env)
        Jm[i, j] += e
        Jm[j, i] -= e
    for i, j, v in c['R']:
        Rm[i, j] += ev(v, env)
    if spec['kind'] == 'core':
        gradH = {x: diff(c['H'], x, env) if c['x'] else 0 for x in c['x']}
        if spec['own_gradient'] and X:
            core._dxH = [core.symbols(x)*3 + 1 for x in X]
            mon.check('replaced_gradient', core.dxH() == core._dxH and core.a()[:len(X)] == core._dxH,
                      'the gradient in use is not the declared one')
            core._dxH = None
        a_ref = [gradH[x] for x in X] + [ev(ztext[w], env) for w in W] + [env[u] for u in U]
        mon.close('dxH', f64(val(e, env) for e in core.dxH()), f64(gradH[x] for x in X), rtol=1e-9, atol=1e-10)
        H = core.hessH()
        mon.check('hessH', H.shape == (len(X), len(X)), 'shape')
        mon.close('hessH', f64(val(e, env) for e in H), f64(diff2(c['H'], p, q, env) for p in X for q in X), rtol=1e-8, atol=1e-8)
        Jz = core.jacz()
        mon.check('jacz', Jz.shape == (len(W), len(W)), 'shape')
        mon.close('jacz', f64(val(e, env) for e in Jz), f64(diff(ztext[p], q, env) for p in W for q in W), rtol=1e-8, atol=1e-9)
    else:
        # the symbols of the gradient stand in the structure for its value
        g = core.dxH()
        mon.check('dxH', len(g) == len(X), 'length')
        Z = [val(e, env) for e in core.z]
        a_ref = [val(e, env) for e in g] + Z + [env[u] for u in U]
    # definitions
    for nm, got, ref in [('dx', core.dx(), ['d' + x for x in X]), ('g', core.g(), ['g' + x for x in X]),
                         ('dtx', core.dtx(), ['dt' + x for x in X]) if spec['kind'] == 'core' else ('dx', core.dx(), ['d' + x for x in X]), ('z_symbols', core.z_symbols(), ['z' + w[1:] for w in W])]:
        mon.check('names', [str(e) for e in got] == ref and all(e == core.symbols(str(e)) for e in got),
                  lambda: '%s: %s, expected %s' % (nm, got, ref))
    mon.check('names', [str(e) for e in core.o()] == [str(k) for k in core.observers] and
              sorted(map(str, core.o())) == sorted(c['obs']), 'observers %s' % core.o())
    b = core.b()
    if spec['kind'] == 'core':
        mon.check('b', [str(e) for e in b] == ['dt' + x for x in X] + W + Y, lambda: 'b is %s' % b)
    else:
        # rate of the increment over one sample
        env['F_S'] = mpmath.mpf(repr(rng.uniform(1, 9)))
        ref = [env['F_S']*env['d' + x] for x in X] + [env[s] for s in W + Y]
        mon.close('b', f64(val(e, env) for e in b), f64(ref), rtol=1e-12, atol=1e-12)
        mon.close('b', f64(val(e, env) for e in core.dtx()), f64(ref[:len(X)]), rtol=1e-12, atol=1e-12)
    a = core.a()
    mon.close('a', f64(val(e, env) for e in a), f64(a_ref), rtol=1e-9, atol=1e-10)
    if not CY:
        if spec['kind'] == 'core' and a_ref:
            m = len(a_ref)
            idx = [pos[s] for s in X + W + Y]
            ref = sum(env[w]*ev(ztext[w], env) for w in W) + sum(
                a_ref[p]*Rm[idx[p], idx[q]]*a_ref[q] for p in range(m) for q in range(m))
            mon.close('pd', float(val(core.pd(), env)), float(ref), rtol=1e-8, atol=1e-9)
    if spec['kind'] == 'core' and a_ref:
        # connections that are not made yet have their own inputs
        CU = [str(e) for e in core.cu]
        full = a_ref + [env[s] for s in CU]
        idx = [pos[s] for s in X + W + Y + CY]
        out = core.output()
        ref = [sum((Jm[pos[y], idx[q]] - Rm[pos[y], idx[q]])*full[q] for q in range(len(full))) for y in Y]
        mon.close('output', f64(val(e, env) for e in out), f64(ref), rtol=1e-8, atol=1e-9)
    # labels and indices
    lab = X + W + Y + CY
    mon.check('labels', core.labels() == lab and [core.labels(i) for i in range(len(lab))] == lab, lambda: str(core.labels()))
    for nm in ('x', 'w', 'u', 'y', 'cu', 'cy', 'p', 'dx'):
        l = [str(e) for e in (core.dx() if nm == 'dx' else getattr(core, nm))]
        if nm == 'dx':
            continue
        for i, s in enumerate(l):
            mon.check('index', core.index(nm, s) == i and core.index(nm, core.symbols(s)) == i,
                      lambda: '%s in %s: %r' % (s, nm, core.index(nm, s)))
        mon.check('index', fails(core.index, nm, 'nothere'), 'unknown symbol found in %s' % nm)
    # symbols
    declared = set(c['x'] + c['w'] + c['u'] + c['y'] + c['cu'] + c['cy'] + c['p'])
    if spec['kind'] == 'core':
        tab = G.symtab(c)
        subsyms = set(c['subs'])
        for v in c['subs'].values():
            if isinstance(v, str):
                subsyms |= {str(s) for s in G.parse(v, tab).free_symbols}
        got = {str(s) for s in core.allsymbs()}
        mon.check('allsymbs', got == declared | subsyms, lambda: '%s, expected %s' % (sorted(got), sorted(declared | subsyms)))
        used = set()
        for e in ([G.parse(c['H'], tab)] if c['x'] else []) + [G.parse(z, tab) for z in c['z']] + list(G.total_M(c, tab)):
            used |= {str(s) for s in e.free_symbols}
        got = {str(s) for s in core.freesymbols()}
        # the coefficient matrices of a split system only repeat symbols of the system
        mon.check('freesymbols', got == used, lambda: '%s, expected %s' % (sorted(got), sorted(used)))
        got = {str(k): v for k, v in core.subsexprs.items()}
        ref = {k for k, v in c['subs'].items() if isinstance(v, str)}
        mon.check('subsexprs', set(got) == ref and all(
            abs(val(got[k], env) - env[k]) < 1e-12 for k in ref), lambda: '%s, expected %s' % (got, sorted(ref)))
    # linear and nonlinear parts
    nl = {'x': core.dims.xl(), 'w': core.dims.wl()}
    mon.check('part_l', 0 <= nl['x'] <= len(X) and 0 <= nl['w'] <= len(W), 'dimensions')
    for nm, dim in [('x', 'x'), ('dx', 'x'), ('dxH', 'x'), ('w', 'w'), ('z', 'w')]:
        full = getattr(core, nm)
        full = list(full() if callable(full) else full)
        k = nl[dim]
        mon.check('part_l', list(getattr(core, nm + 'l')()) == full[:k], nm)
        mon.check('part_nl', list(getattr(core, nm + 'nl')()) == full[k:], nm)
    mon.check('state_kept', snapshot(core) == before, 'the accessors changed the system')


def fails(f, *args):
    try:
        f(*args)
    except Exception:
        return True
    return False


# --------------------------------------------------------------------------- #

SCAL = ['a**3*b - c', 'sin(a)*b', 'a*b*c', 'cosh(a - b)', '(a + b)**2 - a**2', 'exp(-a**2) + c', 'a/(1 + b**2)', 'a', '7*c/3',
        'a**2 + b**2 + c**2', 'sqrt(1 + a**2)*b', 'log(2 + a) + b', 'atan(a*b)', 'c**4/4 + c', 'k*a**2/2', 'k*b + a**2*c']
NAMES = ['a', 'b', 'c']


def run_tools(spec, mon):
    import pyphs
    from pyphs.core.maths import gradient, hessian, jacobian, inverse, matvecprod, sumvecs
    from pyphs.core.tools import types
    rng = random.Random(spec['seed'])
    tab = {s: sympy.Symbol(s, real=True) for s in NAMES + ['k']}
    env = {s: mpmath.mpf(repr(rng.uniform(-0.9, 0.9))) for s in NAMES + ['k']}
    P = lambda s: sympy.sympify(s, locals=tab)
    nv = rng.randint(0, 3)
    v = rng.sample(NAMES, nv)
    wrap = rng.choice([list, list, tuple])
    vs = wrap(tab[s] for s in v)
    simp = rng.random() < 0.5
    s = rng.choice(SCAL) + rng.choice(['', ' + ' + rng.choice(SCAL)])
    keep = P(s)
    e = P(s)
    g = gradient(e, vs, simp) if rng.random() < 0.5 else gradient(e, vs, simplify=simp)
    mon.check('gradient', len(g) == nv, 'length %d' % len(g))
    mon.close('gradient', f64(val(q, env) for q in g), f64(diff(s, n, env) for n in v), rtol=1e-9, atol=1e-10, detail=s)
    h = hessian(e, vs, simplify=simp)
    mon.check('hessian', h.shape == (nv, nv) and isinstance(h, types.matrix_types), 'shape %s' % (h.shape,))
    mon.close('hessian', f64(val(q, env) for q in h), f64(diff2(s, n, m, env) for n in v for m in v), rtol=1e-8, atol=1e-8, detail=s)
    nf = rng.randint(0, 3)
    fs = [rng.choice(SCAL) for _ in range(nf)]
    F = rng.choice([list, tuple])(P(f) for f in fs)
    F0 = [P(f) for f in fs]
    j = jacobian(F, vs, simplify=simp)
    mon.check('jacobian', j.shape == (nf, nv) and isinstance(j, types.matrix_types), 'shape %s' % (j.shape,))
    mon.close('jacobian', f64(val(q, env) for q in j), f64(diff(f, n, env) for f in fs for n in v), rtol=1e-9, atol=1e-10, detail=fs)
    mon.check('arguments_kept', e == keep and list(F) == F0 and [str(q) for q in vs] == v, 'calculus')
    # matrices
    n, m = rng.randint(0, 3), rng.randint(0, 3)
    entries = [[rng.choice(SCAL[:6] + ['0', '1', '2', 'k']) for _ in range(m)] for _ in range(n)]
    A = types.matrix_types[0](n, m, [P(q) for row in entries for q in row])
    A0 = A.copy()
    vec = [rng.choice(SCAL) for _ in range(m)]
    V = rng.choice([list, tuple])(P(q) for q in vec)
    r = matvecprod(A, V)
    mon.check('matvecprod', len(r) == n, 'length %d for %d rows' % (len(r), n))
    mon.close('matvecprod', f64(val(q, env) for q in r),
              f64(sum(ev(entries[p][q], env)*ev(vec[q], env) for q in range(m)) for p in range(n)), rtol=1e-10, atol=1e-11)
    mon.check('rejected', fails(matvecprod, A, list(V) + [tab['a']]), 'vector of a wrong size')
    mon.check('arguments_kept', A == A0 and [str(q) for q in V] == [str(P(q)) for q in vec], 'product')
    # inverse
    n = rng.randint(0, 3)
    ent = [[(rng.choice(['a', 'b', 'k', '1', '0', 'a*b', 'sin(c)']) + ('/5' if True else '')) if p != q else
            rng.choice(['2 + a**2', '3', '1 + cosh(b)', '2*(1 + k**2)']) for q in range(n)] for p in range(n)]
    B = types.matrix_types[0](n, n, [P(q) for row in ent for q in row])
    num = mpmath.matrix([[ev(q, env) for q in row] for row in ent]) if n else None
    if n == 0 or abs(mpmath.det(num)) > 1e-6:
        iB = inverse(B, dosimplify=simp and n < 3)
        mon.check('inverse', iB.shape == (n, n), 'shape')
        if n:
            ref = num**-1
            mon.close('inverse', f64(val(q, env) for q in iB), f64(ref), rtol=1e-8, atol=1e-9, detail=ent)
        mon.check('arguments_kept', [str(q) for q in B] == [str(P(q)) for row in ent for q in row], 'inverse')
    if n == 2:
        S = types.matrix_types[0](2, 2, [P('a'), P('b'), P('2*a'), P('2*b')])
        mon.check('rejected', fails(inverse, S), 'a singular matrix was inverted')
    # sums
    l = rng.randint(0, 3)
    vs_ = [[rng.choice(SCAL) for _ in range(l)] for _ in range(rng.randint(1, 4))]
    args = [rng.choice([list, list, tuple])(P(q) for q in w) for w in vs_]
    r = sumvecs(*args)
    mon.check('sumvecs', len(r) == l, 'length')
    mon.close('sumvecs', f64(val(q, env) for q in r), f64(sum(ev(w[p], env) for w in vs_) for p in range(l)), rtol=1e-10, atol=1e-11)
    mon.check('arguments_kept', all([str(q) for q in x] == [str(P(q)) for q in y] for x, y in zip(args, vs_)), 'sum')
    mon.check('rejected', fails(sumvecs, list(args[0]) + [tab['a']], *args[:1]), 'vectors of different sizes')


def run_helpers(spec, mon):
    from pyphs.misc import tools as T
    rng = random.Random(spec['seed'])
    for _ in range(20):
        n = rng.randint(1, 8)
        i, j = rng.randrange(n), rng.randrange(n)
        ref = list(range(n))
        ref.insert(j, ref.pop(i))
        got = T.myrange(n, i, j)
        mon.check('helpers', list(got) == ref, lambda: 'myrange(%d, %d, %d) = %s' % (n, i, j, got))
        l = [rng.randint(0, 5) for _ in range(rng.randint(0, 12))]
        k = rng.randint(1, 5)
        mon.check('helpers', T.decimate(iter(l), k) == l[::k], 'decimate')
        seen = []
        for e in l:
            if e not in seen:
                seen.append(e)
        mon.check('helpers', T.remove_duplicates(l) == seen, 'remove_duplicates')
        m = [rng.randint(0, 5) for _ in l]
        got = T.interleave(l, m)
        mon.check('helpers', got == [q for p in range(len(l)) for q in (l[p], m[p])], 'interleave')
        pool = [sympy.Symbol('s%d' % q) for q in range(6)]
        rng.shuffle(pool)
        sub = rng.sample(pool, rng.randint(0, 6))
        args, inds = T.find(set(sub) if rng.random() < 0.5 else sub, pool)
        ref = [q for q in range(6) if pool[q] in sub]
        mon.check('helpers', list(inds) == ref and list(args) == [pool[q] for q in ref], 'find')

        def nest(d):
            if d == 0 or rng.random() < 0.4:
                return rng.choice(['ab', 'c', 'R1', 'x'])
            return [nest(d - 1) for _ in range(rng.randint(0, 3))]

        def flat(o):
            return [o] if isinstance(o, str) else [q for p in o for q in flat(p)]
        o = nest(3)
        rem = rng.choice([None, ['c'], ['ab', 'x']])
        got = T.get_strings(o) if rem is None else T.get_strings(o, remove=rem)
        mon.check('helpers', got == [q for q in flat(o) if q not in (rem or [])], lambda: 'get_strings(%s) = %s' % (o, got))
