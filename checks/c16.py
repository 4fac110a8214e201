# -*- coding: utf-8 -*-
"""C16: numerical evaluation equals the symbolic expressions."""
import math
import random
import numpy as np
import sympy
import vh
import gen as G

PROPERTY = 'C16'
LEVEL = 'exploration'
RULE = ('random systems (observers, substitutions by numbers and by expressions, connectors, '
        'linear/nonlinear split) x every function and block of the structure x random points given '
        'as floats, integers, arrays, lists or sequences, x components; values are compared with an '
        'independent evaluation of the declared expressions; lambdify and the numerical object of a '
        'method (functions, operations, accessors) are compared in the same way; pairs of systems '
        'with the same names are evaluated alternately; distinct by spec hash, non-trivial when a '
        'compiled function was compared')
REQUIRED = ['H', 'dxH', 'z', 'o', 'M', 'J', 'R', 'block', 'args_order', 'vectorized', 'components',
            'lambdify_scalar', 'lambdify_vector', 'lambdify_matrix', 'lambdify_missing', 'shape',
            'numeric_func', 'numeric_op', 'numeric_arg', 'pair', 'integers', 'expr_subs', 'unchanged', 'split',
            'norm', 'constants']
COUNT = {'quick': 500, 'thorough': 8000}


def directed():
    return []


def gen(rng, i, tier):
    kind = ['eval', 'lambdify', 'numeric', 'eval', 'pair'][i % 5]
    kw = dict(nx=(1, 3), nw=(0, 3), ny=(0, 2), np_=(0, 2), obs=0.5, zdep=0.3, exprsubs=0.5, statedep=0.4,
              resist=0.4)
    if kind == 'eval':
        kw['ncy'] = (0, 1)
    if kind == 'numeric':
        kw.update(nx=(1, 2), nw=(0, 2))
    s = {'kind': kind, 'seed': rng.randint(0, 10**6), 'core': G.gen_core(rng, **kw)}
    if kind == 'eval' and i % 4 == 0:
        # observers that do not depend on anything
        o = s['core']['obs'] or {'oQ': ''}
        num = sorted(s['core']['subs']) + ['1.25', '-0.5']
        s['core']['obs'] = {k: '%s + 2' % rng.choice(num) for k in o}
    if kind == 'numeric':
        s.update(grad=rng.choice(['discret', 'theta', 'trapez']), theta=rng.choice([0., 0.5, 0.3]),
                 split=rng.random() < 0.6, fs=rng.choice([1000., 8000., 44100]))
    if kind == 'eval':
        s['split'] = rng.random() < 0.4
        s['names'] = rng.choice(['all', 'some', 'some', 'some'])
    return s


def run(spec, mon):
    mon.key(spec['kind'])
    globals()['run_' + spec['kind']](spec, mon)


# --------------------------------------------------------------------------- #

def point(rng, names, ints=False):
    if ints:
        return {n: rng.choice([-2, -1, 1, 2, 3]) for n in names}
    return {n: rng.choice([round(rng.uniform(-1.5, 1.5), 4), 0.25, -0.5]) for n in names}


def envs(c, m, rng, n, ints=False):
    out = []
    for _ in range(n):
        e = point(rng, c['x'] + ['d'+x for x in c['x']] + c['w'] + c['u'] + c['p'], ints)
        # observers are independent arguments of the functions
        e.update(point(rng, c['obs'], ints))
        out.append(e)
    return out


def near(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a-b) <= tol*(1+np.abs(b))))


def expected(core, c, m, name):
    """(kind, function of an environment) of the evaluation 'name' of a core"""
    X = [str(x) for x in core.x]
    W = [str(w) for w in core.w]
    ix = {s: i for i, s in enumerate(c['x'])}
    iw = {s: i for i, s in enumerate(c['w'])}
    nx, nw, ny = len(c['x']), len(c['w']), len(c['y'])
    rows = [ix[s] for s in X] + [nx + iw[s] for s in W] + list(range(nx+nw, m.n))
    if name == 'H':
        return lambda e: m.H(e)
    if name == 'dxH':
        return lambda e: np.array([m.gradH[ix[s]](e) for s in X])
    if name == 'z':
        return lambda e: np.array([m.z[iw[s]](e) for s in W])
    if name == 'o':
        ob = dict(m.obs)
        return lambda e: np.array([ob[str(k)](e) for k in core.observers])
    if name in ('x', 'w', 'u', 'p', 'dx'):
        l = {'x': X, 'w': W, 'u': [str(s) for s in core.u], 'p': [str(s) for s in core.p],
             'dx': ['d'+s for s in X]}[name]
        return lambda e: np.array([float(e[s]) for s in l])
    if name[0] in 'MJR':
        def mat(e):
            A = m.Mnum(e)[np.ix_(rows, rows)]
            return {'M': A, 'J': (A - A.T)/2, 'R': -(A + A.T)/2}[name[0]]
        if name in 'MJR':
            return mat
        xl, wl = core.dims.xl(), core.dims.wl()
        sl = {'x': (0, nx), 'xl': (0, xl), 'xnl': (xl, nx), 'w': (nx, nx+nw), 'wl': (nx, nx+wl),
              'wnl': (nx+wl, nx+nw), 'y': (nx+nw, nx+nw+ny), 'cy': (nx+nw+ny, m.n)}
        rest = name[1:]
        for a in sl:
            if rest.startswith(a) and rest[len(a):] in sl:
                b = rest[len(a):]
                return lambda e, a=a, b=b: mat(e)[slice(*sl[a]), slice(*sl[b])]
    return None


BLOCKS = [k+a+b for k in 'MJR' for a in ('x', 'w', 'y', 'xl', 'xnl', 'wl', 'wnl', 'cy')
          for b in ('x', 'w', 'y', 'xl', 'xnl', 'wl', 'wnl', 'cy')]


def feed(ev, name, env, how):
    args = [env[str(a)] for a in getattr(ev, name + '_args')]
    if how == 'np':
        args = [np.float64(a) for a in args]
    elif how == '0d':
        args = [np.array(a) for a in args]
    return getattr(ev, name)(*args)


def run_eval(spec, mon):
    rng = random.Random(spec['seed'])
    c = spec['core']
    core = G.build_core(c)
    if spec['split']:
        core.linear_nonlinear()
        mon.seen('split')
    m = G.Model(c)
    if any(isinstance(v, str) for v in c['subs'].values()):
        mon.seen('expr_subs')
    base = ['H', 'dxH', 'z', 'o', 'M', 'J', 'R', 'x', 'w', 'u', 'p', 'dx']
    if spec['names'] == 'all':
        names = base + rng.sample(BLOCKS, 12)
        before = str(core.M), str(core.H), str(core.z), str(dict(core.subs))
        ev = core.to_evaluation()
    else:
        names = rng.sample(base, 6) + rng.sample(BLOCKS, 5)
        if 'o' not in names:
            names.append('o')
        if 'dx' in names:
            names.remove('dx')
        before = str(core.M), str(core.H), str(core.z), str(dict(core.subs))
        ev = core.to_evaluation(names=names, vectorize=rng.random() < 0.7 or True)
    mon.check('unchanged', before == (str(core.M), str(core.H), str(core.z), str(dict(core.subs))),
              'evaluation changed the system')
    order = [str(s) for s in core.x] + ['d'+str(s) for s in core.x] + [str(s) for s in core.w + core.u + core.p] + \
        [str(s) for s in core.observers]
    for name in names:
        ref = expected(core, c, m, name)
        if ref is None or not hasattr(ev, name):
            continue
        args = [str(a) for a in getattr(ev, name+'_args')]
        inds = [int(i) for i in getattr(ev, name+'_inds')]
        mon.check('args_order', [order[i] for i in inds] == args and inds == sorted(inds) and len(set(inds)) == len(inds),
                  lambda: '%s: arguments %r, indices %r in %r' % (name, args, inds, order))
        tag = name if name in ('H', 'dxH', 'z', 'o', 'M', 'J', 'R') else 'block' if name in BLOCKS else 'symbols'
        E = envs(c, m, rng, 3)
        for env in E:
            how = rng.choice(['float', 'np', '0d'])
            got = feed(ev, name, env, how)
            r = ref(env)
            mon.check('shape', np.shape(got) == np.shape(r) or np.size(r) == 0,
                      lambda: '%s has shape %r, expected %r' % (name, np.shape(got), np.shape(r)))
            mon.check(tag, np.size(r) == np.size(got) == 0 or near(got, r), lambda: '%s at %r: %r expected %r' % (
                name, env, np.asarray(got).tolist(), np.asarray(r).tolist()))
        # integers
        env = envs(c, m, rng, 1, True)[0]
        got, r = feed(ev, name, env, 'int'), ref({k: float(v) for k, v in env.items()})
        mon.check('integers', np.size(r) == np.size(got) == 0 or near(got, r), lambda: '%s at integers %r: %r expected %r' % (
            name, env, np.asarray(got).tolist(), np.asarray(r).tolist()))
        # sequences
        r = np.array([ref(e) for e in E])
        if args and np.size(r):
            seq = [[e[a] for e in E] for a in args]
            if rng.random() < 0.5:
                seq = [np.array(s) for s in seq]
            got = getattr(ev, name)(*seq)
            got = np.array(tuple(got)) if not isinstance(got, np.ndarray) else got
            mon.check('vectorized', near(got, r), lambda: '%s over %d points: %r expected %r' % (name, len(E), got.tolist(), r.tolist()))
        if not args and np.size(r) and name not in BLOCKS + ['M', 'J', 'R']:
            # constants over a sequence of points
            pts = [0.1*k for k in range(rng.choice([1, 2, 5]))]
            for seq in (pts, np.array(pts)):
                got = np.asarray(getattr(ev, name)(seq))
                mon.check('constants', near(got, [ref(E[0])]*len(pts)), lambda: '%s constant, over %d points: %r' % (name, len(pts), got.tolist()))
    # components of vectors, without vectorization
    for name in rng.sample(['dxH', 'z', 'o', 'x'], 2):
        ref = expected(core, c, m, name)
        env = envs(c, m, rng, 1)[0]
        r = ref(env)
        if not len(r):
            continue
        j = rng.choice([rng.randrange(len(r)), slice(rng.randrange(len(r)), None), slice(None, None, 2), -1])
        for vec in (True, False):
            e2 = core.to_evaluation(names=[name], vslice=j, vectorize=vec)
            got = feed(e2, name, env, 'float')
            mon.check('components', near(got, r[j]), lambda: '%s[%r] vectorize=%r: %r expected %r' % (
                name, j, vec, np.asarray(got).tolist(), np.asarray(r[j]).tolist()))


# --------------------------------------------------------------------------- #

MATH = {'sin': math.sin}


def run_lambdify(spec, mon):
    from pyphs.numerics.tools import lambdify
    from pyphs.core.tools import types
    rng = random.Random(spec['seed'])
    c = spec['core']
    m = G.Model(c)
    tab = m.tab
    num = {}
    for k, v in c['subs'].items():
        if not isinstance(v, str):
            num[tab[k]] = v
    # expressions of the core with the parameters left as symbols
    exprs = [G.parse(c['H'], tab)] + [G.parse(z, tab) for z in c['z']] + [G.parse(v, tab) for _, _, v in c['J'][:3]]
    exprs = [e.subs({tab[k]: G.parse(v, tab) for k, v in c['subs'].items() if isinstance(v, str)}) for e in exprs]
    free = sorted(set().union(*[e.free_symbols for e in exprs]) - set(num), key=str)
    extra = [sympy.Symbol('unused%d' % i, real=True) for i in range(2)]
    args = free + rng.sample(extra, rng.randint(0, 2))
    rng.shuffle(args)
    env = {str(a): rng.choice([round(rng.uniform(-1.5, 1.5), 4), 1, -2]) for a in args}
    val = lambda e: float(sympy.sympify(e).subs(num).subs({a: env[str(a)] for a in args}).evalf(30))
    vals = [env[str(a)] for a in args]
    simplify = False
    e = exprs[0]
    got = lambdify(args, e, subs=num, simplify=simplify, theano=False)(*vals)
    mon.check('lambdify_scalar', near(got, val(e)) and got.dtype == np.float64, lambda: '%s at %r: %r expected %r' % (e, env, got, val(e)))
    n = rng.randint(1, len(exprs))
    v = [exprs[i] for i in rng.sample(range(len(exprs)), n)]
    vv = types.vector_types[0](v)
    keep = list(vv)
    got = lambdify(args, vv, subs=num, theano=False)(*vals)
    mon.check('lambdify_vector', near(got, [val(q) for q in v]), lambda: '%s at %r: %r' % (v, env, got))
    mon.check('unchanged', list(vv) == keep, 'lambdify changed the given vector')
    a, b = rng.choice([(1, 1), (1, 3), (2, 2), (3, 1), (2, 3)])
    ent = [[rng.choice(exprs + [0, 1, sympy.Rational(1, 3)]) for _ in range(b)] for _ in range(a)]
    M = types.matrix_types[0](ent)
    got = lambdify(args, M, subs=num, theano=False)(*vals)
    ref = [[val(q) for q in r] for r in ent]
    mon.check('lambdify_matrix', near(got, ref), lambda: '%s at %r: %r expected %r' % (ent, env, got, ref))
    mon.check('shape', np.shape(got) == (a, b), lambda: 'shape %r' % (np.shape(got),))
    drop = [s for s in e.free_symbols if s in free]
    if drop:
        less = [q for q in args if q != drop[0]]
        try:
            lambdify(less, e, subs=num, theano=False)
        except Exception:
            mon.seen('lambdify_missing')
        else:
            mon.check('lambdify_missing', False, 'symbol %s without a value accepted' % drop[0])
    from pyphs.numerics.tools._operators import norm
    w = [rng.uniform(-3, 3) for _ in range(rng.randint(1, 5))]
    mon.check('norm', near(norm(w), math.sqrt(sum(t*t for t in w))), lambda: 'norm of %r: %r' % (w, norm(w)))


# --------------------------------------------------------------------------- #

def optree(nums, op):
    """value of an operation, from the current values of the numerical object"""
    a = []
    for q in op.args:
        if hasattr(q, 'operation'):
            a.append(optree(nums, q))
        elif isinstance(q, str):
            a.append(np.array(getattr(nums, q)(), dtype=float))
        elif q is None:
            a.append(np.array([]))
        else:
            a.append(float(q))
    o = op.operation
    if o == 'add':
        return a[0] + a[1]
    if o == 'prod':
        return a[0]*a[1]
    if o == 'dot':
        if np.ndim(a[0]) == 2 and np.ndim(a[1]) == 1:
            return np.array([math.fsum(x*y for x, y in zip(row, a[1])) for row in a[0]])
        return np.matmul(a[0], a[1]) if np.ndim(a[0]) and np.ndim(a[1]) else a[0]*a[1]
    if o == 'inv':
        return np.linalg.solve(a[0], np.eye(len(a[0])))
    if o == 'div':
        return a[0]/a[1]
    if o == 'norm':
        return math.sqrt(math.fsum(float(x)**2 for x in np.ravel(a[0])))
    if o == 'copy':
        return a[0]
    raise KeyError(o)


def run_numeric(spec, mon):
    rng = random.Random(spec['seed'])
    c = spec['core']
    core = G.build_core(c)
    meth = core.to_method(config={'grad': spec['grad'], 'theta': spec['theta'], 'split': spec['split']})
    x0 = [round(rng.uniform(-1, 1), 3) for _ in meth.x]
    nums = meth.to_numeric(inits={'x': x0}, config={'fs': spec['fs']})
    mon.check('numeric_arg', near(nums.x(), x0), lambda: 'initial x %r instead of %r' % (nums.x(), x0))
    allargs = list(meth.args())
    subs = {k: v for k, v in meth.subs.items()}
    subs[meth.fs] = spec['fs']
    vals = np.array([round(rng.uniform(-1, 1), 3) or 0.1 for _ in allargs])
    # the arguments through the mutators, in random order
    todo = [n for n in ('x', 'dx', 'w', 'u', 'p', 'o') if hasattr(nums, 'set_' + n) and n in meth.args_names]
    rng.shuffle(todo)
    pos = {}
    i = 0
    for n, k in (('x', len(meth.x)), ('dx', len(meth.x)), ('w', len(meth.w)), ('u', len(meth.u)), ('p', len(meth.p)),
                 ('o', len(meth.observers))):
        pos[n] = (i, i+k)
        i += k
    for n in todo:
        getattr(nums, 'set_' + n)(vals[slice(*pos[n])])
    for n in ('x', 'dx', 'w', 'u', 'p', 'o'):
        if n not in todo:
            nums.args[slice(*pos[n])] = vals[slice(*pos[n])]
    mon.check('numeric_arg', near(nums.args, vals), lambda: 'arguments %r expected %r' % (nums.args, vals))
    for n in todo:
        mon.check('numeric_arg', near(getattr(nums, n)(), vals[slice(*pos[n])]), lambda: 'accessor of %s' % n)
    for l, n in (('xl', 'x'), ('xnl', 'x'), ('wl', 'w'), ('wnl', 'w'), ('dxl', 'dx'), ('dxnl', 'dx')):
        if l in meth.args_names:
            k = meth.dims.xl() if 'x' in l else meth.dims.wl()
            r = vals[slice(*pos[n])]
            r = r[:k] if not l.endswith('nl') else r[k:]
            mon.check('numeric_arg', near(getattr(nums, l)(), r), lambda: 'accessor of %s' % l)
    env = dict(zip(allargs, vals))
    num = dict(subs)

    def value(e):
        e = sympy.sympify(e)
        f = e.subs(num).xreplace({k: sympy.Float(v, 20) for k, v in env.items()})
        return complex(f.evalf(18)).real if not f.has(sympy.nan, sympy.zoo) else None
    names = [n for n in meth.funcs_names if hasattr(nums, n + '_eval')]
    for n in rng.sample(names, min(len(names), 5)):
        e = getattr(meth, n + '_expr')
        if hasattr(e, 'shape') and not isinstance(e, sympy.Expr):
            ref = [[value(e[i, j]) for j in range(e.shape[1])] for i in range(e.shape[0])]
            shape = tuple(e.shape)
        elif isinstance(e, (list, tuple)):
            ref = [value(q) for q in e]
            shape = (len(e),)
        else:
            ref = value(e)
            shape = ()
        if any(r is None for r in np.ravel(np.array(ref, dtype=object))):
            continue
        got = getattr(nums, n + '_eval')()
        ref = np.array(ref, dtype=float).reshape(shape)
        mon.check('numeric_func', np.size(ref) == np.size(got) == 0 or near(got, ref, 1e-7), lambda: '%s = %s: %r expected %r' % (
            n, str(e)[:200], np.asarray(got).tolist(), ref.tolist()))
        getattr(nums, 'set_' + n)(got)
        mon.check('numeric_func', near(getattr(nums, n)(), got), lambda: 'accessor of %s' % n)
    # one complete step, then operations on the current values
    nums.reset() if False else None
    nums2 = meth.to_numeric(inits={'x': x0}, config={'fs': spec['fs']})
    nums2.update(u=np.array([0.3]*len(meth.u)), p=np.array([0.4]*len(meth.p)))
    for n in meth.ops_names:
        if not hasattr(nums2, n + '_eval'):
            continue
        op = getattr(meth, n + '_op')
        try:
            ref = optree(nums2, op)
        except (KeyError, np.linalg.LinAlgError):
            continue
        got = np.asarray(getattr(nums2, n + '_eval')())
        if not np.isfinite(ref).all() or np.abs(ref).max(initial=0) > 1e8:
            continue
        mon.check('numeric_op', np.size(ref) == np.size(got) == 0 or near(got, ref, 1e-6), lambda: 'operation %s (%s): %r expected %r' % (
            n, op.operation, got.tolist(), np.asarray(ref).tolist()))


# --------------------------------------------------------------------------- #

def run_pair(spec, mon):
    """systems with the same symbols and different laws do not mix"""
    rng = random.Random(spec['seed'])
    a = spec['core']
    b = dict(a)
    b['H'] = '(%s)*3/2 + %s**2/7' % (a['H'], a['x'][0])
    b['z'] = ['2*(%s)' % z for z in a['z']]
    b['subs'] = {k: (v if isinstance(v, str) else round(v*1.7, 4)) for k, v in a['subs'].items()}
    b['J'] = [[i, j, '(%s)*5/4' % v] for i, j, v in a['J']]
    ca, cb = G.build_core(a, 'same'), G.build_core(b, 'same')
    ma, mb = G.Model(a), G.Model(b)
    names = ['H', 'dxH', 'z', 'M']
    ea = ca.to_evaluation(names=names)
    eb = cb.to_evaluation(names=names)
    for _ in range(4):
        env = envs(a, ma, rng, 1)[0]
        for n in names:
            for core, c, m, ev in rng.sample([(ca, a, ma, ea), (cb, b, mb, eb)], 2):
                got, ref = feed(ev, n, env, 'float'), expected(core, c, m, n)(env)
                mon.check('pair', np.size(ref) == np.size(got) == 0 or near(got, ref), lambda: '%s: %r expected %r' % (n, got, ref))
    # values of an evaluation are those of the system when it was built
    k = sorted(q for q, v in a['subs'].items() if not isinstance(v, str))
    env = envs(a, ma, rng, 1)[0]
    before = [np.array(feed(ea, n, env, 'float')) for n in names]
    for q in k:
        ca.subs[ca.symbols(q)] = 9.
    after = [np.array(feed(ea, n, env, 'float')) for n in names]
    mon.check('pair', all(np.array_equal(x, y) for x, y in zip(before, after)), 'built functions follow the system')
