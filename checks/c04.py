# -*- coding: utf-8 -*-
"""C04: structure matrices stay consistent under every accessor."""
import numpy as np
import sympy
import vh
import gen as G

PROPERTY = 'C04'
LEVEL = 'exploration'
RULE = ('random histories of block writes (set_M.., set_J.., set_R.. on x, w, y, '
        'cy and on the linear/nonlinear sub-blocks, in several input formats, '
        'numeric and symbolic) on systems of random dimensions; a shadow matrix '
        'is updated by the documented meaning of each write and every accessor '
        'is compared after every write; non-trivial when at least one entry was '
        'written; distinct by spec hash')
REQUIRED = ['whole', 'J', 'R', 'block', 'declared', 'split_block']
COUNT = {'quick': 160, 'thorough': 4000}
ASSUMPTIONS = ['blocks written to the conservative (resistive) part on the diagonal '
               'are skew-symmetric (symmetric), as the interface requires']

NAMES = ('x', 'w', 'y', 'cy')
SUB = {'xl': 'x', 'xnl': 'x', 'wl': 'w', 'wnl': 'w'}


def gen(rng, i, tier):
    c = G.gen_core(rng, nx=(0, 4), nw=(0, 3), ny=(0, 3), ncy=(0, 1), np_=(0, 1))
    ops = []
    for k in range(rng.randint(3, 9)):
        part = rng.choice('MJR')
        if rng.random() < 0.3:
            a, b = rng.choice(list(SUB) + ['y', 'cy']), rng.choice(list(SUB) + ['y', 'cy'])
        else:
            a, b = rng.choice(NAMES), rng.choice(NAMES)
        ops.append([part, a, b, rng.randint(0, 10**6), rng.choice(['list', 'array', 'Matrix', 'Sparse'])])
    return {'core': c, 'ops': ops, 'split': rng.random() < 0.6, 'initM': rng.random() < 0.5,
            'one_by_one': rng.random() < 0.5}


def directed():
    return []


def declare(spec, core, mon):
    """declare the variables through the public interface"""
    c = spec['core']
    tab = G.symtab(c)
    s = core.symbols
    if spec['one_by_one']:
        for k, x in enumerate(c['x']):
            core.add_storages(s(x), G.parse(c['H'], tab) if k == 0 else sympy.sympify(0))
        for w, z in zip(c['w'], c['z']):
            core.add_dissipations(s(w), G.parse(z, tab))
        for u, y in zip(c['u'], c['y']):
            core.add_ports(s(u), s(y))
        for p in c['p']:
            core.add_parameters(s(p))
    else:
        xs = [s(x) for x in c['x']]
        keep = list(xs)
        core.add_storages(xs, G.parse(c['H'], tab) if xs else sympy.sympify(0))
        core.add_dissipations([s(w) for w in c['w']], [G.parse(z, tab) for z in c['z']])
        core.add_ports([s(u) for u in c['u']], [s(y) for y in c['y']])
        core.add_parameters([s(p) for p in c['p']])
        mon.check('declared', xs == keep, 'argument modified')
    core.cu += [s(u) for u in c['cu']]
    core.cy += [s(u) for u in c['cy']]
    st = lambda l: [str(e) for e in l]
    mon.check('declared', st(core.x) == c['x'] and st(core.w) == c['w'] and
              st(core.u) == c['u'] and st(core.y) == c['y'] and st(core.p) == c['p'],
              'lists of symbols')
    mon.check('declared', list(core.z) == [G.parse(z, tab) for z in c['z']], 'z')
    Hd = (G.parse(c['H'], tab) if c['x'] else 0) - core.H
    mon.check('declared', sympy.expand(Hd) == 0, 'H')
    d = core.dims
    mon.check('declared', (d.x(), d.w(), d.y(), d.cy(), d.p()) ==
              (len(c['x']), len(c['w']), len(c['y']), len(c['cy']), len(c['p'])) and
              d.tot() == len(c['x'] + c['w'] + c['y'] + c['cy']), 'dimensions')
    mon.check('declared', core.labels() == c['x'] + c['w'] + c['y'] + c['cy'], 'labels')
    mon.check('declared', [str(e) for e in core.dx()] == ['d' + x for x in c['x']], 'dx')


SYM = sympy.symbols('sA sB', real=True)
VAL = {SYM[0]: 0.731, SYM[1]: -1.27}


def matrix(rng, n, m, kind, sym=True):
    out = [[0]*m for _ in range(n)]
    for i in range(n):
        for j in range(m):
            r = rng.random()
            if r < 0.2:
                v = 0
            elif r < 0.6:
                v = rng.choice([1, -1, 2, 3])
            elif r < 0.8 or not sym:
                v = round(rng.uniform(-2, 2), 3)
            else:
                v = rng.choice(SYM)*rng.choice([1, 2, -1])
            out[i][j] = v
    if kind == 'skew':
        for i in range(n):
            out[i][i] = 0
            for j in range(i):
                out[i][j] = -out[j][i]
    if kind == 'sym':
        for i in range(n):
            for j in range(i):
                out[i][j] = out[j][i]
    return out


def num(M):
    M = sympy.Matrix(M)
    return np.array([[float(sympy.sympify(M[i, j]).subs(VAL)) for j in range(M.shape[1])]
                     for i in range(M.shape[0])], dtype=float).reshape(M.shape)


def run(spec, mon):
    import pyphs
    import random
    core = pyphs.Core('c04')
    declare(spec, core, mon)
    if spec['split']:
        core.init_M()
        core.linear_nonlinear()
    elif spec['initM']:
        core.init_M()
    d = core.dims
    n = d.tot()
    o = {'x': 0, 'w': d.x(), 'y': d.x() + d.w(), 'cy': d.x() + d.w() + d.y()}
    rg = {k: (o[k], o[k] + getattr(d, k)()) for k in NAMES}
    rg['xl'] = (0, d.xl())
    rg['xnl'] = (d.xl(), d.x())
    rg['wl'] = (o['w'], o['w'] + d.wl())
    rg['wnl'] = (o['w'] + d.wl(), o['w'] + d.w())
    for k, v in rg.items():
        mon.check('indices', tuple(getattr(core.inds, k)()) == v, '%s %s' % (k, getattr(core.inds, k)()))
    shadow = np.zeros((n, n))
    for part, a, b, seed, fmt in spec['ops']:
        if SUB.get(a, a) == SUB.get(b, b) and a != b and (a in NAMES or b in NAMES):
            continue    # overlapping blocks
        (i0, i1), (j0, j1) = rg[a], rg[b]
        if i1 == i0 or j1 == j0:
            continue
        r = random.Random(seed)
        kind = None
        if a == b:
            kind = {'J': 'skew', 'R': 'sym', 'M': None}[part]
        mat = matrix(r, i1 - i0, j1 - j0, kind, sym=fmt != 'array')
        v = num(mat)
        arg = {'list': mat, 'array': v, 'Matrix': sympy.Matrix(mat),
               'Sparse': sympy.SparseMatrix(mat)}[fmt]
        J, R = (shadow - shadow.T)/2, -(shadow + shadow.T)/2
        if part == 'M':
            shadow[i0:i1, j0:j1] = v
        else:
            if part == 'J':
                J[i0:i1, j0:j1] = v
                J[j0:j1, i0:i1] = -v.T
            else:
                R[i0:i1, j0:j1] = v
                R[j0:j1, i0:i1] = v.T
            shadow = J - R
        getattr(core, 'set_%s%s%s' % (part, a, b))(arg)
        what = 'after set_%s%s%s(%s)' % (part, a, b, fmt)
        mon.key('set_%s%s%s' % (part, a, b))
        M = num(core.M)
        mon.close('whole', M, shadow, 1e-12, 1e-12, what)
        Jn, Rn = num(core.J()), num(core.R())
        mon.close('J', Jn, (shadow - shadow.T)/2, 1e-12, 1e-12, what)
        mon.close('R', Rn, -(shadow + shadow.T)/2, 1e-12, 1e-12, what)
        mon.close('M=J-R', M, Jn - Rn, 1e-12, 1e-12, what)
    if not n:
        return
    if core.M.shape[0] != n:
        core.init_M()
    whole = {'M': shadow, 'J': (shadow - shadow.T)/2, 'R': -(shadow + shadow.T)/2}
    for part in 'MJR':
        for a in rg:
            for b in rg:
                (i0, i1), (j0, j1) = rg[a], rg[b]
                blk = getattr(core, part + a + b)()
                mon.close('block' if a in NAMES and b in NAMES else 'split_block',
                          num(blk), whole[part][i0:i1, j0:j1], 1e-12, 1e-12, part + a + b)
    mon.sample = {'M': str(core.M)[:300]}
