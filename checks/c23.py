# -*- coding: utf-8 -*-
"""C23: the generated Faust process describes one step of the method."""
import random
import re
import numpy as np
import sympy
import faustlib as F
import vh
import gen as G
import simlib

PROPERTY = 'C23'
LEVEL = 'exploration'
RULE = ('Faust programs are written by the real code for random systems; an independent reader of Faust types every block '
        '(numbers of inputs and outputs) and evaluates the blocks without memory; the step "iteration" is iterated sample '
        'after sample beside the simulation of the same system; distinct by spec hash, non-trivial when a step was compared')
REQUIRED = ['typed', 'step_w', 'step_dx', 'step_x', 'step_y', 'controls', 'constants', 'inits', 'rate', 'constant_input',
            'system_kept', 'mixed']
COUNT = {'quick': 40, 'thorough': 900}
CASE_TIMEOUT = 75
ASSUMPTIONS = ['no Faust compiler in the sandbox: the block algebra is read by lib/faustlib.py, recursions are typed and not run',
               'the Newton updates of the process have no step control: nIt = 25 iterations from the previous values']

DISS = ['{k}*{w}**3 + {w}', '{k}*{w}**3 + {w}/2', '{k}*{w}**5 + {w}', '{k}*sinh({w})']


def make(rng, nx=None, nw=None, ny=None, nlx=None, nlw=None, grad=None):
    """systems small enough for the symbolic inversion of the jacobian"""
    nx = rng.randint(0, 2) if nx is None else nx
    nw = rng.randint(0, 2) if nw is None else nw
    ny = rng.randint(1, 3) if ny is None else ny
    if nx + nw == 0:
        nw = 1
    nlx = (rng.random() < 0.3 if nx else False) if nlx is None else nlx
    grad = grad or (rng.choice(['theta', 'trapez']) if nlx else rng.choice(['discret', 'discret', 'theta', 'trapez']))
    nlw = (rng.random() < 0.5 if nw else False) if nlw is None else nlw
    if nlx and nlw:
        nlx = False
    split = nx + nw > 1 or rng.random() < 0.5
    if not split and grad == 'discret':
        grad = 'theta'
    if nx + nw > 3:
        nw = 1
    c = G.gen_core(rng, nx=(nx, nx), nw=(nw, nw), ny=(ny, ny), np_=(0, 1), nl=False, coupled=False, statedep=0., resist=0.2,
                   psubs=0.5, obs=0., zdep=0., density=0.7)
    if nlx:
        terms = c['H'].split(' + ')
        terms[0] = rng.choice(['0.3*{x}**4/4 + {x}**2/2', '{x}**2/2 + {x}**3/20']).format(x=c['x'][0])
        c['H'] = ' + '.join(terms)
    if nlw:
        k = rng.randrange(nw)
        c['z'][k] = rng.choice(DISS).format(k=round(rng.uniform(0.1, 0.5), 2), w=c['w'][k])
    s = {'core': c, 'grad': grad, 'theta': rng.choice([0., 0.5, 0.25]), 'split': split,
         'fs': rng.choice([1000., 8000.]), 'nt': 8, 'x0': {x: G.rnd(rng, -0.5, 0.5) for x in c['x']},
         'amp': {u: G.rnd(rng, 0.1, 0.6) for u in c['u']}, 'mode': 'sin', 'inkind': 'array', 'inseed': rng.randint(0, 10**6),
         'seed': rng.randint(0, 10**6)}
    return s


def directed():
    rng = random.Random(23)
    out = []
    for nx, nw, ny, nlx, nlw in ((1, 0, 1, False, False), (1, 1, 1, False, True), (2, 1, 1, False, True), (2, 1, 2, True, False),
                                 (2, 2, 2, False, True), (1, 2, 2, True, False), (0, 1, 2, False, True), (0, 2, 2, False, False),
                                 (2, 1, 3, True, False)):
        s = make(rng, nx, nw, ny, nlx, nlw)
        s['split'] = True
        out.append(s)
    return out


def gen(rng, i, tier):
    return make(rng)


def run(spec, mon):
    from pyphs import core2faustfx
    rng = random.Random(spec['seed'])
    core = G.build_core(spec['core'], 'sys')
    cfg = {'grad': spec['grad'], 'theta': spec['theta'], 'split': spec['split']}
    method = core.to_method(config=cfg)
    if any(sympy.sympify(e).has(sympy.Piecewise) for e in method.dxH()):
        raise vh.Skip('conditional gradients are printed as in C')
    X, W, U, Y, P = [[str(e) for e in getattr(method, n)] for n in ('x', 'w', 'u', 'y', 'p')]
    nx, nw, nu = len(X), len(W), len(U)
    before = (str(core.M), str(core.H), str(core.z), str(core.subs))
    # inputs of the process and constant inputs
    k = rng.randint(1, min(2, nu))
    audio = sorted(rng.sample(range(nu), k))
    const = {j: G.rnd(rng, -0.5, 0.5) for j in range(nu) if j not in audio}
    outs = rng.sample(range(nu), rng.choice([1, 1, min(2, nu)]))
    if not const and len(outs) == nu and nu == 1 and rng.random() < 0.5:
        kw = {}
        outs = [0]
    else:
        kw = {'inputs': tuple(U[j] if j in audio else const[j] for j in range(nu)), 'outputs': tuple(Y[j] for j in outs)}
    nIt = rng.choice([1, 25]) if not len(method.vnl()) else 25
    inits = {'x': [spec['x0'][x] for x in X]}
    if rng.random() < 0.5:
        inits['w'] = [G.rnd(rng, -0.1, 0.1) for _ in W]
    core2faustfx(core, config=cfg, path='t.dsp', inits=dict(inits), nIt=nIt, **kw)
    mon.check('system_kept', before == (str(core.M), str(core.H), str(core.z), str(core.subs)), 'the system has changed')
    text = open('t.dsp').read()
    pars = {p: G.rnd(rng, 0., 1.) for p in P}
    try:
        prog = F.Program(text, spec['fs'], pars)
        its = prog.box('iteration')
        shape = prog.box('recursion')[:2], prog.box('process')[:2]
    except F.FaustError as e:
        mon.check('typed', False, 'program refused: %s' % e)
        return
    mon.check('typed', shape == ((nu, len(outs)), (2, 2)) and its[0] == 2*nx + nw + nu and its[1] == 2*nx + nw + len(outs),
              lambda: 'recursion and process %s, iteration %s for %s' % (shape, its[:2], (nx, nw, nu, len(outs))))
    if nx and nw and 0 < len(method.vnl()) < nx + nw:
        mon.seen('mixed')
    mon.check('rate', prog.box('F_S')[2]([]) == [spec['fs']], 'sample rate')
    for s, v in spec['core']['subs'].items():
        if s in prog.defs:
            mon.check('constants', abs(prog.box(s)[2]([])[0] - v) <= 1e-12*abs(v), lambda: '%s = %r' % (s, v))
    for p in P:
        prog.box(p)
        sl = prog.sliders.get(p)
        mon.check('controls', sl is not None and sl[1] <= sl[0] <= sl[2], lambda: 'slider of %s: %s' % (p, sl))
    # initial values of the memories, from the first one (innermost)
    found = [float(v) for v in re.findall(r'prefix\(([-+.0-9e]+),', text)]
    want = list(inits.get('dx', [0.]*nx)) + list(inits.get('w', [0.]*nw)) + list(inits['x'])
    mon.check('inits', found == want, lambda: 'initial values %s expected %s' % (found, want))
    # constant inputs
    m = re.search(r'process = .*?:> *(.*?) *: *recursion', text)
    pre = F.Program('pre = %s;\n' % m.group(1) + re.search(r'(?s)// Constant Inputs\n(.*?)// Constant Parameters', text).group(1), 1.)
    b = pre.box('pre')
    sig = [rng.uniform(-1, 1) for _ in audio]
    mon.check('constant_input', b[0] == len(audio) and b[1] == nu, lambda: 'inputs %s -> %s' % (b[0], b[1]))
    got = b[2](list(sig))
    want = [sig[audio.index(j)] if j in audio else const[j] for j in range(nu)]
    mon.check('constant_input', got == want, lambda: 'inputs %s expected %s' % (got, want))

    # steps
    nums = core.to_method(config=cfg).to_numeric(inits=inits, config={'fs': spec['fs'], 'eps': 1e-13, 'maxit': 100})
    sigs = simlib.signals(spec)
    dx = list(inits.get('dx', [0.]*nx))
    w = list(inits.get('w', [0.]*nw))
    x = list(inits['x'])
    its = its[2]
    for n in range(spec['nt']):
        u = [const[j] if j in const else sigs[U[j]][n] for j in range(nu)]
        nums.update(u=u, p=[pars[p] for p in P])
        ref = {k: np.array(getattr(nums, k)(), dtype=float).ravel() for k in ('x', 'dx', 'w', 'y')}
        if not all(np.isfinite(v).all() and np.abs(v).max(initial=0) < 1e3 for v in ref.values()):
            raise vh.Skip('diverged')
        try:
            out = its([float(v) for v in dx + w + x + u])
        except (ZeroDivisionError, OverflowError, ValueError):
            raise vh.Skip('the updates of the process left their domain')
        if not np.isfinite(np.array(out, dtype=float)).all():
            raise vh.Skip('the updates of the process diverged')
        dx, w, x, y = out[:nx], out[nx:nx+nw], out[nx+nw:2*nx+nw], out[2*nx+nw:]
        tol = dict(rtol=1e-5, atol=1e-7)
        mon.close('step_w', w, ref['w'], **tol)
        mon.close('step_dx', dx, ref['dx'], **tol)
        mon.close('step_x', x, ref['x'] + ref['dx'], **tol)
        mon.close('step_y', y, ref['y'][outs], **tol)
    mon.key((nx, nw, nu, len(method.vnl()), spec['grad'], spec['split']))
