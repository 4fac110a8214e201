# -*- coding: utf-8 -*-
"""C02: every simulated step solves the selected numerical scheme."""
import numpy as np
import vh
import simlib

PROPERTY = 'C02'
LEVEL = 'exploration'
RULE = ('random port-Hamiltonian cores (1-3 states, 0-3 dissipations, 0-2 ports, '
        'parameters, observers, state/parameter dependent structure) x scheme '
        'options x inputs, simulated by the real code; a case is non-trivial '
        'when the trajectory is finite and the scheme residual was evaluated on '
        'its steps; distinct by spec hash')
REQUIRED = ['residual', 'chain', 'initial_state', 'inputs_recorded', 'gradient',
            'dissipation_law', 'split_independence']
COUNT = {'quick': 110, 'thorough': 2500}
ASSUMPTIONS = ['the oracle evaluates the equations of the scheme (documented in the '
               'Method configuration) from the JSON spec with sympy/float code of its own',
               'steps whose difference quotient is dominated by rounding are '
               'judged with a correspondingly wider tolerance']


def gen(rng, i, tier):
    kw = dict(gdep=0.15 if i % 4 == 0 else 0., nx=(1, 3), nw=(0, 3))
    if i % 5 == 1:
        kw.update(statedep=0.7, zdep=0.6)
    if i % 7 == 2:
        kw.update(nlprob=0.1)
    if tier == 'thorough' and i % 3 == 0:
        kw.update(nx=(2, 5), nw=(1, 4), ny=(0, 3), np_=(0, 2))
    s = simlib.gen_sim(rng, **kw)
    s['both'] = i % 3 == 0
    return s


def directed():
    return []


def check_record(spec, rec, mon, sch):
    nt = spec['nt']
    sig = simlib.signals(spec)
    X, W, U, Y = sch.X, sch.W, sch.U, sch.Y
    mon.check('length', rec.nt == nt, 'nt %s' % rec.nt)
    for s in U + sch.P:
        mon.close('inputs_recorded', rec.cols[s], sig[s], 0, 1e-15)
    for s in X:
        mon.close('initial_state', rec.cols[s][0], spec['x0'][s], 0, 1e-15)
        mon.close('chain', rec.cols[s][1:], rec.cols[s][:-1] + rec.cols['d'+s][:-1],
                  1e-14, 1e-14)
    fs = spec['fs']
    nx, nw = len(X), len(W)
    judged = 0
    for n in range(nt):
        o = sch.step(rec, n)
        if sch.jacnoise(o) > 1e-2:
            mon.seen('ill_conditioned_step')
            continue
        judged += 1
        noise = o['noise']
        tol = 1e-9 + noise + 1e-9*np.abs(o['gref']) + o['gtol']
        mon.check('gradient', (np.abs(o['g'] - o['gref']) <= tol).all(),
                  lambda: 'step %d recorded %s expected %s tol %s' %
                  (n, o['g'], o['gref'], tol))
        if spec['grad'] == 'discret':
            dH = o['H1'] - o['H0']
            mon.check('gradient_exact', abs(np.dot(o['g'], o['dx']) - dH) <=
                      1e-12*(1 + abs(o['H0']) + abs(o['H1'])),
                      lambda: 'step %d g.dx=%r dH=%r' % (n, np.dot(o['g'], o['dx']), dH))
        z = rec.vec(['z:' + s for s in W], n)
        mon.close('dissipation_law', z, o['z'], 1e-9, 1e-9 + noise.max(initial=0),
                  'step %d' % n)
        a = np.concatenate([o['g'], z, o['u']])
        b = np.concatenate([fs*o['dx'], o['w'], rec.vec(Y, n)])
        Ma = o['M'].dot(a)
        scale = np.abs(o['M']).dot(np.abs(a)) + np.abs(b)
        rtol = 1e-9 + 1e-8*scale + 10*noise.max(initial=0)*(1 + np.abs(o['M']).sum(axis=1))
        r = np.abs(b - Ma)
        mon.check('residual', (r <= rtol).all(),
                  lambda: 'step %d residual %s tol %s b=%s Ma=%s' % (n, r, rtol, b, Ma))
        mon.maxdev['residual'] = max(mon.maxdev.get('residual', 0), float((r/rtol).max(initial=0)))
    mon.seen('steps_judged', judged)
    return judged


def run(spec, mon):
    sch = simlib.Scheme(spec)
    simu = simlib.simulate(spec)
    rec = simlib.Record(simu)
    if not simlib.finite(rec):
        raise vh.Skip('diverging trajectory')
    if not check_record(spec, rec, mon, sch):
        raise vh.Skip('no well-conditioned step')
    c = spec['core']
    mon.key('grad=%s theta=%s split=%s' % (spec['grad'], spec['theta'], spec['split']))
    mon.key('dims %d %d %d' % (len(c['x']), len(c['w']), len(c['u'])))
    mon.key('lin x=%d w=%d' % (simu.method.dims.xl(), simu.method.dims.wl()))
    mon.sample = {'x': [rec.cols[s][:3].tolist() for s in c['x']]}
    if spec.get('both'):
        other = dict(spec, split=not spec['split'])
        rec2 = simlib.Record(simlib.simulate(other, label='other'))
        check_record(other, rec2, mon, sch)
        for s in c['x'] + c['w'] + c['y']:
            mon.close('split_independence', rec2.cols[s], rec.cols[s], 1e-5, 1e-6, s)

