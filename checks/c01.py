# -*- coding: utf-8 -*-
"""C01: discrete power balance and passivity of simulations."""
import os
import numpy as np
import vh
import simlib

PROPERTY = 'C01'
LEVEL = 'exploration'
RULE = ('random passive port-Hamiltonian cores and circuits read from netlists, '
        'simulated with the discrete-gradient method (and, for quadratic '
        'storage, with the energy-preserving mid-point variants); a case is '
        'non-trivial when the recorded power balance was evaluated on its steps; '
        'distinct by spec hash')
REQUIRED = ['balance', 'pd_nonnegative', 'energy_nonincreasing', 'E_is_H',
            'pd_definition', 'ps_definition', 'balance_circuit']
COUNT = {'quick': 110, 'thorough': 2500}
ASSUMPTIONS = ['trajectories that leave |values| < 1e6 are not judged',
               'rounding of difference quotients (1e-16*H/dx) is allowed for']

CIRCUITS = {
    'rlc': ["electronics.source in ('#', 'n1'): type=voltage;",
            "electronics.resistor R ('n1', 'n2'): R=('R', 1e3);",
            "electronics.inductor L ('n2', 'n3'): L=('L', 0.05);",
            "electronics.capacitor C ('n3', '#'): C=('C', 2e-06);"],
    'dlc': ["electronics.source out ('#', 'n1'): type=voltage;",
            "electronics.diode D ('n1', 'n2'): Is=('Is', 2e-6); mu=('mu', 1.7); v0=('v0', 0.026); R=('Rd', 0.5);",
            "electronics.inductor L ('n2', 'n3'): L=('L', 0.05);",
            "electronics.capacitor C ('n3', '#'): C=('C', 2e-06);"],
    'speaker': ["electronics.source IN ('A', '#'): type=voltage;",
                "electronics.resistor R ('A', 'B'): R=('R', 5.9);",
                "electronics.inductor L ('B', 'C'): L=('L', 2.36e-3);",
                "connectors.transformer T ('C', '#', 'D', '#'): alpha=('Bl', 16.37);",
                "mechanics.mass M ('D',): M=('M', 0.075);",
                "mechanics.stiffness K ('D', '#'): K=('K', 1e4);",
                "mechanics.damper A ('D', '#'): A=('A', 10.);"],
    'cubic': ["mechanics.source F ('D', '#'): type=force;",
              "mechanics.mass M ('D',): M=('M', 0.01);",
              "mechanics.springcubic K ('D', '#'): K0=('K0', 100.); K2=('K2', 10.);",
              "mechanics.damper A ('D', '#'): A=('A', 0.3);"],
}


def gen(rng, i, tier):
    if i % 8 == 7:
        name = rng.choice(sorted(CIRCUITS))
        return {'circuit': name, 'fs': rng.choice([20e3, 48e3, 96e3]),
                'amp': rng.choice([0.5, 2., 10.]), 'f': rng.choice([50., 220., 1000.]),
                'nt': rng.choice([150, 400]), 'split': rng.random() < 0.6,
                'mode': rng.choice(['sin', 'burst', 'noise']),
                'theta': rng.choice([0., 0.5]), 'inseed': rng.randint(0, 10**6)}
    kw = dict(nx=(1, 3), nw=(0, 3))
    if i % 5 == 1:
        kw.update(statedep=0.7, zdep=0.6)
    if i % 5 == 2:
        kw.update(resist=1.)
    if tier == 'thorough' and i % 3 == 0:
        kw.update(nx=(2, 5), nw=(1, 4), ny=(0, 3), np_=(0, 2))
    lin = i % 6 == 4
    if lin:
        kw.update(nl=False)
    s = simlib.gen_sim(rng, **kw)
    s['grad'] = 'discret'
    if lin:
        s['grad'] = rng.choice(['discret', 'theta', 'trapez'])
        if s['grad'] == 'theta':
            s['theta'] = 0.5
    s['nt'] = rng.choice([20, 40, 70])
    if i % 3 == 0:
        s['mode'] = 'zero'
    return s


def directed():
    return [{'circuit': n, 'fs': 48e3, 'amp': 2., 'f': 220., 'nt': 200,
             'split': b, 'mode': 'sin', 'theta': 0., 'inseed': 1}
            for n in sorted(CIRCUITS) for b in (True, False)]


def powers(d):
    T = slice(0, None, 1)
    return (np.array(d.dtE(tslice=T, DtE='deltaH')), np.array(d.dtE(tslice=T, DtE='DxhDtx')),
            np.array(d.pd(tslice=T)), np.array(d.ps(tslice=T)), np.array(d.E(tslice=T)))


def run(spec, mon):
    if 'circuit' in spec:
        return run_circuit(spec, mon)
    sch = simlib.Scheme(spec)
    simu = simlib.simulate(spec)
    rec = simlib.Record(simu)
    if not simlib.finite(rec):
        raise vh.Skip('diverging trajectory')
    d = simu.data
    dE, dE2, pd, ps, E = powers(d)
    nt, fs = spec['nt'], spec['fs']
    if not mon.check('shapes', all(a.shape == (nt,) for a in (dE, dE2, pd, ps, E)),
                     'shapes %s' % [a.shape for a in (dE, dE2, pd, ps, E)]):
        return
    X, W, U, Y = sch.X, sch.W, sch.U, sch.Y
    nx, nw = len(X), len(W)
    judged = 0
    zero = spec['mode'] == 'zero' or not U
    for n in range(nt):
        o = sch.step(rec, n)
        Hs = 1 + abs(o['H0']) + abs(o['H1'])
        if sch.jacnoise(o) > 1e-2:
            mon.seen('ill_conditioned_step')
            continue
        judged += 1
        z = rec.vec(['z:' + s for s in W], n)
        y = rec.vec(Y, n)
        a = np.concatenate([o['g'], z, o['u']])
        R = -(o['M'] + o['M'].T)/2
        noise = o['noise'].max(initial=0)*(1 + np.abs(o['M']).sum())
        # magnitude of the exchanged powers
        mag = (np.abs(o['g']*o['dx'])*fs).sum() + np.abs(o['w']*z).sum() + \
            np.abs(o['u']*y).sum() + np.abs(a).dot(np.abs(o['M'])).dot(np.abs(a))
        tol = 1e-9 + 2e-8*mag + 1e-15*100*Hs*fs + noise*(np.abs(a).sum() + np.abs(o['dx']).sum())
        dH = (o['H1'] - o['H0'])*fs
        mon.check('E_is_H', abs(E[n] - o['H0']) <= 1e-12*Hs, lambda: 'n=%d %r %r' % (n, E[n], o['H0']))
        mon.check('dtE_deltaH', abs(dE[n] - dH) <= tol, lambda: 'n=%d %r %r tol %r' % (n, dE[n], dH, tol))
        mon.check('dtE_DxhDtx', abs(dE2[n] - dH) <= tol, lambda: 'n=%d %r %r tol %r' % (n, dE2[n], dH, tol))
        pdo = o['w'].dot(z) + a.dot(R).dot(a)
        mon.check('pd_definition', abs(pd[n] - pdo) <= 1e-11*(1 + mag) + noise*np.abs(a).sum(),
                  lambda: 'n=%d recorded %r expected %r' % (n, pd[n], pdo))
        pso = o['u'].dot(y)
        mon.check('ps_definition', abs(ps[n] - pso) <= 1e-11*(1 + mag),
                  lambda: 'n=%d recorded %r expected %r' % (n, ps[n], pso))
        for nm, v in (('balance', dE[n]), ('balance_dxh', dE2[n])):
            bal = v + pd[n] + ps[n]
            mon.check(nm, abs(bal) <= tol, lambda: 'n=%d dtE=%r pd=%r ps=%r sum=%r tol=%r'
                      % (n, v, pd[n], ps[n], bal, tol))
        mon.maxdev['balance'] = max(mon.maxdev.get('balance', 0), abs(dE[n]+pd[n]+ps[n])/tol)
        mon.check('pd_nonnegative', pd[n] >= -tol, lambda: 'n=%d pd=%r' % (n, pd[n]))
        if zero and n + 1 < nt:
            mon.check('energy_nonincreasing', E[n+1] <= E[n] + tol/fs + 1e-13*Hs,
                      lambda: 'n=%d E %r -> %r' % (n, E[n], E[n+1]))
    mon.seen('steps_judged', judged)
    if not judged:
        raise vh.Skip('no well-conditioned step')
    mon.key('grad=%s theta=%s split=%s' % (spec['grad'], spec['theta'], spec['split']))
    mon.key('mode=%s' % spec['mode'])
    mon.key('R=%s' % bool(spec['core']['R']))
    m = simu.method
    mon.key('xl=%d mono=%d x=%d wl=%d w=%d' % (m.dims.xl(), m.dims.xnl_mono(), m.dims.x(),
                                              m.dims.wl(), m.dims.w()))
    mon.sample = {'E': E[:4].tolist(), 'pd': pd[:4].tolist(), 'ps': ps[:4].tolist()}


def circuit(name, folder):
    import pyphs
    path = os.path.join(folder, name + '.net')
    with open(path, 'w') as f:
        f.write('\n'.join(CIRCUITS[name]))
    return pyphs.Netlist(path).to_graph().to_core(label=name)


def run_circuit(spec, mon):
    import random
    core = circuit(spec['circuit'], mon.dir)
    m = core.to_method(config={'split': spec['split'], 'theta': spec['theta']})
    simu = m.to_simulation(config={'fs': spec['fs'], 'path': mon.dir, 'lang': 'python',
                                   'pbar': False, 'split': spec['split'], 'maxit': 400,
                                   'theta': spec['theta']})
    r = random.Random(spec['inseed'])
    t = np.arange(spec['nt'])/spec['fs']
    s = spec['amp']*np.sin(2*np.pi*spec['f']*t + 0.1)
    if spec['mode'] == 'burst':
        s = s*(t < t[-1]/2)
    elif spec['mode'] == 'noise':
        s = np.array([spec['amp']*r.uniform(-1, 1) for _ in t])
    simu.init(u=s[:, None], nt=spec['nt'])
    simu.process()
    d = simu.data
    dE, dE2, pd, ps, E = powers(d)
    mag = np.abs(dE).max() + np.abs(pd).max() + np.abs(ps).max()
    if not np.isfinite(mag) or mag > 1e9:
        raise vh.Skip('diverging')
    tol = 1e-6*mag + 1e-13*spec['fs']*(np.abs(E).max())
    bal = np.abs(dE + pd + ps)
    mon.check('balance_circuit', (bal <= tol).all(),
              lambda: 'max imbalance %r of %r tol %r' % (bal.max(), mag, tol))
    bal = np.abs(dE2 + pd + ps)
    mon.check('balance_circuit', (bal <= tol).all(),
              lambda: 'max imbalance (dxH.dtx) %r of %r tol %r' % (bal.max(), mag, tol))
    mon.check('circuit_pd_nonnegative', (pd >= -tol).all(), lambda: 'min pd %r' % pd.min())
    mon.seen('circuit_steps', spec['nt'])
    mon.maxdev['balance_circuit'] = float(bal.max()/tol)
    mon.key('circuit=%s split=%s' % (spec['circuit'], spec['split']))
    if spec['mode'] == 'burst':
        # nothing supplied any more: the stored energy cannot grow
        h = spec['nt']//2 + 2
        mon.check('circuit_energy_nonincreasing', (np.diff(E[h:]) <= tol/spec['fs']).all(),
                  'energy grows with zero input')
    mon.sample = {'E': E[-3:].tolist(), 'pd': pd[-3:].tolist(), 'ps': ps[-3:].tolist()}
