# -*- coding: utf-8 -*-
"""Run simulations of generated systems and expose the records by name."""
from __future__ import division
import math
import os
import numpy as np
import gen

EPS = 2.3e-16


def gen_sim(rng, quick=True, **kw):
    """a random simulation: system + options + initial state + inputs"""
    core = gen.gen_core(rng, **kw)
    grad = rng.choice(['discret', 'discret', 'discret', 'theta', 'trapez'])
    theta = rng.choice([0., 0., 0.5, 0.5, 1., 0.25])
    return {'core': core, 'grad': grad, 'theta': theta,
            'split': rng.random() < 0.6,
            'fs': rng.choice([500., 1000., 2000., 8000.]),
            'nt': rng.choice([12, 20, 30]),
            'x0': {x: gen.rnd(rng, 0.2, 1.2)*rng.choice([-1, 1]) for x in core['x']},
            'amp': {u: gen.rnd(rng, 0.3, 1.5) for u in core['u']},
            'mode': rng.choice(['sin', 'sin', 'noise', 'step', 'zero']),
            'inkind': rng.choice(['array', 'list']),
            'inseed': rng.randint(0, 10**6)}


def signals(spec):
    """{name: samples} of the inputs and parameters of a spec"""
    import random
    r = random.Random(spec['inseed'])
    nt, fs = spec['nt'], spec['fs']
    out = {}
    for u in spec['core']['u']:
        a = spec['amp'][u]
        f = fs*r.uniform(0.01, 0.08)
        if spec['mode'] == 'sin':
            v = [a*math.sin(2*math.pi*f*i/fs + 0.3) for i in range(nt)]
        elif spec['mode'] == 'noise':
            v = [a*r.uniform(-1, 1) for i in range(nt)]
        elif spec['mode'] == 'step':
            v = [a if i >= nt//3 else -a/2 for i in range(nt)]
        else:
            v = [0.]*nt
        out[u] = v
    for p in spec['core']['p']:
        f = r.uniform(0.01, 0.05)
        out[p] = [0.4 + 0.3*math.sin(2*math.pi*f*i) for i in range(nt)]
    return out


def seqs(spec, method, sig=None):
    sig = sig or signals(spec)
    u = [[sig[str(s)][i] for s in method.u] for i in range(spec['nt'])]
    p = [[sig[str(s)][i] for s in method.p] for i in range(spec['nt'])]
    if spec.get('inkind') == 'array':
        u, p = np.array(u), np.array(p)
    return (u if method.u else None), (p if method.p else None)


def config(spec, **kw):
    c = {'path': os.getcwd(), 'fs': spec['fs'], 'grad': spec['grad'],
         'theta': spec['theta'], 'split': spec['split'], 'lang': 'python',
         'pbar': False}
    c.update(kw)
    return c


def simulate(spec, core=None, label='sys', **kw):
    """build, init and process; returns the simulation"""
    if core is None:
        core = gen.build_core(spec['core'], label)
    cfg = config(spec, **kw)
    mcfg = {k: cfg[k] for k in ('grad', 'theta', 'split')}
    method = core.to_method(config=mcfg)
    inits = {'x': [spec['x0'][str(x)] for x in method.x]}
    simu = method.to_simulation(config=cfg, inits=inits)
    # order of the states may only be relied on through simu.method
    u, p = seqs(spec, simu.method)
    simu.init(u=u, p=p, nt=spec['nt'])
    simu.process()
    return simu


class Record(object):
    """trajectory as {name: column}"""

    def __init__(self, simu):
        m = simu.method
        d = simu.data
        self.cols = {}
        self.raw = {}
        for kind, syms, pre in (('x', m.x, ''), ('dx', m.x, 'd'), ('dxH', m.x, 'g'),
                                ('w', m.w, ''), ('z', m.w, 'z:'),
                                ('u', m.u, ''), ('y', m.y, ''), ('p', m.p, '')):
            a = np.array(getattr(d, kind)(tslice=slice(0, None, 1)))
            self.raw[kind] = a
            if len(syms):
                a = a.reshape((-1, len(syms)))
                for j, s in enumerate(syms):
                    self.cols[pre + str(s)] = a[:, j]
        self.nt = int(d.nt)

    def vec(self, names, n):
        return np.array([self.cols[s][n] for s in names], dtype=float)


def vec(rec, names):
    if not names:
        return np.zeros((rec.nt, 0))
    return np.column_stack([rec.cols[s] for s in names])


class Scheme(object):
    """
    Independent statement of the numerical scheme, evaluated on a recorded
    trajectory.
    """

    def __init__(self, spec, model=None):
        self.spec = spec
        c = spec['core']
        self.c = c
        self.m = model or gen.Model(c)
        self.X, self.W = c['x'], c['w']
        self.U, self.Y, self.P = c['u'], c['y'], c['p']
        # observers depend on x, u, p only
        self.hascy = bool(c.get('cy'))

    def env(self, xs, w, u, p, g, obs=None):
        e = dict(zip(self.X, xs))
        e.update(zip(self.W, w))
        e.update(zip(self.U, u))
        e.update(zip(self.P, p))
        e.update(('g' + s, v) for s, v in zip(self.X, g))
        if obs is None:
            obs = dict((k, f(e)) for k, f in self.m.obs)
        e.update(obs)
        return e, obs

    def step(self, rec, n):
        """dict of the oracle's quantities for step n"""
        m = self.m
        x, dx = rec.vec(self.X, n), rec.vec(['d' + s for s in self.X], n)
        w, u = rec.vec(self.W, n), rec.vec(self.U, n)
        p = rec.vec(self.P, n)
        g = rec.vec(['g' + s for s in self.X], n)
        grad, th = self.spec['grad'], self.spec['theta']
        E = lambda xs: self.env(xs, w, u, p, g)[0]
        G = lambda xs: np.array(m.grad(E(xs)))
        H0, H1 = m.H(E(x)), m.H(E(x + dx))
        out = {'x': x, 'dx': dx, 'w': w, 'u': u, 'H0': H0, 'H1': H1, 'g': g}
        g0, g1, gm = G(x), G(x + dx), G(x + dx/2)
        if grad == 'theta':
            out['gref'] = G(x + th*dx)
            out['gtol'] = np.zeros(len(x))
        elif grad == 'trapez':
            out['gref'] = (g0 + g1)/2
            out['gtol'] = np.zeros(len(x))
        else:
            out['gref'] = gm
            s = np.abs(g0 + g1 - 2*gm)
            out['gtol'] = np.full(len(x), 1.5*np.sqrt((s**2).sum())
                                  if len(s) else 0.)
        # noise of difference quotients
        big = 1 + abs(H0) + abs(H1) + np.abs(x).max(initial=0)
        nz = np.abs(dx)
        noise = np.zeros(len(x))
        if grad == 'discret' and len(x):
            act = nz[nz > 1e-17]
            if len(act):
                noise[:] = 40*EPS*big/act.min()
        out['noise'] = noise
        # shifted point of the structure and the dissipation laws; observers
        # are held during the step
        _, obs = self.env(x, w, u, p, g)
        full = lambda xs: self.env(xs, w, u, p, g, obs=obs)[0]
        if grad == 'trapez':
            es = [full(x), full(x + dx)]
        else:
            es = [full(x + th*dx)]
        out['M'] = sum(m.Mnum(e) for e in es)/len(es)
        out['z'] = sum(np.array([f(e) for f in m.z]) for e in es)/len(es)
        return out

    def jacnoise(self, o):
        """estimated rounding noise of the Newton matrix, relative to fs"""
        nz = np.abs(o['dx'])
        act = nz[nz > 1e-17]
        if self.spec['grad'] != 'discret' or not len(act):
            return 0.
        big = 1 + abs(o['H0']) + abs(o['H1'])
        return EPS*big/act.min()**2*(1 + np.abs(o['M']).max(initial=0))/self.spec['fs']


def finite(rec):
    return all(np.isfinite(a).all() and (np.abs(a) < 1e6).all() for a in rec.raw.values())
