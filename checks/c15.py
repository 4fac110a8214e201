# -*- coding: utf-8 -*-
"""C15: recorded data are stored and returned faithfully."""
import os
import random
import numpy as np
import h5py
import vh
import gen as G
import simlib

PROPERTY = 'C15'
LEVEL = 'exploration'
RULE = ('random systems x length of the run around and above the internal chunk of 1024 '
        'samples x form of the inputs (array, list, tuples, 1-D, generator, longer than nt) x '
        'recorded variables x random slices, components, windows in samples and seconds; the '
        'same steps are computed with a separate Numeric object and every reader is compared '
        'with them bit by bit; the chunked writer is also driven directly; distinct by spec hash, '
        'non-trivial when a record was compared')
REQUIRED = ['inputs_stored', 'record', 'length', 'slice', 'component', 'window', 'twindow', 'time',
            'derived_slice', 'E', 'pd', 'ps', 'dtE', 'deltaH', 'stack', 'observers', 'reopen',
            'writer', 'raw_file', 'refused', 'long']
COUNT = {'quick': 85, 'thorough': 2000}
CASE_TIMEOUT = 200


def directed():
    out = []
    rng = random.Random(5)
    for nt, form in ((1, 'array'), (2, 'list'), (1023, 'array'), (1024, 'list'), (1025, 'array'),
                     (2048, 'generator'), (2049, 'tuple'), (2500, 'longer'), (1030, 'longer'), (30, 'longer')):
        s = sim(rng, 0, 'quick', long=nt > 100)
        s.update(nt=nt, form=form)
        out.append(s)
    return out


def sim(rng, i, tier, long=False):
    # long runs are linear: no iterations
    s = simlib.gen_sim(rng, nx=(1, 3), nw=(0, 2), ny=(0, 2), np_=(0, 2), obs=0.5, zdep=0.1,
                       statedep=0.15, nlprob=0.35) if not long else \
        simlib.gen_sim(rng, nx=(1, 2), nw=(0, 1), ny=(1, 2), np_=(0, 1), obs=0., zdep=0.,
                       statedep=0., nl=False, coupled=False)
    if long:
        s.update(grad='theta', theta=0.5, split=True)
    s['kind'] = 'sim'
    s['nt'] = rng.choice([1, 2, 3, 7, 20, 20, 33, 50, 50, 64, 100])
    if long:
        s['nt'] = rng.choice([1023, 1024, 1025, 2047, 2048, 2049, 3100])
    s['mode'] = rng.choice(['sin', 'noise'])
    s['form'] = rng.choice(['array', 'list', 'tuple', 'rows', 'generator', '1d', '1dlist', 'longer',
                            'noinput', 'int'])
    s['dnames'] = rng.choice([None, None, None, 'shuffle', 'subset'])
    s['fs'] = rng.choice([500., 1000., 8000., 44100., 22050., 48000, 3000.])
    s['seed'] = rng.randint(0, 10**6)
    return s


def gen(rng, i, tier):
    if i % 4 == 3:
        n, m = rng.choice([1, 2, 5, 17, 60]), rng.randint(1, 5)
        return {'kind': 'writer', 'n': n, 'm': m, 'chunk': rng.choice([1, 2, 3, 7, n, n+1, 1024]),
                'seed': rng.randint(0, 10**6), 'it': rng.choice(['array', 'list', 'generator'])}
    return sim(rng, i, tier, long=tier == 'thorough' and i % 11 == 0)


def run(spec, mon):
    if spec['kind'] == 'writer':
        return writer(spec, mon)
    return simulation(spec, mon)


# --------------------------------------------------------------------------- #

def rslice(rng, n, neg=True):
    """a random slice of range(n), not empty"""
    for _ in range(50):
        a = rng.choice([None, rng.randint(0, n-1), rng.randint(-n, -1) if neg else 0])
        b = rng.choice([None, rng.randint(1, n), rng.randint(-n, -1) if neg else n,
                        n + 3 if neg else n])
        c = rng.choice([None, 1, 1, 2, 3, 5])
        if len(range(n)[slice(a, b, c)]):
            return slice(a, b, c)
    return slice(None)


def writer(spec, mon):
    from pyphs.numerics.simulations.h5data.tools import set_dataset_from_iterable as put
    rng = random.Random(spec['seed'])
    n, m = spec['n'], spec['m']
    for k in range(4):
        rs = None if k == 0 else rslice(rng, n, False)
        cs = None if rng.random() < 0.4 else rslice(rng, m, False)
        if k == 1 and rs is not None:
            rs = slice(rs.start or 0, rs.stop if rs.stop is not None else n, rs.step)
        if cs is not None and rng.random() < 0.5:
            cs = slice(cs.start or 0, cs.stop if cs.stop is not None else m, cs.step)
        rows = range(n)[rs] if rs is not None else range(n)
        cols = range(m)[cs] if cs is not None else range(m)
        data = np.array([[1000.*i + j + rng.random() for j in range(len(cols))] for i in range(len(rows))])
        extra = rng.choice([0, 0, 3]) if rs is not None else 0
        src = np.vstack([data, np.full((extra, len(cols)), -7.)]) if extra else data
        it = {'array': lambda: src, 'list': lambda: [list(r) for r in src],
              'generator': lambda: (r for r in src)}[spec['it']]()
        expect = np.full((n, m), -1.)
        expect[np.ix_(list(rows), list(cols))] = data
        with h5py.File(os.path.join(mon.dir, 'w%d.h5' % k), 'w') as f:
            d = f.create_dataset('d', data=np.full((n, m), -1.), maxshape=(None, m))
            put(d, it, rs, cs, chunksize=spec['chunk'])
            got = d[...]
        mon.check('writer', np.array_equal(got, expect), lambda: 'rows %r columns %r chunk %r of %r: %r != %r' % (
            rs, cs, spec['chunk'], (n, m), got.tolist(), expect.tolist()))
    mon.key(('writer', spec['chunk'] >= n))


# --------------------------------------------------------------------------- #

def given(form, cols, names, nt, rng):
    """(object given to init, expected array) for the inputs 'names'"""
    a = np.array([[cols[s][i] for s in names] for i in range(nt)]).reshape(nt, len(names))
    if not names:
        return None, a
    if form == 'noinput':
        return None, np.zeros_like(a)
    if form == 'int':
        a = np.round(3*a)
        return [[int(v) for v in r] for r in a], a
    if form == 'list':
        return a.tolist(), a
    if form == 'tuple':
        return tuple(tuple(r) for r in a.tolist()), a
    if form == 'rows':
        return [np.array(r) for r in a], a
    if form == 'generator':
        return (np.array(r) for r in a), a
    if form == 'longer':
        b = np.vstack([a, rng.random()*np.ones((rng.choice([1, 5, 1500]), a.shape[1]))])
        return (b if rng.random() < 0.5 else b.tolist()), a
    if form in ('1d', '1dlist') and len(names) == 1:
        return (a[:, 0] if form == '1d' else a[:, 0].tolist()), a
    return a, a


def simulation(spec, mon):
    rng = random.Random(spec['seed'])
    nt, fs = spec['nt'], spec['fs']
    core = G.build_core(spec['core'], 'sys')
    cfg = simlib.config(spec)
    names = ['x', 'dx', 'dxH', 'w', 'z', 'y']
    if spec['dnames'] == 'shuffle':
        rng.shuffle(names)
    elif spec['dnames'] == 'subset':
        names = rng.sample(names, rng.randint(1, 5))
    if spec['dnames']:
        cfg['dnames'] = tuple(names)
    method = core.to_method(config={k: cfg[k] for k in ('grad', 'theta', 'split')})
    inits = {'x': [spec['x0'][str(x)] for x in method.x]}
    sig = simlib.signals(spec)
    U, P = [str(s) for s in method.u], [str(s) for s in method.p]
    gu, u = given(spec['form'], sig, U, nt, rng)
    gp, p = given(spec['form'], sig, P, nt, rng)
    nums = core.to_method(config={k: cfg[k] for k in ('grad', 'theta', 'split')}).to_numeric(
        inits=inits, config={'fs': fs})
    exp = {n: [] for n in names}
    for i in range(nt):
        nums.update(u=u[i], p=p[i])
        for n in names:
            exp[n].append(np.array(getattr(nums, n)(), dtype=float).ravel())
    dims = {'x': len(method.x), 'w': len(method.w), 'y': len(U), 'u': len(U), 'p': len(P)}
    dims.update(dx=dims['x'], dxH=dims['x'], z=dims['w'])
    exp = {n: np.array(v).reshape(nt, dims[n]) for n, v in exp.items()}
    if not all(np.isfinite(v).all() for v in exp.values()):
        mon.seen('diverged')
        return
    exp.update(u=u, p=p)

    simu = method.to_simulation(config=cfg, inits=inits)
    giveN = spec['form'] in ('longer', 'generator', 'noinput') or not (U or P) or rng.random() < 0.4
    simu.init(u=gu, p=gp, nt=nt if giveN or (gu is None and gp is None) else None)
    d = simu.data
    mon.check('length', int(d.nt) == nt, lambda: 'nt %r' % d.nt)
    for n, a in (('u', u), ('p', p)):
        got = np.array(d[n])
        mon.check('inputs_stored', np.array_equal(got.reshape(-1, dims[n])if dims[n] else a, a),
                  lambda: '%s given as %s: stored %r..., expected %r...' % (n, spec['form'], got[:4].tolist(), a[:4].tolist()))
    simu.process()
    if nt > 1024:
        mon.seen('long')
    mon.key((spec['form'], min(nt, 1025) if nt > 1000 else nt > 1, spec['dnames'], dims['x'], dims['w'], dims['u']))

    # --- the file itself ---
    path = os.path.join(cfg['path'], 'data', 'results.h5')
    if os.path.exists(path):
        with h5py.File(path, 'r') as f:
            if 'global' in f and all(n in f for n in exp):
                for n in exp:
                    i0, i1 = [int(v) for v in f[n].attrs['inds']]
                    raw = f['global'][:, i0:i1]
                    mon.check('raw_file', np.array_equal(raw, exp[n]), lambda: '%s in the file' % n)
            else:
                mon.seen('raw_file')
    else:
        mon.seen('raw_file')

    # --- readers ---
    for n in exp:
        readers(d, n, exp[n], nt, rng, mon, exact=True)
    t = np.arange(nt)/fs
    mon.check('time', same(d.t(), t), lambda: 't() %r' % d.t()[:5])
    full = {'t': t}

    # --- derived signals ---
    if spec['dnames'] != 'subset':
        full.update(derived(spec, d, exp, nt, fs, simu, mon))
        for n, a in full.items():
            readers(d, n, a, nt, rng, mon, exact=False)
    windows(d, exp, full, nt, fs, rng, mon, spec)

    # --- the same file opened by another simulation ---
    if rng.random() < 0.4 or nt > 1000:
        m2 = core.to_method(config={k: cfg[k] for k in ('grad', 'theta', 'split')})
        s2 = m2.to_simulation(config=cfg, inits=inits, erase=False)
        mon.check('reopen', int(s2.data.nt) == nt and all(
            np.array_equal(np.array(s2.data[n]).reshape(nt, -1), exp[n]) for n in exp if dims[n]),
            lambda: 'record read again with erase=False')


def same(a, b, tol=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= tol*(1 + np.abs(b))))


def eq(a, b, exact):
    a = np.asarray(a, dtype=float)
    if a.size == 0 and b.size == 0:
        return a.shape[0] == b.shape[0]
    return np.array_equal(a, b) if exact else same(a, b)


# signals whose expression is compiled at each reading
SLOW = ('E', 'pd', 'o', 'args_o')


def readers(d, n, a, nt, rng, mon, exact):
    m = 'slice' if exact else 'derived_slice'
    if n in SLOW:
        s = rng.choice([rslice(rng, nt), rslice(rng, nt), rng.randrange(nt), -1])
        ref = a[s] if isinstance(s, slice) else a[s:][:1]
        got = d[n, s] if rng.random() < 0.5 else getattr(d, n)(tslice=s)
        mon.check(m, eq(got, ref, exact), lambda: '%s[%r], %d samples: %r expected %r' % (
            n, s, nt, np.asarray(got).tolist()[:3], ref.tolist()[:3]))
        if a.ndim == 2:
            j = rng.choice([rng.randrange(a.shape[1]), -1])
            got = getattr(d, n)(tslice=s, vslice=j)
            mon.check('component', eq(got, ref[:, j], exact), lambda: '%s[%r, %d]: %r expected %r' % (
                n, s, j, np.asarray(got).tolist()[:3], ref[:, j].tolist()[:3]))
        return
    mon.check('record' if exact else m, eq(d[n], a, exact), lambda: 'data[%r]: %r expected %r' % (
        n, np.asarray(d[n]).tolist()[:3], a.tolist()[:3]))
    for _ in range(3):
        s = rslice(rng, nt)
        for how in ('getitem', 'reader'):
            got = d[n, s] if how == 'getitem' else getattr(d, n)(tslice=s)
            mon.check(m, eq(got, a[s], exact), lambda: '%s of %s[%r], %d samples: %r expected %r' % (
                how, n, s, nt, np.asarray(got).tolist()[:3], a[s].tolist()[:3]))
    k = rng.randrange(nt)
    got = d[n, k]
    mon.check(m, eq(np.asarray(got).ravel(), a[k].ravel(), exact),
              lambda: '%s[%d]: %r expected %r' % (n, k, np.asarray(got).tolist(), a[k].tolist()))
    if nt > 1:
        got = d[n, -1]
        mon.check(m, eq(np.asarray(got).ravel(), a[-1].ravel(), exact), lambda: '%s[-1]: %r expected %r' % (
            n, np.asarray(got).tolist(), a[-1].tolist()))
    got = getattr(d, n)(postprocess=lambda v: 2*v)
    mon.check(m, eq(got, 2*a, exact), lambda: '%s postprocess' % n)
    if a.ndim == 2 and a.shape[1]:
        w = a.shape[1]
        j = rng.randrange(w)
        s = rslice(rng, nt)
        got = d[n, s, j]
        mon.check('component', eq(got, a[s, j], exact), lambda: '%s[%r, %d]: %r expected %r' % (
            n, s, j, np.asarray(got).tolist()[:3], a[s, j].tolist()[:3]))
        got = d[n, s, -1]
        mon.check('component', eq(got, a[s, -1], exact), lambda: '%s[%r, -1]: %r expected %r' % (
            n, s, np.asarray(got).tolist()[:3], a[s, -1].tolist()[:3]))
        v = rslice(rng, w)
        got = getattr(d, n)(tslice=s, vslice=v)
        mon.check('component', eq(got, a[s, v], exact), lambda: '%s[%r, %r] of %d components: %r expected %r' % (
            n, s, v, w, np.asarray(got).tolist()[:3], a[s, v].tolist()[:3]))
        if exact:
            try:
                got = d[n, s, w]
            except Exception:
                mon.seen('refused')
            else:
                mon.check('refused', False, '%s has %d components, component %d returned %r' % (
                    n, w, w, np.asarray(got).tolist()[:3]))


def derived(spec, d, exp, nt, fs, simu, mon):
    c = spec['core']
    m = G.Model(c)
    meth = simu.method
    X, W, U, P = ([str(s) for s in l] for l in (meth.x, meth.w, meth.u, meth.p))
    out = {}
    E, O, obs = [], [], []
    for i in range(nt):
        env = dict(zip(X, exp['x'][i]))
        env.update(zip(W, exp['w'][i]))
        env.update(zip(U, exp['u'][i]))
        env.update(zip(P, exp['p'][i]))
        env.update(('d'+s, v) for s, v in zip(X, exp['dx'][i]))
        ob = {k: f(env) for k, f in m.obs}
        O.append([ob[str(k)] for k in meth.observers])
        env.update(ob)
        E.append(m.H(env))
    E = np.array(E)
    O = np.array(O).reshape(nt, len(meth.observers))
    out['E'] = E
    mon.check('E', same(d.E(), E, 1e-10), lambda: 'E %r expected %r' % (d.E()[:3], E[:3]))
    mon.check('observers', same(np.asarray(d.o()).reshape(nt, -1) if O.shape[1] else O, O, 1e-10), lambda: 'observers %r expected %r' % (
        np.asarray(d.o())[:3], O[:3]))
    dtx = exp['dx']*fs
    out['dtx'] = dtx
    ps = (exp['u']*exp['y']).sum(1)
    out['ps'] = ps
    mon.check('ps', same(d.ps(), ps, 1e-11), lambda: 'ps %r expected %r' % (d.ps()[:3], ps[:3]))
    pd = np.asarray(d.pd())
    if not c['R']:
        ref = (exp['w']*exp['z']).sum(1)
        mag = 1 + np.abs(exp['w']*exp['z']).sum(1)
        mon.check('pd', pd.shape == ref.shape and bool(np.all(np.abs(pd - ref) <= 1e-8*mag)),
                  lambda: 'pd %r expected %r' % (pd[:3], ref[:3]))
    out['pd'] = pd
    dE = (exp['dxH']*dtx).sum(1)
    out['dtE'] = dE
    mon.check('dtE', same(d.dtE(), dE, 1e-11), lambda: 'dtE %r expected %r' % (d.dtE()[:3], dE[:3]))
    # (H[i+1] - H[i])*fs
    if nt > 2:
        rng = random.Random(spec['seed'] + 1)
        ref = np.diff(E)*fs
        for s in (slice(None), rslice(rng, nt)):
            idx = np.array(range(nt)[s])
            got = np.asarray(d.dtE(tslice=s, DtE='deltaH'))
            k = idx < nt-1
            tol = 1e-13*fs*(1 + np.abs(E).max())
            mon.check('deltaH', got.shape == idx.shape and bool(np.all(
                np.abs(got[k] - ref[idx[k]]) <= tol)), lambda: 'variation of energy over %r: %r expected %r' % (
                    s, got[:4].tolist(), ref[idx[k]][:4].tolist()))
    args = np.hstack([exp[n] for n in ('x', 'dx', 'w', 'u', 'p')])
    out['args'] = args
    out['args_o'] = np.hstack([args, O])
    out['a'] = np.hstack([exp[n] for n in ('dxH', 'z', 'u')])
    out['b'] = np.hstack([dtx, exp['w'], exp['y']])
    for n in ('args', 'args_o', 'a', 'b'):
        mon.check('stack', same(d[n], out[n]), lambda: '%s %r expected %r' % (n, d[n][:2], out[n][:2]))
    if O.shape[1]:
        out['o'] = O
    return out


def windows(d, exp, full, nt, fs, rng, mon, spec):
    if nt < 3:
        return
    for k in range(3):
        a = rng.randrange(nt-1)
        b = rng.randint(a+1, nt)
        st = rng.choice([1, 2, 3])
        d.start = None
        d.stop = None
        d.step = None
        which = 'window'
        if k == 0:
            d.start, d.stop, d.step = a, b, st
        else:
            which = 'twindow'
            # on the time of a sample, or between two of them
            off = 0. if k == 1 else 0.4/fs
            if b < nt or off == 0.:
                d.tstop = (b-1)/fs + off if k == 1 else float(full['t'][b-1]) + off
            else:
                d.tstop = None
            d.tstart = float(full['t'][a]) + (off if a < b-1 else 0.)
            d.step = st
        s = slice(a, b, st)
        mon.check('time', same(d.t(), full['t'][s]), lambda: 'times of the window %r (%s): %r... expected %r...' % (
            s, which, d.t()[:3].tolist(), full['t'][s][:3].tolist()))
        for n in exp:
            got = d[n]
            mon.check(which, eq(got, exp[n][s], True), lambda: '%s in window %r (fs=%r): %d samples %r expected %d %r' % (
                n, s, fs, len(got), np.asarray(got).tolist()[:2], len(exp[n][s]), exp[n][s].tolist()[:2]))
        slow = [n for n in full if n in SLOW]
        for n in [n for n in full if n not in SLOW] + rng.sample(slow, min(1, len(slow))):
            got = np.asarray(d[n])
            mon.check(which, got.shape[0] == len(full[n][s]) and eq(got, full[n][s], False),
                      lambda: '%s in window %r: %r expected %r' % (n, s, got.tolist()[:2], full[n][s].tolist()[:2]))
    d.tstart = None
    d.tstop = None
    d.step = None
    for n in exp:
        mon.check('twindow', eq(d[n], exp[n], True), lambda: '%s after the window is removed' % n)
