# -*- coding: utf-8 -*-
"""C17: simulations are reproducible and isolated from each other."""
import copy
import os
import random
import subprocess
import sys
import json
import numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vh
import gen as G
import simlib

PROPERTY = 'C17'
LEVEL = 'exploration'
RULE = ('random histories of creating systems, methods and simulations (a method may be shared), '
        'initialising them with new inputs, initial values, parameters and options, running and '
        'reading them in any order; every record is compared with the one of a fresh object made '
        'from a freshly built system with the accumulated settings, before and after the other '
        'objects have run; one history is replayed in another process; distinct by spec hash, '
        'non-trivial when two runs or more were compared')
REQUIRED = ['fresh', 'repeat', 'isolated', 'core_untouched', 'args_untouched', 'reinit_inits',
            'reinit_config', 'reinit_subs', 'shared_method', 'reading_options', 'process_twin', 'energy',
            'numeric_pair', 'refused_key']
COUNT = {'quick': 45, 'thorough': 1200}
CASE_TIMEOUT = 240
ASSUMPTIONS = ['records of differently built but equal systems are compared up to 1e-7 relative '
               '(form of the symbolic expressions); records of the same object bit by bit']


def directed():
    rng = random.Random(77)
    out = []
    for k in range(3):
        s = gen(rng, 0, 'quick')
        s['kind'] = 'process'
        out.append(s)
    return out


CONF = {'fs': [1000., 2000., 8000.], 'grad': ['discret', 'theta', 'trapez'], 'theta': [0., 0.5],
        'split': [True, False], 'maxit': [40, 100], 'eps': [1e-12, 1e-11]}


def gen(rng, i, tier):
    n = rng.choice([1, 1, 2])
    cores = [G.gen_core(rng, nx=(1, 2), nw=(0, 2), ny=(0, 2), np_=(0, 1), obs=0.3, zdep=0.1,
                        statedep=0.2, nlprob=0.3, psubs=0.8) for _ in range(n)]
    ops = []
    ns = rng.choice([1, 2, 2, 3])
    for k in range(ns):
        c = rng.randrange(n)
        cfg = {k_: rng.choice(v) for k_, v in CONF.items() if rng.random() < 0.7}
        same = [o for o in ops if o['core'] == c and o['via'] == 'method']
        ops.append({'op': 'new', 'core': c, 'via': rng.choice(['core', 'method', 'method']),
                    'share': bool(same) and rng.random() < 0.7, 'config': cfg,
                    'inits': rng.random() < 0.6, 'seed': rng.randint(0, 10**6)})
    rng2 = list(range(ns))
    for k in rng2:
        ops.append(run_op(rng, k, first=True))
    for _ in range(rng.randint(2, 4)):
        r = rng.random()
        if r < 0.25:
            ops.append({'op': 'read', 'sim': rng.randrange(ns), 'seed': rng.randint(0, 10**6)})
        else:
            ops.append(run_op(rng, rng.randrange(ns)))
    for k in rng2:
        ops.append({'op': 'read', 'sim': k, 'seed': rng.randint(0, 10**6)})
    return {'kind': 'history', 'cores': cores, 'ops': ops}


def run_op(rng, k, first=False):
    o = {'op': 'run', 'sim': k, 'nt': rng.choice([3, 8, 12]), 'seed': rng.randint(0, 10**6),
         'inits': False, 'config': {}, 'subs': False, 'repeat': rng.random() < 0.5}
    if not first or rng.random() < 0.3:
        o['inits'] = rng.random() < 0.4
        o['subs'] = rng.random() < 0.4
        if rng.random() < 0.45:
            ks = rng.sample(sorted(CONF), rng.randint(1, 2))
            o['config'] = {c: rng.choice(CONF[c]) for c in ks}
    return o


# --------------------------------------------------------------------------- #

def snapshot(core):
    """values of everything the user declared, in order"""
    s = {}
    for n in ('x', 'w', 'u', 'y', 'p', 'cu', 'cy', 'z', 'bl'):
        s[n] = [str(v) for v in getattr(core, n)]
    s['H'] = str(core.H)
    s['M'] = str(core.M)
    s['subs'] = sorted((str(k), str(v)) for k, v in core.subs.items())
    s['obs'] = [(str(k), str(v)) for k, v in core.observers.items()]
    s['dims'] = [core.dims.x(), core.dims.w(), core.dims.y(), core.dims.p(), core.dims.cy(),
                 core.dims.xl(), core.dims.wl()]
    s['label'] = core.label
    return s


def values(rng, n):
    return [round(rng.uniform(0.2, 1.1)*rng.choice([-1, 1]), 3) for _ in range(n)]


def inputs(seed, nt, nu, npar):
    r = random.Random(seed)
    u = [[round(r.uniform(-1, 1), 4) for _ in range(nu)] for _ in range(nt)]
    p = [[round(r.uniform(0.1, 0.6), 4) for _ in range(npar)] for _ in range(nt)]
    a = r.random() < 0.5
    return (np.array(u) if a else u) if nu else None, (np.array(p) if a else p) if npar else None


def record(simu):
    d = simu.data
    out = {n: np.array(d[n, slice(0, None, 1)]) for n in ('u', 'p', 'x', 'dx', 'dxH', 'w', 'z', 'y')}
    out['E'] = np.array(d.E(tslice=slice(0, None, 1)))
    out['t'] = np.array(d.t(tslice=slice(0, None, 1)))
    return out


def exact(a, b):
    return set(a) == set(b) and all(np.array_equal(a[k], b[k], equal_nan=True) for k in a)


def diff(a, b):
    for k in a:
        if a[k].shape != b[k].shape:
            return '%s has shape %r, expected %r' % (k, a[k].shape, b[k].shape)
        if not np.array_equal(a[k], b[k], equal_nan=True):
            return '%s: %r expected %r' % (k, a[k].tolist()[:4], b[k].tolist()[:4])
    return 'keys'


def bounded(a, lim=1e4):
    return all(np.isfinite(v).all() and (np.abs(v) < lim).all() for v in a.values())


def close(a, b, tol=1e-7):
    for k in a:
        if a[k].shape != b[k].shape:
            return False
        s = np.abs(b[k]).max(initial=0.)
        if not np.all(np.abs(a[k] - b[k]) <= tol*(1 + s)):
            return False
    return True


def plain(obj):
    """content of the user's arguments, to be compared later"""
    if isinstance(obj, np.ndarray):
        return ('array', obj.tolist())
    if isinstance(obj, dict):
        return {str(k): plain(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [plain(v) for v in obj]
    return obj


def some_inits(r, nx, old):
    """one or two initial vectors, some of them unchanged, in any order"""
    names = r.choice([['x'], ['x', 'dx'], ['dx', 'x']])
    out = {q: [0.1*v for v in values(r, nx)] if q == 'dx' else values(r, nx) for q in names}
    same = [q for q in names if q in old]
    if same and len(names) > 1 and r.random() < 0.6:
        q = r.choice(same)
        out[q] = copy.deepcopy(old[q])
    return out


def history(spec, where, mon, light=False):
    """runs the ops with the real objects; yields (k, run number, record, settings)"""
    cores = [G.build_core(c, 'sys%d' % i) for i, c in enumerate(spec['cores'])]
    snaps = [snapshot(c) for c in cores]
    sims, settings, shared, last, out = [], [], {}, {}, []
    for n, o in enumerate(spec['ops']):
        r = random.Random(o['seed'])
        if o['op'] == 'new':
            c = cores[o['core']]
            path = os.path.join(where, 'sim%d' % n)
            os.makedirs(path)
            cfg = dict(o['config'])
            cfg.update(path=path, lang='python', pbar=False)
            inits = some_inits(r, len(spec['cores'][o['core']]['x']), {}) if o['inits'] else None
            cfg0, in0 = plain(cfg), plain(inits)
            if o['via'] == 'core':
                s = c.to_simulation(config=cfg, inits=inits)
            else:
                if o['core'] in shared and o['share']:
                    m = shared[o['core']]
                    if mon:
                        mon.seen('shared_method')
                else:
                    m = c.to_method()
                    shared.setdefault(o['core'], m)
                s = m.to_simulation(config=cfg, inits=inits)
            if mon:
                mon.check('args_untouched', plain(cfg) == cfg0 and plain(inits) == in0,
                          lambda: 'creation changed its arguments: %r -> %r, %r -> %r' % (cfg0, plain(cfg), in0, plain(inits)))
            sims.append(s)
            settings.append({'core': o['core'], 'config': dict(o['config']),
                             'inits': copy.deepcopy(inits), 'subs': {}})
        elif o['op'] == 'run':
            k = o['sim']
            s, st = sims[k], settings[k]
            cs = spec['cores'][st['core']]
            u, p = inputs(o['seed'], o['nt'], len(cs['u']), len(cs['p']))
            kw = {}
            if o['inits']:
                kw['inits'] = some_inits(r, len(cs['x']), st['inits'] or {})
                st['inits'] = dict(st['inits'] or {}, **copy.deepcopy(kw['inits']))
            if o['config']:
                kw['config'] = dict(o['config'])
                st['config'] = dict(st['config'], **o['config'])
            names = sorted(q for q, v in cs['subs'].items() if not isinstance(v, str))
            if o['subs'] and names:
                ch = r.sample(names, r.randint(1, len(names)))
                new = {q: round(cs['subs'][q]*r.choice([0.5, 1.5, 2.]), 5) for q in ch}
                kw['subs'] = {cores[st['core']].symbols(q): v for q, v in new.items()}
                st['subs'] = dict(st['subs'], **new)
            before = plain([u, p, kw])
            s.init(u=u, p=p, nt=o['nt'], **kw)
            s.process()
            rec = record(s)
            if mon:
                mon.check('args_untouched', plain([u, p, kw]) == before,
                          lambda: 'init changed its arguments: %r -> %r' % (before, plain([u, p, kw])))
                if o['repeat']:
                    s.init(u=u, p=p, nt=o['nt'])
                    s.process()
                    again = record(s)
                    mon.check('repeat', exact(again, rec), lambda: 'op %d: same simulation initialised and run again: %s' % (n, diff(again, rec)))
                for q in kw:
                    mon.seen('reinit_' + q)
            last[k] = (rec, n, copy.deepcopy(st), o)
            out.append((k, rec, copy.deepcopy(st), o, n))
        else:
            k = o['sim']
            if mon and k in last:
                s = sims[k]
                rec, m, st, o2 = last[k]
                now = record(s)
                mon.check('isolated', exact(now, rec), lambda: 'record of op %d read at op %d: %s' % (m, n, diff(now, rec)))
                options(sims, last, k, r, mon)
    if mon:
        for c, s in zip(cores, snaps):
            t = snapshot(c)
            mon.check('core_untouched', t == s, lambda: 'system changed: %r' % [(q, s[q], t[q]) for q in s if s[q] != t[q]])
    return out


def options(sims, last, k, r, mon):
    """reading options belong to one object"""
    s = sims[k]
    nt = int(s.data.nt)
    if nt < 4 or len(sims) < 2:
        return
    j = r.choice([q for q in range(len(sims)) if q != k])
    if j not in last:
        return
    other = sims[j].data
    a = (other.start, other.stop, other.step)
    s.data.start, s.data.stop, s.data.step = 1, nt-1, 2
    b = (other.start, other.stop, other.step)
    mon.check('reading_options', a == b and len(s.data.t()) == len(range(1, nt-1, 2)) and
              len(other['x']) == len(last[j][0]['x']),
              lambda: 'window of one simulation changed another: %r -> %r' % (a, b))
    s.data.start = s.data.stop = s.data.step = None


def fresh(spec, st, o, where):
    """record of a new object with the accumulated settings"""
    cs = copy.deepcopy(spec['cores'][st['core']])
    cs['subs'].update(st['subs'])
    core = G.build_core(cs, 'sys%d' % st['core'])
    cfg = dict(st['config'])
    cfg.update(path=where, lang='python', pbar=False)
    os.makedirs(where)
    s = core.to_simulation(config=cfg, inits=copy.deepcopy(st['inits']))
    u, p = inputs(o['seed'], o['nt'], len(cs['u']), len(cs['p']))
    s.init(u=u, p=p, nt=o['nt'])
    s.process()
    return record(s), s


def run(spec, mon):
    if spec['kind'] == 'process':
        return process(spec, mon)
    runs = history(spec, os.path.join(mon.dir, 'h'), mon)
    big = 0
    for i, (k, rec, st, o, n) in enumerate(runs):
        ref, s = fresh(spec, st, o, os.path.join(mon.dir, 'f%d' % i))
        if not bounded(ref):
            mon.seen('diverged')
            continue
        big += 1
        fsn = float(st['config'].get('fs', 48000.))
        mon.check('fresh', close(rec, ref), lambda: 'op %d, simulation %d with settings %r: %s' % (
            n, k, {q: v for q, v in st.items() if q != 'core'}, diff(rec, ref)))
        mon.check('energy', energy(spec, st, rec, s), lambda: 'op %d energy of the record with parameters %r: %r' % (
            n, st['subs'], rec['E'].tolist()[:3]))
        mon.check('time', np.allclose(rec['t'], np.arange(o['nt'])/fsn, rtol=1e-12, atol=0), lambda: 'times %r fs %r' % (rec['t'][:3], fsn))
    numeric_pair(spec, mon)
    if len(spec['ops']) % 3 == 0:
        refused(spec, mon)
    mon.key((len(spec['cores']), tuple(o['op'] for o in spec['ops']), big > 1))


def energy(spec, st, rec, simu):
    cs = copy.deepcopy(spec['cores'][st['core']])
    cs['subs'].update(st['subs'])
    m = G.Model(cs)
    X = [str(x) for x in simu.method.x]
    E = np.array([m.H(dict(zip(X, x))) for x in rec['x']])
    return close({'E': rec['E']}, {'E': E}, 1e-9)


def refused(spec, mon):
    """unknown options are refused"""
    core = G.build_core(spec['cores'][0], 'sys')
    path = os.path.join(mon.dir, 'bad')
    os.makedirs(path)
    try:
        core.to_simulation(config={'path': path, 'gradient': 'theta'})
    except Exception:
        mon.seen('refused_key')
    else:
        mon.check('refused_key', False, 'unknown option accepted')


def numeric_pair(spec, mon):
    """two numerical objects of one method are independent"""
    cs = spec['cores'][0]
    core = G.build_core(cs, 'sys')
    m = core.to_method()
    r = random.Random(spec['ops'][0]['seed'])
    a0, b0 = values(r, len(cs['x'])), values(r, len(cs['x']))
    us, ps = inputs(spec['ops'][0]['seed'], 6, len(cs['u']), len(cs['p']))
    step = lambda n, i: n.update(u=np.array(us[i]) if us is not None else None,
                                 p=np.array(ps[i]) if ps is not None else None)
    get = lambda n: np.concatenate([np.ravel(getattr(n, q)()) for q in ('x', 'dx', 'w', 'y')])
    ref = {}
    for name, x0, fs in (('a', a0, 1000.), ('b', b0, 8000.)):
        n = core.to_method().to_numeric(inits={'x': x0}, config={'fs': fs})
        ref[name] = []
        for i in range(6):
            step(n, i)
            ref[name].append(get(n).copy())
    A = m.to_numeric(inits={'x': a0}, config={'fs': 1000.})
    B = m.to_numeric(inits={'x': b0}, config={'fs': 8000.})
    got = {'a': [], 'b': []}
    ia = ib = 0
    while ia < 6 or ib < 6:
        if ib >= 6 or (ia < 6 and r.random() < 0.5):
            step(A, ia)
            got['a'].append(get(A).copy())
            ia += 1
        else:
            step(B, ib)
            got['b'].append(get(B).copy())
            ib += 1
    for q in 'ab':
        x, y = np.array(got[q]), np.array(ref[q])
        if np.isfinite(y).all() and (np.abs(y) < 1e4).all():
            mon.check('numeric_pair', close({'v': x}, {'v': y}), lambda: 'interleaved numerical objects: %r expected %r' % (
                x[:2].tolist(), y[:2].tolist()))


def process(spec, mon):
    """the same history in this process and in a fresh one"""
    spec = dict(spec, kind='history')
    runs = history(spec, os.path.join(mon.dir, 'h'), None)
    f = os.path.join(mon.dir, 'spec.json')
    with open(f, 'w') as g:
        json.dump(spec, g)
    res = os.path.join(mon.dir, 'res.json')
    env = dict(os.environ, PYTHONHASHSEED=str(1000 + len(spec['ops'])))
    subprocess.run([sys.executable, '-W', 'ignore', os.path.abspath(__file__), f, os.path.join(mon.dir, 'other'), res], check=True,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, timeout=200)
    with open(res) as g:
        other = json.load(g)
    for (k, rec, st, o, n), oth in zip(runs, other):
        oth = {q: np.array(v) for q, v in oth.items()}
        if not bounded(rec):
            continue
        oth = {q: v.reshape(rec[q].shape) if v.size == rec[q].size else v for q, v in oth.items()}
        mon.check('process_twin', close(rec, oth), lambda: 'op %d in another process: %s' % (n, diff(oth, rec)))
    mon.key('process')


if __name__ == '__main__':
    vh.import_repo()
    with open(sys.argv[1]) as g_:
        spec_ = json.load(g_)
    os.makedirs(sys.argv[2])
    res_ = [{q: v.tolist() for q, v in rec_.items()} for _, rec_, _, _, _ in history(spec_, sys.argv[2], None)]
    with open(sys.argv[3], 'w') as g_:
        json.dump(res_, g_)
