# -*- coding: utf-8 -*-
"""C18: generated C++ computes the Python trajectory, memory-safely."""
import math
import os
import random
import re
import subprocess
import numpy as np
import vh
import gen as G
import simlib as L
import netlib as N

PROPERTY = 'C18'
LEVEL = 'exploration'
RULE = ('random systems (nonlinear, state-dependent, observers, substitutions by numbers and '
        'expressions, empty blocks) and networks of dictionary components x numerical options x '
        'initial values x inputs and parameter sequences x record layouts; the generated program is '
        'built by the real code with address and undefined-behaviour sanitizers, NaN-initialised '
        'matrices and active Eigen assertions, and its record is compared with the Python record; '
        'generated classes are driven through every accessor and mutator and compared with the '
        'Python numerical object; distinct by spec hash, non-trivial when a trajectory or an '
        'accessor was compared')
REQUIRED = ['trajectory', 'clean', 'normal_exit', 'layout', 'subs_changed', 'restart', 'accessor', 'mutator',
            'sample_rate', 'subs_list', 'network', 'fault_reported', 'caller_data', 'started',
            'two_objects', 'hostile_names']
COUNT = {'quick': 52, 'thorough': 900}
CASE_TIMEOUT = 240
ASSUMPTIONS = ['g++ 13, Eigen and HDF5 of the sandbox; leaks are not judged',
               'trajectories whose Python values are not finite or whose amplification of a 1e-13 '
               'perturbation of the initial state exceeds the tolerance are compared loosely']
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ('-fsanitize=address,undefined -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern '
         '-D_GLIBCXX_ASSERTIONS -include %s/lib/cppwatch.h' % HERE)


def directed():
    return [{'kind': 'fault', 'sim': sim(random.Random(5)), 'label': 'sysf'}]


def sim(rng, **kw):
    k = dict(nx=(0, 3), nw=(0, 2), ny=(0, 3), np_=(0, 2), obs=0.4, zdep=0.3, exprsubs=0.3, statedep=0.4, resist=0.4)
    k.update(kw)
    while True:
        s = L.gen_sim(rng, **k)
        if s['core']['x'] or s['core']['w']:
            break
    s['nt'] = rng.choice([1, 7, 15, 30])
    s['x0'] = {x: rng.uniform(0.2, 1.1)*rng.choice([-1, 1]) for x in s['core']['x']}
    return s


HOSTILE = ['x', 'w', 'u', 'y', 'p', 'z', 'o', 'm', 'v', 'i', 'value', 'index', 'args', 'subs', 'new', 'this', 'int', 'double',
           'float', 'vector', 'Matrix', 'update', 'parameters', 'exp', 'dxH', 'true', 'res', 'klass', 'std']


def rename(rng, s):
    """the same system, with symbols named as C++ keywords, methods or locals"""
    c = s['core']
    names = c['x'] + c['w'] + c['u'] + c['y'] + c['p'] + sorted(c['obs']) + sorted(c['subs'])
    pool = list(HOSTILE)
    rng.shuffle(pool)
    new = {}
    for n in names:
        if pool and rng.random() < 0.5:
            new[n] = pool.pop()
    for x in c['x']:
        if x in new:
            new['d' + x], new['g' + x] = 'd' + new[x], 'g' + new[x]

    def walk(o):
        if isinstance(o, str):
            return re.sub(r'[A-Za-z_]\w*', lambda t: new.get(t.group(), t.group()), o)
        if isinstance(o, list):
            return [walk(q) for q in o]
        if isinstance(o, dict):
            return {walk(k): walk(v) for k, v in o.items()}
        return o
    out = dict(s)
    for k in ('core', 'x0', 'amp'):
        v = s[k]
        if k == 'core':
            # keys of the specification are not symbols
            out[k] = {q: walk(r) for q, r in v.items()}
        else:
            out[k] = walk(v)
    return out


def gen(rng, i, tier):
    s = gen_(rng, i, tier)
    if 'sim' in s and rng.random() < 0.3:
        s['sim'] = rename(rng, s['sim'])
        s['hostile'] = True
    return s


def gen_(rng, i, tier):
    kind = ['simu', 'klass', 'simu', 'net', 'klass', 'simu', 'restart'][i % 7]
    if kind == 'net':
        return {'kind': kind, 'net': N.realizable_net(rng, nnodes=(1, 3), extra=(0, 2), nl=0.7, free=0.3, conn=0.2),
                'seed': rng.randint(0, 10**6), 'fs': rng.choice([8000., 44100.]), 'grad': rng.choice(['discret', 'theta']),
                'split': rng.random() < 0.6, 'nt': 25}
    s = {'kind': kind, 'seed': rng.randint(0, 10**6), 'label': rng.choice(['sysc', 'sysc', 'Mixed', 'sys_2'])}
    if kind == 'klass':
        s['sim'] = sim(rng, nx=(1, 3), ny=(0, 2))
    elif kind == 'restart':
        s['sim'] = sim(rng, nx=(1, 2), ny=(1, 2), psubs=1.)
        s['same'] = rng.random() < 0.5
    else:
        s['sim'] = sim(rng)
        s['layout'] = rng.random() < 0.4
        s['cfg'] = rng.choice([{}, {}, {'maxit': 3}, {'eps': 1e-8}, {'pbar': True}])
    return s


def run(spec, mon):
    mon.key(spec['kind'])
    if spec.get('hostile'):
        mon.seen('hostile_names')
    globals()['run_' + spec['kind']](spec, mon)


# --------------------------------------------------------------------------- #

class Watch(object):
    """environment of an instrumented program, and the verdict on its log"""

    def __init__(self, mon, fault=None):
        self.mon, self.fault = mon, fault
        self.log = os.path.join(mon.dir, 'watch.log')

    def __enter__(self):
        self.keep = dict(os.environ)
        if os.path.exists(self.log):
            os.remove(self.log)
        os.environ.update(CXX=os.path.join(HERE, 'lib', 'watchcxx'), CXXFLAGS=FLAGS, VERIF_CPP_LOG=self.log,
                          ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1',
                          UBSAN_OPTIONS='print_stacktrace=1')
        if self.fault is not None:
            os.environ['VERIF_CPP_FAULT'] = str(self.fault)
        return self

    def __exit__(self, *a):
        os.environ.clear()
        os.environ.update(self.keep)
        os.chdir(self.mon.dir)
        return False

    def verdict(self):
        mon = self.mon
        text = open(self.log, errors='replace').read() if os.path.exists(self.log) else ''
        mon.check('started', 'STARTED' in text, 'no program was run')
        bad = re.findall(r'[^\n]*(?:runtime error|ERROR: AddressSanitizer|EIGEN-ASSERTION|Assertion)[^\n]*', text)
        mon.check('clean', not bad, lambda: 'sanitizer: %s' % re.sub(r'0x[0-9a-f]+', 'ADDR', ' | '.join(bad[:3])).replace(mon.dir, ''))
        mon.check('normal_exit', 'NORMAL-EXIT' in text, lambda: 'program stopped abnormally: %s' % text[-400:])


def tolerance(mon, spec, ra, **kw):
    """deviation of the trajectory for a perturbed initial state"""
    p = dict(spec)
    p['x0'] = {k: v*(1 + 1e-12) for k, v in spec['x0'].items()}
    rb = L.Record(L.simulate(p, label='pert', **kw))
    return max([np.abs(ra.raw[k] - rb.raw[k]).max(initial=0)/(1e-12) for k in ra.raw] or [0])


def compare(mon, ra, rb, what, amp=None):
    scale = 1 + max(np.abs(v).max(initial=0) for v in ra.raw.values())
    for k in sorted(ra.raw):
        a, b = ra.raw[k], rb.raw[k]
        mon.check('trajectory', a.shape == b.shape, lambda: '%s: %s has shape %r instead of %r' % (what, k, b.shape, a.shape))
        if not a.size:
            continue
        d = np.abs(a - b).max(initial=0) if np.isfinite(b).all() else float('inf')
        tol = 1e-10*scale
        if d > tol and amp is not None and np.isfinite(d):
            # solver noise: difference quotients with small increments and
            # sensitive trajectories
            tol = max(tol, amp())
        if np.isfinite(d):
            mon.maxdev[k] = max(mon.maxdev.get(k, 0.), float(d/scale))
        mon.check('trajectory', d <= tol, lambda: '%s: %s deviates by %.3g (values up to %.3g), first at step %d' % (
            what, k, d, np.abs(a).max(), int(np.argmax(~(np.abs(a - b).reshape(len(a), -1).max(axis=1) <= tol)))))


def run_simu(spec, mon, cache={}):
    s = spec['sim']
    kw = dict(spec.get('cfg') or {})
    if spec.get('layout'):
        rng = random.Random(spec['seed'])
        l = ['x', 'dx', 'dxH', 'w', 'z', 'y']
        rng.shuffle(l)
        if rng.random() < 0.5:
            l.append('o')
        kw['dnames'] = tuple(l)
        mon.seen('layout')
    ra = L.Record(L.simulate(s, label='ref', **kw))
    if not L.finite(ra):
        mon.seen('diverged')
        return
    with Watch(mon) as w:
        b = L.simulate(s, label=spec['label'], lang='c++', **kw)
        rb = L.Record(b)
    w.verdict()
    compare(mon, ra, rb, 'simulation', amp(s, mon, ra, kw))


def amp(s, mon, ra, kw):
    def f():
        noise = 0.
        if s['grad'] == 'discret':
            dx = np.abs(ra.raw['dx'])
            small = dx[(dx > 1e-17)]
            if small.size:
                noise = 1e-15*(1 + np.abs(ra.raw['x']).max(initial=0))/small.min()
        mon.seen('sensitive')
        return 100*(noise + 1e-13)*(1 + tolerance(mon, s, ra, **{k: v for k, v in kw.items()}))
    return f


def run_fault(spec, mon):
    """a program that fails must not pass for a result"""
    s = spec['sim']
    raised = None
    with Watch(mon, fault=3) as w:
        try:
            L.simulate(s, label=spec['label'], lang='c++')
        except Exception as e:
            raised = e
    text = open(w.log).read() if os.path.exists(w.log) else ''
    mon.check('fault_reported', raised is not None and 'STARTED' in text,
              'the program failed (exit code 3) and the simulation was reported as done')


def run_restart(spec, mon):
    """parameters changed through init, and simulations run again"""
    s = spec['sim']
    rng = random.Random(spec['seed'])

    def both(f):
        a = f('ref', 'python')
        with Watch(mon) as w:
            b = f(spec['label'], 'c++')
        w.verdict()
        return a, b

    keys = sorted(k for k, v in s['core']['subs'].items() if not isinstance(v, str))
    new = {k: round(s['core']['subs'][k]*rng.uniform(0.5, 1.5), 4) for k in keys}
    sig2 = L.signals(dict(s, inseed=s['inseed'] + 1))

    def f(label, lang):
        core = G.build_core(s['core'], label)
        cfg = L.config(s, lang=lang)
        m = core.to_method(config={k: cfg[k] for k in ('grad', 'theta', 'split')})
        inits = {'x': [s['x0'][str(x)] for x in m.x]}
        keep = {k: list(v) for k, v in inits.items()}
        simu = m.to_simulation(config=cfg, inits=inits)
        u, p = L.seqs(s, simu.method)
        simu.init(u=u, p=p, nt=s['nt'], subs={core.symbols(k): v for k, v in new.items()} or None)
        simu.process()
        one = L.Record(simu)
        u, p = L.seqs(s, simu.method, sig2)
        simu.init(u=u, p=p, nt=s['nt'], inits=None if spec['same'] else {'x': [0.3 + 0.1*i for i, _ in enumerate(simu.method.x)]})
        simu.process()
        mon.check('caller_data', inits == keep, lambda: 'initial values of the caller changed: %r' % inits)
        return one, L.Record(simu)
    a, b = both(f)
    if not all(L.finite(r) for r in a):
        return
    loose = lambda: 1e-6
    mon.seen('subs_changed' if new else 'restart')
    compare(mon, a[0], b[0], 'parameters changed', loose)
    mon.seen('restart')
    compare(mon, a[1], b[1], 'run again', loose)


def run_net(spec, mon):
    """networks of dictionary components"""
    net = spec['net']
    rng = random.Random(spec['seed'])
    recs = []
    for label, lang in (('ref', 'python'), ('netc', 'c++')):
        g = N.make_graph(net['comps'], os.path.join(mon.dir, 'n.net'), 'lines', label)
        try:
            core = g.to_core()
        except Exception:
            mon.seen('refused')
            return
        core.label = label
        cfg = {'path': mon.dir, 'fs': spec['fs'], 'grad': spec['grad'], 'split': spec['split'], 'theta': 0.5 if spec['grad'] == 'theta' else 0.,
               'lang': lang, 'pbar': False, 'maxit': 100}
        w = Watch(mon)
        u = [[0.2*math.sin(0.2*i + j) for j, _ in enumerate(core.u)] for i in range(spec['nt'])]
        pp = [[net['free'][str(q)] for q in core.p] for i in range(spec['nt'])]
        with w:
            m = core.to_method(config={k: cfg[k] for k in ('grad', 'theta', 'split')})
            simu = m.to_simulation(config=cfg)
            simu.init(u=u if core.u else None, p=pp if core.p else None, nt=spec['nt'])
            simu.process()
            recs.append(L.Record(simu))
        if lang == 'python' and not L.finite(recs[0]):
            mon.seen('diverged')
            return
        if lang == 'c++':
            w.verdict()
    mon.seen('network')
    compare(mon, recs[0], recs[1], 'network %s' % [c['comp'] for c in net['comps']], lambda: 1e-6)


# --------------------------------------------------------------------------- #

def run_klass(spec, mon):
    """the generated class through its public accessors and mutators"""
    s = spec['sim']
    rng = random.Random(spec['seed'])
    core = G.build_core(s['core'], 'klass')
    mcfg = {k: s[k] for k in ('grad', 'theta', 'split')}
    meth = core.to_method(config=mcfg)
    x0 = [s['x0'][str(x)] for x in meth.x]
    inits = {'x': list(x0)}
    fs, fs2 = s['fs'], s['fs']*2
    path = os.path.join(mon.dir, 'klass')
    lists = [dict(meth.subs)] + [dict(meth.subs) for _ in range(rng.randint(0, 2))]
    if len(lists) > 1:
        mon.seen('subs_list')
    meth.to_cpp(objlabel='klass', path=path, inits=inits, config={'fs': fs}, subs=lists if len(lists) > 1 else None)
    mon.check('caller_data', inits == {'x': x0}, lambda: 'initial values of the caller changed: %r' % inits)
    nt = 4
    sig = L.signals(dict(s, nt=2*nt))
    val = lambda names, i: [sig[str(q)][i] for q in names]
    x1 = [rng.uniform(-0.5, 0.5) for _ in x0]
    # reference
    ref = []
    # results that take part in the update; others hold initial values
    names = [n for n in list(meth.args_names) + sorted(used(meth))]

    def grab(nums):
        out = {}
        for n in names:
            if hasattr(nums, n):
                out[n] = np.array(getattr(nums, n)(), dtype=float)
        return out
    nums = meth.to_numeric(inits={'x': list(x0)}, config={'fs': fs})
    for i in range(nt):
        if i == 2:
            nums.set_x(np.array(x1))
        nums.update(u=np.array(val(meth.u, i)), p=np.array(val(meth.p, i)))
        ref.append(grab(nums))
    nums = meth.to_numeric(inits={'x': list(x0)}, config={'fs': fs2})
    for i in range(nt, 2*nt):
        nums.update(u=np.array(val(meth.u, i)), p=np.array(val(meth.p, i)))
        ref.append(grab(nums))
    if not all(np.isfinite(v).all() and np.abs(v).max(initial=0) < 1e6 for r in ref for n, v in r.items()
               if n in ('x', 'dx', 'w', 'dxH', 'z', 'y')):
        mon.seen('diverged')
        return
    # driver
    lit = lambda v: repr(float(v))
    d = ['#include <cstdio>', '#include "core.cpp"', '#include "parameters.cpp"',
         'template<class T> void show(const char *n, const T &m) { printf("%s", n); for (int j = 0; j < m.cols(); j++) '
         'for (int i = 0; i < m.rows(); i++) printf(" %.17g", double(m(i, j))); printf("\\n"); }',
         'void show(const char *n, const std::vector<double> &m) { printf("%s", n); for (size_t i = 0; i < m.size(); i++) '
         'printf(" %.17g", m[i]); printf("\\n"); }',
         'void show(const char *n, const double &m) { printf("%s %.17g\\n", n, m); }']
    shape = {n: np.shape(v) for n, v in ref[0].items()}

    def setter(n, v):
        how = rng.choice(['vector', 'matrix', 'element'])
        mon.seen('mutator')
        mon.key(how)
        if how == 'vector':
            return 'k.set_%s(std::vector<double>{%s});' % (n, ', '.join(map(lit, v)))
        if how == 'matrix':
            return '{ Matrix<double, %d, 1> m; %s k.set_%s(m); }' % (len(v), ' '.join('m(%d, 0) = %s;' % (i, lit(q)) for i, q in enumerate(v)), n)
        return ' '.join('{ unsigned int i = %d; k.set_%s(%s, i); }' % (i, n, lit(q)) for i, q in enumerate(v))
    d.append('int main() { KLASS k;')
    plan = []
    for i in range(2*nt):
        if i == 2:
            d.append(setter('x', x1))
        if i == nt:
            d.append(rng.choice(['{ float f = %s; k.set_sampleRate(f); }', '{ double f = %s; k.set_sampleRate(f); }']) % lit(fs2))
        if meth.u:
            d.append(setter('u', val(meth.u, i)))
        if meth.p:
            d.append(setter('p', val(meth.p, i)))
        d.append('k.update();')
        for n in sorted(ref[i]):
            v = ref[i][n]
            if not v.size:
                continue
            forms = ['%s()']
            if len(shape[n]) == 1:
                forms.append('%s_vector()')
            f = rng.choice(forms) % n
            tag = 'S%d.%s' % (i, n)
            d.append('show("%s", k.%s);' % (tag, f))
            plan.append((tag, i, n, f))
    if x0:
        d.append('KLASS k2; { show("two", k.x() - k2.x()); const auto &a = k.x_vector(); k2.x_vector(); show("held", a); '
                 'show("other", k2.x_vector()); }')
    d.append('return 0; }')
    with open(os.path.join(path, 'driver.cpp'), 'w') as f:
        f.write('\n'.join(d))
    with Watch(mon) as w:
        flags = FLAGS.split() + ['-std=c++11', '-O0', '-DNDEBUG', '-I/usr/include/eigen3']
        c = subprocess.run(['g++'] + flags + ['driver.cpp', '-o', 'driver'], cwd=path, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        mon.check('accessor', c.returncode == 0, lambda: 'generated class does not compile: %s' % (
            [l for l in c.stderr.decode().splitlines() if 'error' in l][:2]))
        o = subprocess.run([os.path.join(path, 'driver')], cwd=path, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    w.verdict()
    got = {}
    for l in o.stdout.decode().splitlines():
        t = l.split()
        got[t[0]] = np.array([float(q) for q in t[1:]])
    if x0:
        last = ref[-1]['x']
        for tag, r in (('two', last - np.array(x0)), ('held', last), ('other', np.array(x0))):
            g = got.get(tag)
            mon.check('two_objects', g is not None and g.shape == r.shape and np.abs(g - r).max() <= 1e-7*(1 + np.abs(last).max()), lambda:
                      'two objects: %s is %r instead of %r' % (tag, None if g is None else g.tolist(), r.tolist()))
    for tag, i, n, f in plan:
        r = ref[i][n]
        r = r.T.ravel() if r.ndim == 2 else np.ravel(r)
        g = got.get(tag)
        scale = 1 + np.abs(r).max()
        noisy = n not in ('x', 'dx', 'w', 'dxH', 'z', 'y', 'u', 'p', 'o')
        ok = g is not None and g.shape == r.shape and np.abs(g - r).max() <= (1e-4 if noisy else 1e-7)*scale
        name = 'sample_rate' if i >= nt else 'accessor'
        if noisy and not ok and (s['grad'] == 'discret' or n in ('res_Fnl', 'step_Fnl')):
            continue
        mon.check(name, ok, lambda: '%s at step %d: %r instead of %r' % (f, i, None if g is None else g.tolist(), r.tolist()))


def used(meth):
    out = set()
    for kind, acts in meth.update_actions:
        for a in (acts if kind == 'exec' else acts[0]):
            if not isinstance(a, str):
                pass
            else:
                out.add(a)
    return out
