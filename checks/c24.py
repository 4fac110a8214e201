# -*- coding: utf-8 -*-
"""C24: the generated audio plugin processes its blocks as the method does."""
import os
import random
import subprocess
import numpy as np
import vh
import gen as G
from c18 import Watch, FLAGS, HERE

PROPERTY = 'C24'
LEVEL = 'exploration'
RULE = ('plugins are generated by the real code for random systems; the snippets of the processor are assembled on stand-ins of '
        'the JUCE classes, compiled with address and undefined-behaviour sanitizers and driven through blocks of random '
        'lengths with gains and parameters changed between them; the audio and the parameters are compared with the '
        'Python numerical object; distinct by spec hash, non-trivial when a block was compared')
REQUIRED = ['compiled', 'clean', 'normal_exit', 'started', 'audio', 'controls', 'configuration', 'gain', 'ramp', 'stereo', 'parameter', 'several_parameters',
            'files']
COUNT = {'quick': 22, 'thorough': 400}
CASE_TIMEOUT = 240
ASSUMPTIONS = ['JUCE is not installed: its classes are replaced by lib/juce_stub.h; the snippets of the editor (sliders) are '
               'not compiled', 'single precision: compared within 2e-4 of the scale of the signals']


def make(rng, np_=None, nin=None, nout=None):
    ny = rng.randint(max(nin or 1, nout or 1), 3)
    npar = rng.randint(0, 3) if np_ is None else np_
    c = G.gen_core(rng, nx=(1, 3), nw=(0, 2), ny=(ny, ny), np_=(npar, npar), nl=True, nlprob=0.2, coupled=False, statedep=0.,
                   resist=0.3, psubs=0.5, obs=0.2, zdep=0.)
    # every parameter acts on the outputs
    for k, p in enumerate(c['p']):
        x = c['x'][k % len(c['x'])]
        c['H'] += ' + %s**2*(1 + %s)/2' % (x, p)
    nin = nin or rng.randint(1, min(2, ny))
    nout = nout or rng.randint(1, min(2, ny))
    return {'core': c, 'theta': rng.choice([0., 0.5]), 'split': rng.random() < 0.6, 'fs': rng.choice([1000., 8000.]),
            'x0': {x: G.rnd(rng, -0.5, 0.5) for x in c['x']}, 'in': rng.sample(range(ny), nin), 'out': rng.sample(range(ny), nout),
            'ranges': {p: [0., round(rng.uniform(1., 3.), 2), round(rng.uniform(0.2, 0.9), 2)] for p in c['p']} if rng.random() < 0.6 else None,
            'order': rng.sample(c['p'], len(c['p'])), 'blocks': [rng.choice([1, 3, 8, 16]) for _ in range(rng.randint(2, 5))], 'seed': rng.randint(0, 10**6),
            'grad': rng.choice(['theta', 'trapez'])}


def directed():
    rng = random.Random(24)
    return [make(rng, 3, 1, 1), make(rng, 2, 2, 2), make(rng, 1, 1, 2), make(rng, 0, 2, 1), make(rng, 0, 1, 1)]


def gen(rng, i, tier):
    return make(rng)


def read(folder):
    return {os.path.splitext(f)[0]: open(os.path.join(folder, f)).read() for f in sorted(os.listdir(folder))}


def run(spec, mon):
    from pyphs.misc.juce._fx import method2jucefx
    import pyphs.config as C
    rng = random.Random(spec['seed'])
    core = G.build_core(spec['core'], 'plug')
    cfg = {k: spec[k] for k in ('grad', 'theta', 'split')}
    m = core.to_method(config=cfg)
    U, Y, P = [[str(e) for e in getattr(m, n)] for n in ('u', 'y', 'p')]
    x0 = [spec['x0'][str(x)] for x in m.x]
    const = [G.rnd(rng, -0.5, 0.5) for _ in U]
    before = dict(C.CONFIG_CPP)
    io = ([U[j] for j in spec['in']], [Y[j] for j in spec['out']])
    params = {m.symbols(p): tuple(spec['ranges'][p]) for p in spec['order']} if spec['ranges'] is not None else None
    # several parameters of the same range are distinguished by their default
    method2jucefx(m, io=io, path=mon.dir, inits={'x': list(x0), 'u': list(const)}, params=params, config={'fs': spec['fs']})
    mon.check('configuration', dict(C.CONFIG_CPP) == before, lambda: 'the options of the other C++ codes are changed: %s -> %s' % (
        before, C.CONFIG_CPP))
    C.CONFIG_CPP.clear()
    C.CONFIG_CPP.update(before)
    src, snip = os.path.join(mon.dir, 'plug_Sources'), os.path.join(mon.dir, 'plug_Juce_Snippets')
    mon.check('files', os.path.isdir(src) and os.path.isdir(snip), lambda: str(os.listdir(mon.dir)))
    s = read(snip)
    want = {p: (spec['ranges'][p] if spec['ranges'] is not None else [0., 1., 0.5]) for p in P}
    # plan of the blocks
    gains = {'inputGain%d' % (k+1): 0. for k in range(len(spec['in']))}
    gains.update({'outputGain%d' % (k+1): 0. for k in range(len(spec['out']))})
    state = dict(gains)
    state.update({p: v[2] for p, v in want.items()})
    d = ['#include "juce_stub.h"', '#include "core.cpp"', '#include "parameters.cpp"',
         'class Plugin : public AudioProcessor { public:', s['Processor_H_2-Public'],
         'Plugin()', s['Processor_CPP_1-Instanciation'],
         'void prepareToPlay(double sampleRate, int samplesPerBlock)', s['Processor_CPP_2-PrepareToPlay'],
         'void processBlock(AudioSampleBuffer &buffer)', s['Processor_CPP_3-ProcessBlock'],
         'private:', s['Processor_H_3-Private'], '};', 'int main() { Plugin p;',
         'for (auto &q : p.params) printf("P %s %.9g %.9g %.9g\\n", q->id.c_str(), q->lo, q->hi, q->value);',
         'p.nin = %d; p.nout = %d;' % (max(1, len(spec['in'])), max(1, len(spec['out']))),
         'p.prepareToPlay(%r, 512);' % spec['fs']]
    nch = max(len(spec['in']), len(spec['out']))
    nums = core.to_method(config=cfg).to_numeric(inits={'x': list(x0)}, config={'fs': spec['fs'], 'maxit': 100})
    ref = []
    if len(P) > 1:
        mon.seen('several_parameters')
    for b, n in enumerate(spec['blocks']):
        prev = dict(state)
        if b:
            for k in sorted(state):
                if rng.random() < 0.5:
                    lo, hi = (-1., 0.5) if k in gains else want[k][:2]
                    state[k] = round(rng.uniform(lo, hi), 3)
                    d.append('p.par("%s") = %rf;' % (k, state[k]))
                    mon.seen('ramp' if k in gains else 'parameter')
        sig = np.array([[rng.uniform(-1, 1) for _ in range(n)] for _ in range(nch)])
        d.append('{ AudioSampleBuffer a(%d, %d);' % (nch, n))
        for k in range(nch):
            d += ['a.data[%d][%d] = %rf;' % (k, i, float(v)) for i, v in enumerate(sig[k])]
        d.append('p.processBlock(a); for (int c = 0; c < %d; c++) { printf("B%d.%%d", c); for (float v : a.data[c]) printf(" %%.9g", v); '
                 'printf("\\n"); } }' % (len(spec['out']), b))
        out = np.zeros((len(spec['out']), n))
        ramp = lambda name, i: (10**prev[name] + (10**state[name] - 10**prev[name])*i/n)
        for i in range(n):
            u = list(const)
            for k, j in enumerate(spec['in']):
                u[j] = sig[k, i]*ramp('inputGain%d' % (k+1), i)
            p = [prev[q] + (state[q] - prev[q])*i/n for q in P]
            nums.update(u=np.array(u), p=np.array(p))
            y = np.array(nums.y(), dtype=float).ravel()
            for k, j in enumerate(spec['out']):
                out[k, i] = y[j]*ramp('outputGain%d' % (k+1), i)
        ref.append(out)
    d.append('return 0; }')
    if not all(np.isfinite(o).all() and np.abs(o).max() < 1e3 for o in ref):
        mon.seen('diverged')
        return
    mon.seen('gain')
    if nch == 2:
        mon.seen('stereo')
    with open(os.path.join(src, 'driver.cpp'), 'w') as f:
        f.write('\n'.join(d))
    with Watch(mon) as w:
        c = subprocess.run(['g++'] + FLAGS.split() + ['-std=c++11', '-O0', '-DNDEBUG', '-I/usr/include/eigen3', '-I%s/lib' % HERE,
                            'driver.cpp', '-o', 'driver'], cwd=src, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        mon.check('compiled', c.returncode == 0, lambda: 'the plugin does not compile: %s' % (
            [l for l in c.stderr.decode().splitlines() if 'error' in l][:2]))
        if c.returncode:
            return
        o = subprocess.run([os.path.join(src, 'driver')], cwd=src, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    w.verdict()
    got, pars = {}, {}
    for l in o.stdout.decode().splitlines():
        t = l.split()
        if t[0] == 'P':
            pars[t[1]] = [float(v) for v in t[2:]]
        else:
            got[t[0]] = np.array([float(v) for v in t[1:]])
    mon.check('controls', set(pars) == set(gains) | set(P), lambda: 'controls %s' % sorted(pars))
    for p in P:
        mon.check('controls', np.allclose(pars.get(p, [9e9]*3), want[p], rtol=1e-6), lambda: '%s: %s expected %s' % (p, pars.get(p), want[p]))
    scale = 1 + max(np.abs(r).max() for r in ref)
    for b, r in enumerate(ref):
        for k in range(len(spec['out'])):
            g = got.get('B%d.%d' % (b, k))
            ok = g is not None and g.shape == r[k].shape and bool(np.all(np.abs(g - r[k]) <= 2e-4*scale))
            if ok:
                mon.maxdev['audio'] = max(mon.maxdev.get('audio', 0.), float(np.abs(g - r[k]).max()/scale))
            mon.check('audio', ok, lambda: 'block %d output %d: %s expected %s' % (b, k, None if g is None else g[:5].tolist(), r[k][:5].tolist()))
    mon.key((len(P), len(spec['in']), len(spec['out']), spec['grad'], spec['split']))
