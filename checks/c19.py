# -*- coding: utf-8 -*-
"""C19: signals and sound files carry exactly the requested samples."""
import math
import os
import random
import struct
import numpy as np
import vh
import gen as G
import simlib as L

PROPERTY = 'C19'
LEVEL = 'exploration'
RULE = ('every signal kind x random durations, sample rates, cycles, ratios, envelopes, ramps, offsets, '
        'noise levels, against an independent sample-by-sample statement; random signals written to '
        'sound files (lists, arrays, generators; normalisation, fades, resampling) whose bytes are '
        'parsed independently and read back; recorded simulations exported to sound files; filters '
        'and transfer functions of random signals; distinct by spec hash, non-trivial when samples were compared')
REQUIRED = ['length', 'samples', 'cycles', 'silence', 'offset', 'envelope', 'ramp', 'noise_bound', 'sweep', 'unknown',
            'wav_header', 'wav_samples', 'wav_read', 'wav_fades', 'wav_normalize', 'wav_resample', 'wav_generator',
            'data_wav', 'spectrogram', 'spectrogram_axes', 'spectrogram_tone', 'lowpass_length', 'lowpass_gain', 'transfer', 'wav_range', 'wav_unchanged', 'repeat']
COUNT = {'quick': 3000, 'thorough': 60000}


def directed():
    out = [{'kind': 'synth', 'par': {'which': 'const', 'tsig': 0.29, 'fs': 100, 'ncycles': n}, 'seed': n} for n in (1, 2, 3)]
    out += [{'kind': 'synth', 'par': {'which': w, 'fs': 1000, 'tsig': 0.05}, 'seed': 3}
            for w in ('zero', 'const', 'sin', 'cos', 'noise', 'step', 'sweep')]
    out.append({'kind': 'synth', 'par': {'which': 'sin'}, 'seed': 4})
    out.append({'kind': 'synth', 'par': {'which': 'step', 'A': -2., 'ncycles': 2, 'cycle_ratio': 0.29}, 'seed': 4})
    out.append({'kind': 'unknown', 'which': 'square', 'seed': 1})
    return out


def gen(rng, i, tier):
    if i % 20 == 7:
        kind = 'spectro'
        nfft = rng.choice([16, 32, 64, 256, None])
        fs = rng.choice([1000, 8000., 44100, 96000])
        n = (nfft or 256)*rng.randint(2, 7) + rng.randint(0, 9)
        return {'kind': kind, 'seed': rng.randint(0, 10**6), 'nfft': nfft, 'fs': fs, 'n': n, 'how': rng.choice(['list', 'array']),
                'sig': rng.choice(['noise', 'noise', 'tone', 'chirp']), 'amp': rng.choice([1., 1e-3, 50.]),
                'fmax': rng.choice([None, None, fs/4, fs*0.3, fs]), 'dynamics': rng.choice([None, 40., 120]),
                'save': rng.random() < 0.3, 'text': rng.random() < 0.4}
    kind = ['synth', 'wav', 'synth', 'wav', 'synth', 'lowpass', 'wav', 'synth', 'transfer', 'datawav'][i % 10]
    seed = rng.randint(0, 10**6)
    if kind == 'datawav' and i % 50 > 10:
        kind = 'synth'
    s = {'kind': kind, 'seed': seed}
    if kind == 'synth':
        fs = rng.choice([100, 1000, 8000, 11025., 44100, 48000, 333.])
        n = rng.randint(2, 90)
        dur = lambda k: rng.choice([k/fs, k/fs, (k + 0.4)/fs, (k + 0.7)/fs])
        p = {'which': rng.choice(['zero', 'const', 'sin', 'sin', 'cos', 'noise', 'step', 'sweep']), 'fs': fs, 'tsig': dur(n)}
        opt = {'ncycles': rng.randint(1, 4), 'tdeb': dur(rng.randint(0, 20)), 'tend': dur(rng.randint(0, 20)),
               'A': rng.choice([1., 0.5, -2.3, 3, 0.]), 'f0': rng.choice([10., fs/7, 50]), 'cycle_ratio': rng.choice([0.5, 0.29, 1., 0.9, rng.random()*0.5+0.5]),
               'attack_ratio': rng.choice([0., 0.25, 0.5, 1.]), 'decay_ratio': rng.choice([0., 0.25, 0.5, 1.]),
               'ramp_on': rng.random() < 0.6, 'bkgrd_noise': rng.choice([0., 0.1, 2]), 'offset': rng.choice([0., 0.7, -1.5])}
        for k in opt:
            if rng.random() < 0.45:
                p[k] = opt[k]
        if p['which'] == 'sin' and rng.random() < 0.6:
            p['f1'] = rng.choice([33., fs/5, None])
            p['A1'] = rng.choice([0.4, -1., 2])
        if p['which'] == 'sweep':
            p['tsig'] = dur(max(n, 8))   # a sweep needs at least two samples
            p['f0'], p['f1'] = rng.choice([(10., 100.), (5., fs/4), (40., 80.)])
            p['method'] = rng.choice(['linear', 'linear', 'quadratic', 'logarithmic', 'hyperbolic'])
            if rng.random() < 0.3:
                p['phi'] = rng.choice([0, 30, -90])
        s['par'] = p
    elif kind == 'wav':
        fs = rng.choice([8000, 11025, 44100, 48000, 96000, 1000])
        s.update(fs=fs, n=rng.choice([1, 2, 3, 10, rng.randint(11, 400)]), how=rng.choice(['list', 'array', 'gen', 'ints']),
                 amp=rng.choice([1., 0.3, 0.999]), norm=rng.choice([None, False, True, True, 0.5, 2.5]),
                 fade=rng.choice([0, 0, 0., rng.randint(1, 30)/fs, 1.]),
                 out=rng.choice([None, None, fs, fs, 44100, 48000, 8000, 16000]), ext=rng.random() < 0.5)
        if s['norm'] == 0.5:
            s['amp'] = 0.45
    elif kind == 'lowpass':
        s.update(n=rng.choice([5, 100, 400, 1500]), fc=rng.choice([0.1, 0.2, 0.4]), tbw=rng.choice([0.1, 0.2]),
                 how=rng.choice(['list', 'array', 'gen']))
    elif kind == 'transfer':
        s.update(n=rng.choice([256, 1000, 2048]), g=rng.choice([0.1, 1., 3.7]), fs=rng.choice([1000., 48000.]),
                 nfft=rng.choice([64, 128, 256]), lim=rng.random() < 0.5, filt=rng.choice([None, None, 0.3]))
    elif kind == 'datawav':
        s.update(sim=L.gen_sim(rng, nx=(1, 2), nw=(0, 1), ny=(1, 1)), fsout=rng.choice([None, None, 4000, 16000]),
                 norm=rng.random() < 0.6, gain=rng.choice([1., 0.01]), name=rng.choice(['x', 'y', 'dxH', 'u']),
                 open=rng.random() < 0.3, default=rng.random() < 0.3)
        s['sim']['fs'] = rng.choice([1000., 8000.])
    return s


def run(spec, mon):
    mon.key(spec['kind'])
    globals()['run_' + spec['kind']](spec, mon)


# --------------------------------------------------------------------------- #

def count(v):
    """samples in a duration: whole number, up to the rounding of the product"""
    return int(math.floor(v + 1e-6))


def run_synth(spec, mon):
    from pyphs import signalgenerator
    p = dict(spec['par'])
    given = dict(p)
    np.random.seed(spec['seed'])
    s = signalgenerator(**p)
    mon.check('samples', p == given, 'the options of the caller were changed')
    mon.key(p['which'])
    fs = p.get('fs', 1000)
    A, f0 = p.get('A', 1.), p.get('f0', 10.)
    nc = p.get('ncycles', 1)
    nsig = count(p.get('tsig', 1.)*fs)
    ndeb, nend = count(p.get('tdeb', 0)*fs), count(p.get('tend', 0)*fs)
    non = count(nsig*p.get('cycle_ratio', 1.))
    na, nd = count(p.get('attack_ratio', 0.)*non), count(p.get('decay_ratio', 0.)*non)
    noise, off = p.get('bkgrd_noise', 0.), p.get('offset', 0.)
    total = ndeb + nc*nsig + nend
    mon.check('length', np.ndim(s) == 1 and len(s) == total, lambda: '%r: %d samples instead of %d (%d + %d x %d + %d)' % (
        p, len(s), total, ndeb, nc, nsig, nend))
    s = np.asarray(s, dtype=float)
    base = np.zeros(total)
    rnd = np.zeros(total)
    T = (non - 1)/float(fs)
    for c in range(nc):
        for i in range(nsig):
            k = ndeb + c*nsig + i
            v = 0.
            if i < non:
                t = i/float(fs)
                w = p['which']
                if w in ('const', 'step'):
                    v = A
                elif w == 'sin':
                    v = A*math.sin(2*math.pi*f0*t)
                    if p.get('f1', 100.) is not None:
                        v += p.get('A1', 0.)*math.sin(2*math.pi*p.get('f1', 100.)*t)
                elif w == 'cos':
                    v = A*math.cos(2*math.pi*f0*t)
                elif w == 'sweep':
                    v = A*chirp(t, T, f0, p.get('f1', 100.), p.get('method', 'linear'), p.get('phi', -90)) if T > 0 else float('nan')
                g = 1.
                if na:
                    g *= min(i/float(na), 1.)
                if nd:
                    g *= max(min((non - i)/float(nd), 1.), 0.)
                if p.get('ramp_on', False):
                    g *= (i + c*nsig)/float(nc*nsig - 1) if nc*nsig > 1 else float('nan')
                v *= g
                if w == 'noise':
                    rnd[k] += abs(A*g)
            base[k] = v + off
    rnd += abs(noise)
    ok = np.isfinite(base)
    d = np.abs(s - base)
    tol = rnd + 1e-9*(1 + np.abs(base))
    if p['which'] == 'sweep':
        tol = tol + 1e-6*abs(A)
    bad = ok & ~(d <= tol)
    name = 'sweep' if p['which'] == 'sweep' else 'samples'
    mon.check(name, not bad.any(), lambda: '%r: sample %d is %r instead of %r' % (
        p, int(np.argmax(bad)), s[int(np.argmax(bad))], base[int(np.argmax(bad))]))
    mon.seen('samples')
    if nc > 1:
        mon.seen('cycles')
        if not noise and p['which'] not in ('noise',) and not p.get('ramp_on'):
            cyc = s[ndeb:ndeb + nc*nsig].reshape(nc, nsig)
            mon.check('repeat', np.array_equal(cyc[0], cyc[-1]) or not np.isfinite(cyc).all(), lambda: '%r: cycles differ' % p)
    if not noise:
        mon.check('silence', not s[:ndeb].any() and not s[ndeb + nc*nsig:].any(), lambda: '%r: not silent outside the cycles' % p)
    if off:
        mon.seen('offset')
    if na or nd:
        mon.seen('envelope')
    if p.get('ramp_on'):
        mon.seen('ramp')
    big = rnd > 0
    if big.sum() > 60 and ok.all():
        mon.check('noise_bound', (d[big]/rnd[big]).max() > 0.3 and len(set(np.round(d[big], 12))) > 10, lambda: '%r: no noise' % p)


def chirp(t, T, f0, f1, method, phi):
    ph = math.radians(phi)
    if method == 'linear':
        x = f0*t + (f1 - f0)*t*t/(2*T)
    elif method == 'quadratic':
        x = f0*t + (f1 - f0)*t**3/(3*T*T)
    elif method == 'logarithmic':
        b = math.log(f1/f0)/T
        x = f0*(math.exp(b*t) - 1)/b
    else:
        # frequency f0*f1*T/((f0-f1)*t + f1*T)
        sing = -f1*T/(f0 - f1)
        x = -sing*f0*math.log(abs(1 - t/sing))
    return math.cos(2*math.pi*x + ph)


def run_unknown(spec, mon):
    from pyphs import signalgenerator
    try:
        signalgenerator(which=spec['which'])
    except Exception:
        mon.seen('unknown')
    else:
        mon.check('unknown', False, 'signal %r generated' % spec['which'])


# --------------------------------------------------------------------------- #

def parse(path):
    """independent reading of a 16 bit mono sound file"""
    b = open(path, 'rb').read()
    if b[:4] != b'RIFF' or b[8:12] != b'WAVE':
        return None
    pos, out = 12, {'riff': struct.unpack('<I', b[4:8])[0], 'size': len(b)}
    while pos + 8 <= len(b):
        tag, n = b[pos:pos+4], struct.unpack('<I', b[pos+4:pos+8])[0]
        body = b[pos+8:pos+8+n]
        if tag == b'fmt ':
            out['fmt'], out['ch'], out['fs'], out['rate'], out['align'], out['bits'] = struct.unpack('<HHIIHH', body[:16])
        if tag == b'data':
            out['data'] = np.array(struct.unpack('<%dh' % (n//2), body), dtype=float)
        pos += 8 + n + n % 2
    return out


FULL = 2**15 - 1


def check_file(mon, path, fs, ref, quant=1.0, tag='wav_samples'):
    """file holds ref (in full scale units), at rate fs"""
    f = parse(path)
    ok = f is not None and (f['fmt'], f['ch'], f['bits'], f['align']) == (1, 1, 16, 2) and f['fs'] == fs and f['rate'] == 2*fs
    mon.check('wav_header', ok and f['riff'] == f['size'] - 8, lambda: 'header %r, rate %r requested' % (f and {k: f[k] for k in f if k != 'data'}, fs))
    mon.check('length', len(f['data']) == len(ref), lambda: 'file holds %d samples instead of %d' % (len(f['data']), len(ref)))
    d = np.abs(f['data'] - np.asarray(ref)*FULL).max(initial=0)
    mon.check(tag, d <= quant + 1e-6, lambda: 'sample %d is %r instead of %r' % (
        int(np.argmax(np.abs(f['data'] - np.asarray(ref)*FULL))), f['data'][int(np.argmax(np.abs(f['data'] - np.asarray(ref)*FULL)))]/FULL,
        ref[int(np.argmax(np.abs(f['data'] - np.asarray(ref)*FULL)))]))
    return f


def dft_resample(x, m):
    """band-limited interpolation of a periodic sequence (direct sums)"""
    n = len(x)
    X = np.fft.fft(x)
    k = min(n, m)
    out = np.zeros(m)
    t = np.arange(m)*(n/float(m))
    for q in range(-((k - 1)//2), (k - 1)//2 + 1):
        out += (X[q % n]*np.exp(2j*math.pi*q*t/n)).real/n
    if k % 2 == 0:
        q = k//2
        if m < n:
            c = X[q] + X[-q]
            out += (c*np.exp(2j*math.pi*q*t/n)).real/n
        elif m > n or m == n:
            out += (X[q]*np.exp(2j*math.pi*q*t/n)).real/n
    return out


def run_wav(spec, mon):
    from pyphs.misc.signals.waves import wavwrite, wavread
    rng = random.Random(spec['seed'])
    n, fs = spec['n'], spec['fs']
    x = [spec['amp']*rng.uniform(-1, 1) for _ in range(n)]
    if rng.random() < 0.3:
        x[rng.randrange(n)] = spec['amp']*rng.choice([-1, 1])
    if spec['how'] == 'ints':
        x = [float(rng.choice([-1, 0, 1])) for _ in range(n)]
        if spec['norm'] == 0.5:
            x = [0.]*n
    out = spec['out']
    fso = out or fs
    resamp = fso != fs
    norm = spec['norm']
    ref = np.array(x)
    nf = int(math.floor(spec['fade']*fs + 1e-9))
    fade = np.ones(n)
    if nf and n >= 2*nf:
        for i in range(nf):
            fade[i] *= i/float(nf)
            fade[n-1-i] *= i/float(nf)
        mon.seen('wav_fades')
    ref = ref*fade
    if resamp:
        m = count(n*fso/float(fs))
        if m < 1:
            return
        ref = dft_resample(ref, m)
    if norm is True:
        ref = ref/(np.abs(ref).max() or 1.)
        mon.seen('wav_normalize')
    elif isinstance(norm, float):
        ref = ref/norm
        mon.seen('wav_normalize')
    arg = {'list': list(x), 'array': np.array(x), 'gen': None, 'ints': [int(v) for v in x]}[spec['how']]
    keep = None if arg is None else list(arg)
    if spec['how'] == 'gen':
        arg = (v for v in x)
        mon.seen('wav_generator')
    path = os.path.join(mon.dir, 's.wav' if spec['ext'] else 's')
    try:
        wavwrite(arg, fs, path, fs_out=out, normalize=norm, timefades=spec['fade'])
    except struct.error:
        # more than full scale: refused
        mon.check('wav_range', np.abs(ref).max() > 1, lambda: 'refused a signal within full scale (%r)' % np.abs(ref).max())
        return
    finally:
        if keep is not None:
            mon.check('wav_unchanged', list(arg) == keep, 'the given signal was changed')
    over = np.abs(ref).max(initial=0)
    if over > 1 + 2./FULL:
        ref = np.clip(ref, -1, 1)
    path = os.path.join(mon.dir, 's.wav')
    f = check_file(mon, path, fso, ref, 1.0, 'wav_resample' if resamp else 'wav_samples')
    rate, y = wavread(path)
    mon.check('wav_read', rate == fso and len(y) == len(ref) and np.abs(np.asarray(y) - ref).max(initial=0) <= 1.01/FULL, lambda: 'read back at %r: %d samples, deviation %r' % (
        rate, len(y), np.abs(np.asarray(y) - ref).max(initial=0)))
    mon.check('wav_read', np.array_equal(np.asarray(y)*FULL, f['data']) or np.abs(np.asarray(y)*FULL - f['data']).max() < 1e-6, 'reading returns other samples than the file')


def run_datawav(spec, mon):
    s = spec['sim']
    simu = L.simulate(s)
    rec = L.Record(simu)
    if not L.finite(rec):
        return
    a = rec.raw[spec['name']].reshape(rec.nt, -1)
    if not a.shape[1]:
        return
    rng = random.Random(spec['seed'])
    j = rng.randrange(a.shape[1])
    ref = a[:, j]*spec['gain']
    fs = int(s['fs'])
    kw = {} if spec['default'] else {'path': os.path.join(mon.dir, 'out'), 'gain': spec['gain'], 'normalize': spec['norm'], 'fs': spec['fsout']}
    if spec['default']:
        ref, norm, fso = a[:, j], True, fs
    else:
        norm, fso = spec['norm'], spec['fsout'] or fs
    if fso != fs:
        ref = dft_resample(ref, count(len(ref)*fso/float(fs)))
    if norm:
        ref = ref/(np.abs(ref).max() or 1.)
    elif np.abs(ref).max() > 1:
        return
    path = os.path.join(simu.config['path'], spec['name'] + str(j) + '.wav') if spec['default'] else os.path.join(mon.dir, 'out.wav')
    if spec['open']:
        simu.data.h5open()
    simu.data.wavwrite(spec['name'], j, **kw)
    if spec['open']:
        simu.data.h5close()
    check_file(mon, path, fso, ref, 1.0, 'data_wav')


# --------------------------------------------------------------------------- #

def run_lowpass(spec, mon):
    from pyphs.misc.signals.processing import lowpass
    rng = random.Random(spec['seed'])
    n, fc = spec['n'], spec['fc']
    x = [rng.uniform(-1, 1) for _ in range(n)]
    wrap = {'list': list, 'array': np.array, 'gen': lambda v: (q for q in v)}[spec['how']]
    y = lowpass(wrap(x), fc, tbw=spec['tbw'])
    mon.check('lowpass_length', len(y) == n, lambda: '%d samples for %d' % (len(y), n))
    if n < 1000:
        return
    mid = slice(n//2 - 100, n//2 + 100)
    for f, lo, hi in ((0., 0.995, 1.005), (fc*0.3, 0.99, 1.01), (min(fc*1.6, 0.49), 0, 0.01 if fc*1.6 < 0.5 else 1.01)):
        s = np.cos(2*math.pi*f*np.arange(n) + 0.3)
        z = lowpass(wrap(s), fc, tbw=spec['tbw'])
        g = np.abs(z[mid]).max()/np.abs(s[mid]).max()
        mon.check('lowpass_gain', lo <= g <= hi, lambda: 'gain %r at %r for a cutoff at %r' % (g, f, fc))
        if f < fc/2:
            mon.check('lowpass_gain', np.abs(z[mid] - s[mid]).max() < 0.02, lambda: 'delay at %r' % f)


def run_transfer(spec, mon):
    from pyphs.misc.signals.analysis import transferFunction
    rng = np.random.RandomState(spec['seed'])
    x = rng.uniform(-1, 1, spec['n'])
    kw = {}
    fs = spec['fs']
    if spec['lim']:
        kw['limits'] = (fs*0.1, fs*0.3)
    if spec['filt']:
        kw['filtering'] = spec['filt']
    f, tf = transferFunction(x, spec['g']*x, fs, nfft=spec['nfft'], **kw)
    grid = np.arange(spec['nfft']//2 + 1)*fs/spec['nfft']
    if spec['lim']:
        grid = grid[(grid >= fs*0.1) & (grid <= fs*0.3)]
    mon.check('transfer', len(f) == len(tf) == len(grid) and np.allclose(f, grid), lambda: 'frequencies %r' % (list(f[:3]) + list(f[-3:])))
    mon.check('transfer', np.abs(np.asarray(tf)/spec['g'] - 1).max() < 1e-6, lambda: 'gain %r instead of %r' % (tf[:3], spec['g']))


def run_spectro(spec, mon):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from pyphs.misc.signals.analysis import spectrogram
    rng = np.random.RandomState(spec['seed'])
    n, fs, nfft = spec['n'], float(spec['fs']), spec['nfft'] or 256
    t = np.arange(n)/fs
    k0 = rng.randint(2, nfft//2 - 1)
    if spec['fmax'] and spec['sig'] == 'tone':
        k0 = 2 + k0 % max(int(spec['fmax']*nfft/fs) - 3, 1)
    if spec['sig'] == 'noise':
        x = rng.uniform(-1, 1, n)
    elif spec['sig'] == 'tone':
        x = np.sin(2*np.pi*k0*fs/nfft*t)
    else:
        x = np.sin(2*np.pi*(fs/8)*t*(t/t[-1])) + 1e-3*rng.uniform(-1, 1, n)
    x = x*spec['amp']
    data = x.tolist() if spec['how'] == 'list' else x.copy()
    kw = {}
    for o in ('nfft', 'fmax', 'dynamics'):
        if spec[o] is not None:
            kw[o] = spec[o]
    if spec['text']:
        kw.update(xlabel='time', ylabel='freq', title='Spectrum', label=('here', (0.2, 0.8)), cmap='gray')
    if spec['save']:
        kw.update(path=os.path.join(os.getcwd(), 'spec'), format='png')
    keep = dict(kw)
    plt.close('all')
    try:
        ax = spectrogram(data, spec['fs'], **kw)
        mon.check('spectrogram', np.array_equal(np.asarray(data), x) and kw == keep, 'the arguments of the caller were changed')
        im = ax.images[-1]
        got = np.asarray(im.get_array(), dtype=float)
        # independent estimation: half-overlapping Hann windows
        w = np.hanning(nfft)
        segs = [x[a:a+nfft] for a in range(0, n - nfft + 1, nfft//2)]
        P = np.array([np.abs(np.fft.rfft(w*s))**2 for s in segs]).T
        P[1:-1] *= 2
        f = np.arange(nfft//2 + 1)*fs/nfft
        if spec['fmax']:
            P, f = P[f < spec['fmax']], f[f < spec['fmax']]
        ok = got.shape == P.shape
        mon.check('spectrogram', ok, lambda: 'image %r, %d frequencies x %d instants expected' % (got.shape, P.shape[0], P.shape[1]))
        ref = 10*np.log10(P/P.max() + 1e-300)
        sel = ref > -100
        d = np.abs(got - ref)[sel]
        mon.check('spectrogram', d.max() < 1e-4 and abs(got.max()) < 1e-9, lambda: 'levels %g dB off, peak %g dB' % (d.max(), got.max()))
        dyn = 80. if spec['dynamics'] is None else spec['dynamics']
        mon.check('spectrogram_axes', im.get_clim() == (-dyn, 0), lambda: 'colours span %r' % (im.get_clim(),))
        tb = (nfft/2. + np.arange(P.shape[1])*(nfft//2))/fs
        ext = [tb[0], tb[-1], f[0], f[-1]]
        mon.check('spectrogram_axes', np.allclose(im.get_extent(), ext) and im.origin == 'lower', lambda: 'extent %r expected %r (%s)' % (
            im.get_extent(), ext, im.origin))
        if spec['sig'] == 'tone':
            col = np.median(got, axis=1)
            mon.check('spectrogram_tone', int(np.argmax(col)) == k0, lambda: 'tone at bin %d shown at %d' % (k0, np.argmax(col)))
        if spec['text']:
            mon.check('spectrogram_axes', ax.get_xlabel() == 'time' and ax.get_ylabel() == 'freq' and ax.get_title() == 'Spectrum' and
                      'here' in [q.get_text() for q in ax.texts] and im.get_cmap().name == 'gray', lambda: '%r %r %r' % (
                          ax.get_xlabel(), ax.get_ylabel(), ax.get_title()))
        mon.check('spectrogram_axes', os.path.exists('spec.png') == spec['save'], 'saved figure')
    finally:
        plt.close('all')
