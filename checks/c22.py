# -*- coding: utf-8 -*-
"""C22: the figures show the recorded data."""
import os
import random
import re
import numpy as np
import vh
import gen as G
import netlib as N
import simlib

PROPERTY = 'C22'
LEVEL = 'exploration'
RULE = ('recorded simulations of random systems, random curves and random graphs are drawn by the real code on the Agg '
        'backend; the artists of the figures (abscissae, ordinates, scales, labels, legends, texts, arrows) are read back '
        'and compared with the record, the arguments and the graph; distinct by spec hash, non-trivial when a curve or an '
        'edge was compared')
REQUIRED = ['curve', 'times', 'axes', 'ylabel', 'balance', 'balance_sum', 'scale', 'legend', 'style', 'saved', 'new_figure',
            'edge', 'node', 'apart', 'refused', 'not_changed', 'imposed', 'determined', 'annotation', 'grid']
COUNT = {'quick': 80, 'thorough': 1500}
CASE_TIMEOUT = 200
ASSUMPTIONS = ['what is drawn is read from the artists of matplotlib, not from the pixels']


def directed():
    rng = random.Random(22)
    out = [sim(rng), sim(rng, 2600), curves(rng, 1, 1), curves(rng, 1, 2), curves(rng, 3, 2)]
    # several edges between the same nodes, in both directions
    out.append({'kind': 'graph', 'seed': 1, 'edges': [['#', 'A', 'a', 'storage'], ['A', '#', 'b', 'dissipative'],
                                                      ['#', 'A', 'c', 'port'], ['A', 'B', 'd', 'storage']]})
    out.append({'kind': 'graph', 'seed': 2, 'edges': [['A', 'B', 'a%d' % k, 'dissipative'] if k % 2 else ['B', 'A', 'a%d' % k, 'port']
                                                      for k in range(4)]})
    return out


def sim(rng, nt=None):
    s = simlib.gen_sim(rng, nx=(1, 3), nw=(0, 2), ny=(1, 2), np_=(0, 1), obs=0.4, zdep=0.1, statedep=0.1, nlprob=0.3) \
        if nt is None else simlib.gen_sim(rng, nx=(1, 1), nw=(0, 1), ny=(1, 1), np_=(0, 0), obs=0., zdep=0., statedep=0.,
                                          nl=False, coupled=False)
    s.update(kind='sim', nt=nt or rng.choice([3, 10, 25, 40]), seed=rng.randint(0, 10**6),
             fs=rng.choice([500., 1000., 44100., 3000.]))
    if nt:
        s.update(grad='theta', theta=0.5, split=True)
    return s


def curves(rng, n=None, m=None):
    n = n or rng.randint(1, 4)
    return {'kind': 'curves', 'axes': [m if m and k == 0 else rng.randint(1, 3) for k in range(n)], 'seed': rng.randint(0, 10**6)}


def graph(rng):
    n = rng.randint(2, 5)
    names = ['#'] + ['N%d' % k for k in range(n-1)]
    edges = []
    for k in range(rng.randint(1, 9)):
        a, b = rng.sample(names, 2) if k >= n-1 else rng.sample([names[k], names[k+1]], 2)
        if k >= n-1 and rng.random() < 0.4:
            a, b, _, _ = rng.choice(edges)
            if rng.random() < 0.5:
                a, b = b, a
        edges.append([a, b, 'e%d' % k, rng.choice(['storage', 'dissipative', 'port', 'connector'])])
    return {'kind': 'graph', 'edges': edges, 'seed': rng.randint(0, 10**6)}


def analysis_spec(rng):
    return {'kind': 'analysis', 'seed': rng.randint(0, 10**6), 'stage': rng.choice(['done', 'done', 'start']),
            'net': N.realizable_net(rng, nnodes=(1, 4), extra=(0, 3), nl=0.2, free=0., conn=0.)['comps']}


def gen(rng, i, tier):
    if i % 3 == 0:
        return sim(rng, 2100 if tier == 'thorough' and i % 60 == 0 else None)
    if i % 3 == 1:
        return curves(rng)
    if i % 2:
        return analysis_spec(rng)
    return graph(rng)


def run(spec, mon):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    # figures left open by the caller are never drawn on
    fig0, ax0 = plt.subplots()
    ax0.plot([0., 1.], [2., 3.])
    try:
        {'sim': simulation, 'curves': figures, 'graph': graphs, 'analysis': analysed}[spec['kind']](spec, mon)
        mon.check('new_figure', len(ax0.lines) == 1 and len(fig0.axes) == 1 and not ax0.texts and not ax0.patches
                  and plt.fignum_exists(fig0.number), 'drawn on a figure that was already there')
    finally:
        plt.close('all')


def plain(label):
    """label without the LaTeX around it"""
    return re.sub(r'\\math(rm|tt)|[{}$_ ]', '', label or '')


def xy(line):
    return np.asarray(line.get_xdata(), dtype=float).ravel(), np.asarray(line.get_ydata(), dtype=float).ravel()


def same(a, b, tol=0.):
    a, b = np.asarray(a, dtype=float).ravel(), np.asarray(b, dtype=float).ravel()
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol*(1 + np.abs(b))) | (np.isnan(a) & np.isnan(b))))


def rslice(rng, n):
    for _ in range(30):
        a = rng.choice([None, 0, rng.randrange(n), -rng.randint(1, n)])
        b = rng.choice([None, n, rng.randint(1, n), -1])
        c = rng.choice([None, 1, 2, 3])
        if len(range(n)[slice(a, b, c)]) > 1:
            return slice(a, b, c)
    return slice(None)


def axlist(ax):
    return list(np.ravel(ax)) if isinstance(ax, (list, tuple, np.ndarray)) else [ax]


def simulation(spec, mon):
    rng = random.Random(spec['seed'])
    simu = simlib.simulate(spec)
    d, m = simu.data, simu.method
    nt, fs = spec['nt'], spec['fs']
    syms = {'x': m.x, 'dx': m.x, 'dxH': m.x, 'dtx': m.x, 'w': m.w, 'z': m.w, 'u': m.u, 'y': m.y, 'p': m.p, 'o': list(m.observers)}
    rec = {}
    for k in ('x', 'dx', 'dxH', 'w', 'z', 'u', 'y', 'p', 'o'):
        rec[k] = np.asarray(getattr(d, k)(tslice=slice(0, nt, 1)), dtype=float).reshape(nt, len(syms[k])) \
            if len(syms[k]) else np.zeros((nt, 0))
    rec['dtx'] = rec['dx']*fs
    if not all(np.isfinite(v).all() for v in rec.values()):
        mon.seen('diverged')
        return
    t = np.arange(nt)/fs
    avail = [k for k in syms if len(syms[k])]
    for rep in range(4):
        asked, expect = [], []
        for _ in range(rng.randint(1, 3)):
            k = rng.choice(avail)
            if rng.random() < 0.5:
                j = rng.randrange(len(syms[k]))
                asked.append((k, j) if rng.random() < 0.7 else [k, j])
                expect.append((k, j))
            else:
                asked.append(k)
                expect += [(k, j) for j in range(len(syms[k]))]
        s = rng.choice([None, rslice(rng, nt), rslice(rng, nt)])
        if s is not None and s.step is None and nt > 1000:
            s = slice(s.start, s.stop, 1)
        save = rng.random() < 0.3
        before = list(asked)
        if save:
            from pyphs.misc.plots.data import plot
            fig, ax = plot(d, asked, tslice=s, show=False, save=True)
            name = os.path.join(d.config['path'], 'figures')
            mon.check('saved', os.path.isdir(name) and any(os.path.getsize(os.path.join(name, f)) for f in os.listdir(name)),
                      'no figure saved')
        else:
            fig, ax = d.plot(asked, tslice=s, show=False)
        mon.check('not_changed', asked == before, 'list of variables %r -> %r' % (before, asked))
        w = s or slice(None)
        axs = axlist(ax)
        mon.check('axes', len(axs) == len(expect) and all(len(a.lines) == 1 for a in axs), lambda: '%r drawn as %d axes' % (
            asked, len(axs)))
        if len(axs) != len(expect):
            continue
        for a, (k, j) in zip(axs, expect):
            px, py = xy(a.lines[0])
            mon.check('times', same(px, t[w], 1e-12), lambda: '%s%d over %r: times %r expected %r' % (k, j, s, px[:4], t[w][:4]))
            tol = 1e-12 if k in ('dtx', 'o') else 0.
            mon.check('curve', same(py, rec[k][w, j], tol), lambda: '%s component %d over %r: drawn %r expected %r' % (
                k, j, s, py[:4], rec[k][w, j][:4]))
            lab, sym = plain(a.get_ylabel()), str(syms[k][j]).replace('_', '')
            want = {'x': sym, 'w': sym, 'u': sym, 'y': sym, 'dx': 'd'+sym, 'z': 'z'+sym[1:],
                    'dxH': '\\fracdHd'+sym, 'dtx': '\\fracd'+sym+'dt'}.get(k)
            if want is not None:
                mon.check('ylabel', lab == want, lambda: '%s component %d (%s) is named %r' % (k, j, syms[k][j], a.get_ylabel()))
        mon.check('times', 't' in plain(axs[-1].get_xlabel()), 'no label on the axis of the times')
    # the window of the data object is the default
    lo = rng.randrange(max(nt-2, 1))
    d.start, d.stop, d.step = lo, nt, rng.choice([1, 2])
    fig, ax = d.plot([('x', 0)], show=False)
    px, py = xy(axlist(ax)[0].lines[0])
    w = slice(lo, nt, d.step)
    mon.check('times', same(px, t[w], 1e-12), lambda: 'window %r: times %r' % (w, px[:4]))
    mon.check('curve', same(py, rec['x'][w, 0]), lambda: 'window %r: %r' % (w, py[:4]))
    d.start = d.stop = d.step = None
    fig.canvas.draw()

    # power balance
    for rep in range(3):
        mode, D = rng.choice(['single', 'multi']), rng.choice(['deltaH', 'DxhDtx'])
        s = rng.choice([None, rslice(rng, nt)])
        w = s or slice(None)
        fig, ax = d.plot_powerbal(mode=mode, DtE=D, show=False, tslice=s)
        dte = np.asarray(d.dtE(DtE=D, tslice=slice(0, nt, 1)))[w]
        ps = (rec['u']*rec['y']).sum(1)[w]
        pd = np.asarray(d.pd(tslice=slice(0, nt, 1)))[w]
        axs = axlist(ax)
        lines = [xy(l) for a in axs for l in a.lines]
        want = [dte, -ps-pd] if mode == 'single' else [dte, pd, ps, dte+pd+ps]
        scale = 1 + np.abs(np.concatenate([dte, ps, pd])).max()
        ok = len(lines) == len(want) and (len(axs) == 1 if mode == 'single' else len(axs) == 4)
        mon.check('axes', ok, lambda: 'power balance %s: %d curves on %d axes' % (mode, len(lines), len(axs)))
        for n, ((px, py), v) in enumerate(zip(lines, want)):
            mon.check('times', same(px, t[w], 1e-12), lambda: 'power balance over %r: times %r expected %r' % (s, px[:4], t[w][:4]))
            mon.check('balance', py.shape == v.shape and bool(np.all(np.abs(py - v) <= 1e-10*scale)),
                      lambda: 'power balance %s %s over %r, curve %d: %r expected %r' % (mode, D, s, n, py[:4], v[:4]))
        if mode == 'multi' and len(lines) == 4:
            tot = lines[0][1] + lines[1][1] + lines[2][1]
            mon.check('balance_sum', bool(np.all(np.abs(tot - lines[3][1]) <= 1e-12*scale)), 'the last curve is not the sum')
        if mode == 'single':
            leg = ax.get_legend()
            texts = [x.get_text() for x in leg.get_texts()] if leg else []
            mon.check('legend', len(texts) == 2 and 'E' in plain(texts[0]) and 'PS' in plain(texts[1]) and 'PD' in plain(texts[1]),
                      lambda: 'legend %r' % texts)
    mon.key((tuple(len(syms[k]) for k in ('x', 'w', 'u', 'p')), nt > 1000))


def figures(spec, mon):
    from pyphs.misc.plots.multiplots import multiplot
    from pyphs.misc.plots.singleplots import singleplot
    import matplotlib.pyplot as plt
    rng = random.Random(spec['seed'])
    n = rng.randint(2, 40)
    x = sorted(rng.uniform(0.1, 5.) for _ in range(n))
    form = rng.choice([list, np.array])

    def sig():
        return [rng.uniform(0.5, 5.) for _ in range(n)]

    # --- several axes ---
    Y = []
    for m in spec['axes']:
        Y.append(form(sig()) if m == 1 and rng.random() < 0.6 else [form(sig()) for _ in range(m)])
    opts = {}
    ny = len(Y)
    if rng.random() < 0.7:
        opts['log'] = [rng.choice(['', 'x', 'y', 'xy']) for _ in Y]
    if rng.random() < 0.7:
        opts['ylabels'] = ['Y%d' % k for k in range(ny)]
    if rng.random() < 0.7:
        opts['labels'] = []
        for k, y in enumerate(Y):
            single = not isinstance(y[0], (list, np.ndarray))
            one = lambda j: rng.choice(['c%d.%d' % (k, j), 'c%d.%d' % (k, j), None, ('n%d.%d' % (k, j), (rng.random(), rng.random()))])
            opts['labels'].append(one(0) if single else rng.choice([None, [one(j) for j in range(len(y))]]))
        if rng.random() < 0.4:
            opts['labels'] = tuple(opts['labels'])
    if rng.random() < 0.5:
        opts['linestyles'] = [[rng.choice(['-b', '--r', ':g', '-.m']) for _ in range(4)] for _ in Y]
    if rng.random() < 0.5:
        opts['title'] = 'Title'
    opts['xlabel'] = 'abscissa'
    if rng.random() < 0.5:
        opts['grid'] = rng.random() < 0.6
    if rng.random() < 0.5:
        opts['loc'] = rng.choice([1, 2, 3, 4, 9, 10])
    if 'ylabels' in opts and rng.random() < 0.5:
        opts['xpos_ylabel'] = -0.1
    path = None
    if rng.random() < 0.4:
        path = opts['path'] = os.path.join(mon.dir, 'figure')
        if rng.random() < 0.5:
            opts['format'] = rng.choice(['pdf', 'png', 'svg'])
    keep = repr(opts)
    fig, axs = multiplot(x, Y, show=False, **opts)
    mon.check('not_changed', repr(opts) == keep, lambda: 'options %s -> %s' % (keep, opts))
    axs = axlist(axs)
    mon.check('axes', len(axs) == ny and len(fig.axes) == ny, lambda: '%d axes for %d' % (len(axs), ny))
    from pyphs.config import plot_format
    if path:
        f = path + '.' + opts.get('format', plot_format)
        mon.check('saved', os.path.isfile(f) and os.path.getsize(f) > 0, lambda: '%s not saved: %s' % (f, os.listdir(mon.dir)))
    for k, (a, y) in enumerate(zip(axs, Y)):
        ys = [y] if not isinstance(y[0], (list, np.ndarray)) else y
        lab = opts['labels'][k] if 'labels' in opts else None
        labs = [lab]*len(ys) if not isinstance(lab, list) else lab
        one_axis(a, x, ys, labs, opts.get('log', ['']*ny)[k], opts['linestyles'][k] if 'linestyles' in opts else None, mon)
        decor(a, opts, mon)
        if 'xpos_ylabel' in opts:
            mon.check('ylabel', a.yaxis.get_label().get_position()[0] == -0.1 or abs(
                a.yaxis.get_label().get_transform().transform(a.yaxis.get_label().get_position())[0] -
                a.transAxes.transform((-0.1, 0.5))[0]) < 1e-6, lambda: 'axis %d: name at %r' % (k, a.yaxis.get_label().get_position()))
        if 'ylabels' in opts:
            mon.check('ylabel', a.get_ylabel() == opts['ylabels'][k], lambda: 'axis %d named %r' % (k, a.get_ylabel()))
        mon.check('ylabel', a.get_xlabel() == ('abscissa' if k == ny-1 else ''), lambda: 'axis %d: abscissa %r' % (k, a.get_xlabel()))
    if 'title' in opts:
        mon.check('ylabel', fig._suptitle is not None and fig._suptitle.get_text() == 'Title', 'title')
    before = [[xy(l) for l in a.lines] for a in axs]

    # --- one axis ---
    k = rng.randint(1, 4)
    ys = [form(sig()) for _ in range(k)]
    opts = {'xlabel': 'abscissa'}
    if rng.random() < 0.5:
        opts['grid'] = rng.random() < 0.6
    if rng.random() < 0.5:
        opts['loc'] = rng.choice([1, 2, 3, 4, 9, 10])
    flat = k == 1 and rng.random() < 0.5
    if rng.random() < 0.7:
        opts['log'] = rng.choice(['', 'x', 'y', 'xy'])
    if rng.random() < 0.7:
        opts['labels'] = [rng.choice(['c%d' % j, 'c%d' % j, None, ('n%d' % j, (rng.random(), rng.random()))]) for j in range(k)]
        if k in (2, 4) and rng.random() < 0.3:
            opts['labels'] = opts['labels'][:k//2]
    if rng.random() < 0.5:
        opts['linestyles'] = [rng.choice(['-b', '--r', ':g', '-.m']) for _ in range(k)]
    if rng.random() < 0.5:
        opts['ylabel'] = 'ordinate'
    if rng.random() < 0.5:
        opts['title'] = 'Title'
    path = None
    if rng.random() < 0.4:
        path = opts['path'] = os.path.join(mon.dir, 'single')
    keep = repr(opts)
    f2, ax = singleplot(x, ys[0] if flat else ys, show=False, **opts)
    mon.check('not_changed', repr(opts) == keep, lambda: 'options %s -> %s' % (keep, opts))
    mon.check('axes', len(f2.axes) == 1, lambda: '%d axes' % len(f2.axes))
    mon.check('new_figure', f2.number != fig.number and plt.fignum_exists(fig.number) and all(
        same(p[0], q[0]) and same(p[1], q[1]) for a, b in zip(axs, before) for p, q in zip([xy(l) for l in a.lines], b)),
        'the figure drawn before has changed')
    if path:
        f = path + '.' + plot_format
        mon.check('saved', os.path.isfile(f) and os.path.getsize(f) > 0, lambda: '%s not saved' % f)
    labs = list(opts.get('labels', [None]*k))
    labs += [None]*(k-len(labs))
    one_axis(ax, x, ys, labs, opts.get('log', ''), opts.get('linestyles'), mon, False)
    mon.check('ylabel', ax.get_ylabel() == opts.get('ylabel', '') and ax.get_xlabel() == 'abscissa'
              and ax.get_title() == opts.get('title', ''), lambda: 'labels %r %r %r' % (ax.get_ylabel(), ax.get_xlabel(), ax.get_title()))
    decor(ax, opts, mon)
    # a number of labels that does not fit
    for bad in ({'ylabels': ['a']*(ny+1)}, {'log': ['']*(ny+1)}):
        try:
            multiplot(x, Y, show=False, **bad)
        except (AttributeError, ValueError, IndexError):
            mon.seen('refused')
        else:
            mon.check('refused', False, '%r accepted for %d axes' % (bad, ny))
    mon.key((spec['axes'], form is list))


SCALE = {'': ('linear', 'linear'), 'x': ('log', 'linear'), 'y': ('linear', 'log'), 'xy': ('log', 'log')}
COLORS = {'b': (0., 0., 1.), 'r': (1., 0., 0.), 'g': (0., .5, 0.), 'm': (.75, 0., .75)}


def decor(a, opts, mon):
    on = [g.get_visible() for g in a.get_xgridlines() + a.get_ygridlines()]
    mon.check('grid', all(on) if opts.get('grid', False) else not any(on), lambda: 'grid %r for %r' % (on, opts.get('grid')))
    leg = a.get_legend()
    if leg is not None:
        mon.check('legend', leg._loc == opts.get('loc', 0), lambda: 'legend at %r for %r' % (leg._loc, opts.get('loc', 0)))


def one_axis(a, x, ys, labs, log, styles, mon, shared=True):
    lines = list(a.lines)
    mon.check('curve', len(lines) == len(ys), lambda: '%d curves drawn for %d' % (len(lines), len(ys)))
    for j, (l, y) in enumerate(zip(lines, ys)):
        px, py = xy(l)
        mon.check('times', same(px, x), lambda: 'abscissae %r expected %r' % (px[:4], x[:4]))
        mon.check('curve', same(py, y), lambda: 'curve %d: %r expected %r' % (j, py[:4], y[:4]))
        if styles is not None:
            ls, co = styles[j][:-1], styles[j][-1]
            import matplotlib.colors as mc
            mon.check('style', l.get_linestyle() == ls and np.allclose(mc.to_rgb(l.get_color()), COLORS[co]),
                      lambda: 'curve %d drawn with %r %r for %r' % (j, l.get_linestyle(), l.get_color(), styles[j]))
        if isinstance(labs[j], tuple):
            # annotation at a place of the axes
            t = [t for t in a.texts if t.get_text() == labs[j][0]]
            ok = len(t) == 1 and np.allclose(t[0].get_transform().transform(t[0].get_position()), a.transAxes.transform(labs[j][1]))
            mon.check('annotation', ok, lambda: 'annotations %r for %r' % ([(q.get_text(), q.get_position()) for q in a.texts], labs[j]))
        elif labs[j] is not None:
            mon.check('legend', l.get_label() == labs[j], lambda: 'curve %d labelled %r for %r' % (j, l.get_label(), labs[j]))
    got = (a.get_xscale(), a.get_yscale())
    # the axes are shared along x: the scale of y alone is local
    mon.check('scale', got[1] == SCALE[log][1] and (shared or got == SCALE[log]), lambda: 'scales %r for %r' % (got, log))
    want = [l for l in labs if l is not None and not isinstance(l, tuple)]
    mon.check('annotation', len(a.texts) == len([l for l in labs if isinstance(l, tuple)]), lambda: 'texts %r for %r' % (
        [q.get_text() for q in a.texts], labs))
    leg = a.get_legend()
    mon.check('legend', (sorted(t.get_text() for t in leg.get_texts()) if leg else []) == sorted(want),
              lambda: 'legend %r for %r' % (leg and [t.get_text() for t in leg.get_texts()], labs))


def graphs(spec, mon):
    from pyphs import Graph
    import matplotlib.pyplot as plt
    from matplotlib.patches import FancyArrowPatch
    rng = random.Random(spec['seed'])
    g = Graph(label='graph')
    for a, b, lab, typ in spec['edges']:
        g.add_edges_from([(a, b, {'type': typ, 'ctrl': '?', 'z': {'e_ctrl': '', 'f_ctrl': ''}, 'link': None, 'label': lab})])
    how = rng.choice(['plain', 'file', 'ax', 'axfile'])
    kw = {'show': False}
    np.random.seed(spec['seed'] % 1000)
    if 'ax' in how:
        kw['ax'] = plt.figure().add_axes([0, 0, 1, 1])
    if 'file' in how:
        kw['filename'] = os.path.join(mon.dir, rng.choice(['graph', 'graph.' + fmt()]))
    g.plot(**kw)
    ax = kw.get('ax') or plt.gca()
    if 'file' in how:
        f = os.path.join(mon.dir, 'graph.' + fmt())
        mon.check('saved', os.path.isfile(f) and os.path.getsize(f) > 0, lambda: 'graph not saved: %s' % os.listdir(mon.dir))
    pos = g.positions
    texts = [(t.get_text(), np.array(t.get_position(), dtype=float)) for t in ax.texts]
    nodes = sorted(set(e[0] for e in spec['edges']) | set(e[1] for e in spec['edges']))
    for nd in nodes:
        here = [p for s, p in texts if s == nd]
        mon.check('node', len(here) == 1 and np.allclose(here[0], pos[nd]), lambda: 'node %s written at %r, stands at %r' % (nd, here, pos[nd]))
    arrows = [tuple(np.array(p, dtype=float) for p in a._posA_posB) for a in ax.patches if isinstance(a, FancyArrowPatch)]
    mon.check('edge', len(arrows) == len(spec['edges']), lambda: '%d arrows for %d edges' % (len(arrows), len(spec['edges'])))
    places = []
    for a, b, lab, typ in spec['edges']:
        here = [p for s, p in texts if s == lab]
        mon.check('edge', len(here) == 1, lambda: 'edge %s written %d times' % (lab, len(here)))
        if here:
            places.append(here[0])
            m = (np.array(pos[a]) + np.array(pos[b]))/2
            v = np.array(pos[b]) - np.array(pos[a])
            # along the middle of the two nodes
            mon.check('edge', abs(np.dot(here[0] - m, v)) <= 1e-9*(1e-3 + np.dot(v, v)), lambda: 'edge %s written away from its nodes' % lab)
    count = lambda l: sorted((tuple(np.round(p, 9)), tuple(np.round(q, 9))) for p, q in l)
    mon.check('edge', count(arrows) == count((np.array(pos[a], dtype=float), np.array(pos[b], dtype=float)) for a, b, _, _ in spec['edges']),
              'arrows do not go from the first to the second node of the edges')
    for i in range(len(places)):
        for j in range(i):
            if set(spec['edges'][i][:2]) == set(spec['edges'][j][:2]):
                mon.check('apart', np.linalg.norm(places[i] - places[j]) > 1e-6, lambda: 'edges %s and %s are written at the same place' % (
                    spec['edges'][i], spec['edges'][j]))
    mon.key((len(nodes), len(spec['edges']), how))


def analysed(spec, mon):
    """the flux-controlled edges point to the node of which they impose the potential"""
    import pyphs
    import matplotlib.pyplot as plt
    from matplotlib.patches import FancyArrowPatch
    net = pyphs.Netlist('analysis.net', clear=True)
    for c in spec['net']:
        net.add_line(N.item(c))
    g = net.to_graph()
    if spec['stage'] == 'start':
        g._build_analysis()
    else:
        try:
            g.perform_analysis()
        except ValueError:
            raise vh.Skip('analysis without solution')
    a = g.analysis
    np.random.seed(spec['seed'] % 1000)
    edges = [(n1, n2, str(d['label'])) for n1, n2, d in a.edges]
    before = (list(a.nodes), edges, a.Lambda.tolist(), sorted(a.ic_nodes))
    a.plot(show=False)
    ax = plt.gca()
    mon.check('not_changed', before == (list(a.nodes), [(n1, n2, str(d['label'])) for n1, n2, d in a.edges], a.Lambda.tolist(),
                                        sorted(a.ic_nodes)), 'the analysis was changed by its figure')
    pos = {n: np.array(p, dtype=float) for n, p in g.positions.items()}
    near = lambda p: min(pos, key=lambda n: np.linalg.norm(pos[n] - p))
    texts = [str(t.get_text()) for t in ax.texts]
    for n in pos:
        mon.check('node', texts.count(str(n)) == 1, lambda: 'node %s is written %d times' % (n, texts.count(str(n))))
    for e in edges:
        mon.check('edge', texts.count(e[2]) == 1, lambda: 'edge %s is written %d times' % (e, texts.count(e[2])))
    want = [edges[e][:2] for e in a.ic_edges]
    for e in a.fc_edges:
        rows = [k for k, v in enumerate(a.Lambda[:, e]) if v]
        n1, n2, _ = edges[e]
        if len(rows) == 1:
            n = a.nodes[rows[0]]
            mon.check('determined', n in (n1, n2), lambda: 'edge %s imposes the potential of %s' % (edges[e], n))
            want.append((n1 if n == n2 else n2, n))
        else:
            want.append((n1, n2))
    got = [tuple(near(np.array(p, dtype=float)) for p in q._posA_posB) for q in ax.patches if isinstance(q, FancyArrowPatch)]
    mon.check('imposed', sorted(got) == sorted(want), lambda: 'arrows %s expected %s, nodes %s' % (sorted(got), sorted(want), a.nodes))
    mon.key(('analysis', spec['stage'], len(a.nodes), len(edges)))


def fmt():
    from pyphs.config import plot_format
    return plot_format
