# -*- coding: utf-8 -*-
"""C21: LaTeX descriptions are well formed and state the equations of the system."""
import io
import os
import random
import re
import contextlib
import numpy as np
import sympy
import vh
import gen as G
import netlib as N
import texlib as T

PROPERTY = 'C21'
LEVEL = 'exploration'
RULE = ('random systems (nonlinear, state-dependent, resistive, observers, parameters, substitutions by numbers and '
        'expressions, declared connections, split or not, names with underscores) and networks of dictionary '
        'components are described in LaTeX by the real code; an independent linter reads the whole document and an '
        'independent reader evaluates every printed formula, matrix, constant and dimension at random points, which are '
        'compared with the specification; distinct by spec hash, non-trivial when a formula was compared')
REQUIRED = ['lint', 'dims', 'constants', 'vectors', 'energy', 'gradient', 'hessian', 'dissipation', 'jacobian', 'outputs',
            'observers', 'connectors', 'structure', 'linear', 'netlist', 'graph', 'document', 'system_kept']
COUNT = {'quick': 60, 'thorough': 1500}
CASE_TIMEOUT = 120
ASSUMPTIONS = ['no LaTeX compiler in the sandbox: the documents are read by a linter (groups, modes, environments, '
               'special characters) and an evaluator written for this check',
               'numbers are printed with 15 digits']


def gen(rng, i, tier):
    if i % 4 == 3:
        return {'kind': 'net', 'seed': rng.randint(0, 10**6),
                'net': N.realizable_net(rng, nnodes=(1, 2), extra=(0, 2), nl=0.4, free=0.3, conn=0.2)}
    conn = rng.random() < 0.4
    c = G.gen_core(rng, nx=(0, 2), nw=(0, 2), ny=(2, 3) if conn else (0, 2), np_=(0, 1), obs=0.5, zdep=0.2, exprsubs=0.5,
                   statedep=0.3, resist=0.5)
    return {'kind': 'core', 'core': c, 'conn': rng.choice([None, '2', '1/3', 'xx']) if conn else 'no',
            'split': rng.random() < 0.5, 'under': rng.random() < 0.3, 'seed': rng.randint(0, 10**6),
            'label': rng.choice(['phs', 'my_system', 'A2']), 'path': rng.choice(['none', 'name', 'abs', 'sub']),
            'title': rng.choice([None, 'A title'])}


def directed():
    return [{'kind': 'core', 'core': {'x': [], 'H': '0', 'w': [], 'z': [], 'u': [], 'y': [], 'cu': [], 'cy': [], 'p': [],
                                      'obs': {}, 'J': [], 'R': [], 'subs': {}}, 'conn': 'no', 'split': sp, 'under': False,
             'seed': 1, 'label': 'empty', 'path': 'none', 'title': None} for sp in (False, True)]


def underscore(c):
    """names with underscores"""
    names = [n for k in ('x', 'w', 'u', 'y', 'p') for n in c[k]] + list(c['subs'])
    m = {n: n[0] + '_' + n[1:] for n in names}
    m.update({'g' + x: 'g' + m[x] for x in c['x']})
    return rename(c, m)


def rename(c, m):
    def walk(o):
        if isinstance(o, str):
            return re.sub(r'[A-Za-z_]\w*', lambda t: m.get(t.group(), t.group()), o)
        if isinstance(o, list):
            return [walk(q) for q in o]
        if isinstance(o, dict):
            return {walk(k): walk(v) for k, v in o.items()}
        return o
    return {k: walk(v) for k, v in c.items()}


def run(spec, mon):
    mon.key(spec['kind'])
    with contextlib.redirect_stdout(io.StringIO()):
        {'core': run_core, 'net': run_net}[spec['kind']](spec, mon)


LINE = re.compile(r'^\\par\\Resize\{\$ (.*?) = (.*)\$\.?\}\s*$')


def formulas(text):
    """[(label, formula)] of the printed equations"""
    out = []
    for line in text.splitlines():
        m = LINE.match(line.strip())
        if m:
            out.append((m.group(1).strip(), m.group(2).strip()))
    return out


def norm(s):
    return re.sub(r'\s', '', s)


def entries(v, shape, env, what):
    """numerical matrix of a printed one"""
    if v == r'\mathrm{Empty}':
        return np.zeros(shape) if 0 in shape else None
    if v == r'\mathrm{Zeros}':
        return np.zeros(shape)
    a = T.array(v)
    if a is None:
        return None
    return np.array([[T.evaluate(e, env) for e in r] for r in a], dtype=float)


def names_of(v):
    """names of a printed vector of symbols"""
    if v == r'\mathrm{Empty}':
        return []
    return [re.sub(r'\\mathrm|[{}_\s\\]', '', e) for r in T.array(v) for e in r]


def run_core(spec, mon):
    import pyphs
    from pyphs.misc.latex import core2tex, texdocument
    rng = random.Random(spec['seed'])
    c = spec['core']
    if rng.random() < 0.5:
        # constants with capital letters, some of which differ by the case only
        c = rename(c, {k: rng.choice('KRC') + k[1:] for k in sorted(c['subs'])} if rng.random() < 0.7 else
                   dict(zip(sorted(c['subs']), ['Ra', 'ra', 'RA', 'rA', 'Kb', 'kB', 'KB', 'kb'])))
    c = underscore(c) if spec['under'] else c
    core = G.build_core(c, spec['label'])
    if spec['split']:
        core.linear_nonlinear()
    alpha = None
    conn = None
    if spec['conn'] != 'no' and len(core.y) > 1:
        i, j = rng.sample(range(len(core.y)), 2)
        alpha = {None: None, '2': 2, '1/3': sympy.Rational(1, 3), 'xx': 1 + (core.x[0] if core.x else 0)**2}[spec['conn']]
        conn = [str(e) for e in (core.u[i], core.u[j], core.y[i], core.y[j])]
        core.add_connector((i, j), alpha=alpha) if alpha is not None else core.add_connector((i, j))
    state = snapshot(core)
    text = core2tex(core)
    mon.check('system_kept', snapshot(core) == state, 'describing the system changes it')
    judge(spec, c, core, text, conn, alpha, rng, mon)
    # the document
    here = os.getcwd()
    os.makedirs('out', exist_ok=True)
    path = {'none': None, 'name': 'doc_a.tex', 'abs': os.path.join(here, 'out', 'd.tex'), 'sub': os.path.join('out', 'e.tex')}[spec['path']]
    kw = {} if path is None and spec['title'] is None else {'path': path, 'title': spec['title']}
    core.texwrite(**kw)
    full = open(path or (spec['label'] + '.tex')).read()
    document(spec, full, text, mon, spec['title'] or spec['label'])
    # a document of free content
    texdocument('Free content of system A # 3\n', 'free.tex', title='T')
    d = open('free.tex').read()
    mon.check('document', 'Free content of system A \\# 3' in d and r'\title{T}' in d, 'free content')


def document(spec, full, text, mon, title):
    bad = T.lint(full)
    mon.check('lint', not bad, lambda: '%s' % bad[:4])
    body = full[full.index(r'\begin{document}'):] if r'\begin{document}' in full else ''
    mon.check('document', norm(text.replace('#', '\\#')) in norm(body) and full.rstrip().endswith(r'\end{document}'),
              'the description is not in the document')
    m = re.search(r'\\title\{(.*)\}', full)
    mon.check('document', bool(m) and m.group(1).replace('\\_', '_') == title, lambda: 'title %s' % m)


def snapshot(core):
    return ([str(e) for n in ('x', 'w', 'u', 'y', 'cu', 'cy', 'p', 'z') for e in getattr(core, n)], str(core.H),
            [str(e) for e in core.M], sorted(map(str, core.subs.items())), [str(t) for t in core.observers.items()],
            str(core.connectors), str(core.Q), str(core.Zl), core.dims.xl(), core.dims.wl())


def judge(spec, c, core, text, conn, alpha, rng, mon):
    bad = T.lint(text)
    mon.check('lint', not bad, lambda: '%s' % bad[:4])
    fs = formulas(text)
    table = {}
    for k, v in fs:
        table.setdefault(norm(k), []).append(v)

    def one(label, kind):
        l = table.get(norm(label), [])
        mon.check(kind, len(l) == 1, lambda: '%d equations for %s' % (len(l), label))
        return l[0] if l else None
    X, W, U, Y, CU, CY, P = [[str(e) for e in getattr(core, n)] for n in ('x', 'w', 'u', 'y', 'cu', 'cy', 'p')]
    env = {}
    for n in X + W + U + Y + CU + CY + P:
        env[n] = rng.uniform(-1, 1)
    for x in X:
        env['g' + x] = rng.uniform(-1, 1)
        env['d' + x] = rng.uniform(-1, 1)
    for k, v in c['subs'].items():
        if not isinstance(v, str):
            env[k] = float(v)
    tab = G.symtab(c)

    def val(e):
        e = sympy.sympify(e)
        return float(e.subs({s: env[str(s)] for s in e.free_symbols}))
    for k, v in c['subs'].items():
        if isinstance(v, str):
            env[k] = val(G.parse(v, tab))
    for o in c['obs']:
        env[o] = rng.uniform(-1, 1)
    zenv = dict(env)
    for w in W:
        zenv['z' + w[1:]] = rng.uniform(-1, 1)
    plain = lambda l: [e.replace('_', '') for e in l]
    try:
        for label, ref in [(r'\mathbf{x}', X), (r'\mathbf{d_x}', ['d' + x for x in X]), (r'\mathbf{w}', W), (r'\mathbf{u}', U),
                           (r'\mathbf y', Y), (r'\mathbf p', P), (r'\mathbf u_c', CU), (r'\mathbf y_c', CY),
                           (r'\mathbf o', [str(o) for o in core.o()]), (r'\nabla\mathrm H(\mathbf{x})', ['g' + x for x in X]),
                           (r'\mathbf z(\mathbf{w})', ['z' + w[1:] for w in W])]:
            v = one(label, 'vectors')
            if v is not None:
                mon.check('vectors', names_of(v) == plain(ref), lambda: '%s is %s, expected %s' % (label, v, ref))
        H = G.parse(c['H'], tab) if X else sympy.S(0)
        v = one(r'\mathrm H(\mathbf{x})', 'energy')
        if v is not None:
            mon.close('energy', T.evaluate(v, env), val(H), 1e-9, 1e-10, v)
        xs = [tab[x] for x in X]
        ws = [tab[w] for w in W]
        zt = {w: G.parse(z, tab) for w, z in zip(c['w'], c['z'])}
        Z = [zt[w] for w in W]
        g = [val(H.diff(x)) for x in xs]
        z = [val(e) for e in Z]

        def element(name, kind, ref):
            pat = name[0] + r'_{\mathrm{%s}}' % name[1:] if len(name) > 1 else name
            l = [v for k, v in fs if re.sub(r'\\mathrm|[{}_\s\\]', '', k) == name.replace('_', '')]
            if mon.check(kind, len(l) == 1, lambda: '%d equations for %s' % (len(l), name)):
                mon.close(kind, T.evaluate(l[0], env), ref, 1e-8, 1e-9, lambda: '%s = %s' % (name, l[0]))
        for x, r in zip(X, g):
            element('g' + x, 'gradient', r)
        for w, r in zip(W, z):
            element('z' + w[1:], 'dissipation', r)
        # structure
        M = np.array(G.total_M(c, tab).applyfunc(val).tolist(), dtype=float).reshape((len(c['x'] + c['w'] + c['y']),)*2) \
            if c['x'] + c['w'] + c['y'] else np.zeros((0, 0))
        pos = {n: k for k, n in enumerate(c['x'] + c['w'] + c['y'])}
        allY = Y + CY
        idx = [pos[n] for n in X + W + allY]
        M = M[np.ix_(idx, idx)] if idx else M
        start, sizes = {}, {}
        s = 0
        for n, l in (('x', X), ('w', W), ('y', Y), ('cy', CY)):
            start[n], sizes[n] = s, len(l)
            s += len(l)
        mats = {'M': M, 'J': (M - M.T)/2, 'R': -(M + M.T)/2}
        for nm, A in mats.items():
            v = one(r'\mathbf{%s}' % nm, 'structure')
            if v is not None:
                B = entries(v, A.shape, env, nm)
                mon.check('structure', B is not None, lambda: '%s printed as %s' % (nm, v))
                if B is not None:
                    mon.close('structure', B, A, 1e-9, 1e-10, v)
            for a in sizes:
                for b in sizes:
                    v = one(r'\mathbf{%s_{%s%s}}' % (nm, a, b), 'structure')
                    R = A[start[a]:start[a] + sizes[a], start[b]:start[b] + sizes[b]]
                    if v is not None:
                        B = entries(v, R.shape, env, nm)
                        mon.check('structure', B is not None, lambda: '%s%s%s printed as %s' % (nm, a, b, v))
                        if B is not None:
                            mon.close('structure', B, R, 1e-9, 1e-10, v)
        allU = U + CU
        av = np.array(g + z + [env[u] for u in allU])
        b = M.dot(av) if len(av) else np.zeros(0)
        for k, y in enumerate(Y):
            element(y, 'outputs', b[start['y'] + k])
        mon.seen('outputs')
        for o, e in c['obs'].items():
            element(o, 'observers', val(G.parse(e, tab)))
        # connectors
        if conn:
            u0, u1, y0, y1 = conn
            a = val(1 if alpha is None else alpha)
            element(u0, 'connectors', -a*env[y1])
            element(u1, 'connectors', a*env[y0])
        # derivatives
        for label, kind, ref in [(r'\triangle\mathrm H(\mathbf x)', 'hessian', [[val(H.diff(p, q)) for q in xs] for p in xs]),
                                 (r'\mathcal J_{\mathbf z}(\mathbf w)', 'jacobian', [[val(e.diff(q)) for q in ws] for e in Z])]:
            v = one(label, kind)
            n = len(ref)
            if v is not None:
                B = entries(v, (n, n), env, kind)
                mon.check(kind, B is not None, lambda: '%s printed as %s' % (label, v))
                if B is not None:
                    mon.close(kind, B, np.array(ref, dtype=float).reshape(n, n), 1e-8, 1e-9, v)
        # linear parts, as held by the system
        xl, wl = core.dims.xl(), core.dims.wl()
        for label, ref in [(r'\mathbf{Q}', core.Q), (r'\mathbf{b_l}', core.bl), (r'\mathbf{Z_l}', core.Zl)]:
            v = one(label, 'linear')
            if v is None:
                continue
            R = sympy.Matrix(ref)
            A = np.array([val(e) for e in R], dtype=float).reshape(R.shape)
            B = entries(v, R.shape, env, label)
            mon.check('linear', B is not None, lambda: '%s printed as %s' % (label, v))
            if B is not None:
                mon.close('linear', B, A, 1e-9, 1e-10, v)
    except T.TexError as e:
        mon.check('lint', False, 'unreadable formula: %s' % e)
    # dimensions
    for key, ref in [('x', len(X)), ('w', len(W)), ('y', len(Y)), ('p', len(P)), ('o', len(c['obs'])), ('cy', len(CY)),
                     ('xl', core.dims.xl()), ('xnl', core.dims.xnl()), ('wl', core.dims.wl()), ('wnl', core.dims.wnl())]:
        lab = key if key == 'cy' or len(key) == 1 else '%s_{%s}' % (key[0], key[1:])
        m = re.findall(r'\$\s*n_\\mathbf\{%s\}\s*=\s*(\d+)\s*\$' % re.escape(lab), text)
        mon.check('dims', m == [str(ref)], lambda: 'dimension of %s: %s, expected %d' % (key, m, ref))
    for sym, n in [(r'\mathbf x', len(X)), (r'\mathbf w', len(W)), (r'\mathbf u', len(Y)), (r'\mathbf p', len(P)), (r'\mathbf y', len(Y)),
                   (r'\mathbf o', len(c['obs'])), (r'\mathbf u_c', len(CY)), (r'\mathbf y_c', len(CY))]:
        m = re.findall(re.escape(sym) + r': t\\mapsto ' + re.escape(sym) + r'\(t\)\s*\\in\s*\\mathbb R\s*\^\{(\d+)\}', text)
        mon.check('dims', m == [str(n)], lambda: 'space of %s: %s, expected %d' % (sym, m, n))
    # constants
    m = re.search(r'parameter & value \(SI\)\s*\\\\ \\hline(.*?)\\hline', text, re.S)
    if mon.check('constants', bool(m), 'no table of constants'):
        rows = [r.strip() for r in m.group(1).split('\\\\') if r.strip()]
        mon.check('constants', len(rows) == len(c['subs']), lambda: '%d rows for %d constants' % (len(rows), len(c['subs'])))
        got = {}
        for r in rows:
            k, v = r.split('&')
            try:
                v = v.strip().strip('$')
                try:
                    v = float(v)
                except ValueError:
                    v = T.evaluate(v, env)
            except T.TexError as e:
                mon.check('constants', False, 'unreadable value %r: %s' % (v, e))
                continue
            got[re.sub(r'\\mathrm|[{}_\s\\$]', '', k)] = v
        for k in c['subs']:
            q = k.replace('_', '')
            if mon.check('constants', q in got, lambda: 'constant %s is missing from %s' % (k, sorted(got))):
                mon.close('constants', got[q], env[k], 1e-10, 1e-12, k)
    mon.sample = {'equations': len(fs)}


def run_net(spec, mon):
    import pyphs
    from pyphs.misc.latex import netlist2tex, graphplot2tex
    rng = random.Random(spec['seed'])
    net = pyphs.Netlist('tex_net.net', clear=True)
    for c in spec['net']['comps']:
        net.add_line(N.item(c))
    text = netlist2tex(net)
    bad = T.lint(text)
    mon.check('lint', not [b for b in bad if '# in the text' not in b], lambda: '%s' % bad[:4])
    i = text.index(r'parameters \\') if r'parameters \\' in text else 0
    body = text[i:]
    plain = re.sub(r'\s+', ' ', body.replace('\\_', '_').replace('%', ''))
    rows = re.split(r'(?=\$\\ell_)', plain)[1:]
    lines = list(net)
    mon.check('netlist', len(rows) == len(lines), lambda: '%d rows for %d lines' % (len(rows), len(lines)))
    for k, (row, l) in enumerate(zip(rows, lines)):
        cells = [q.strip() for q in row.split('&', 5)]
        mon.check('netlist', len(cells) == 6 and re.sub(r'[{}]', '', cells[0]) == r'$\ell_%d$' % (k + 1) and cells[1] == l['label']
                  and cells[2] == '%s.%s' % (l['dictionary'], l['component']) and cells[3] and
                  re.sub(r'\s', '', cells[3] + '&' + cells[4]).startswith(re.sub(r'\s', '', str(l['nodes']))) or
                  re.sub(r'\s', '', cells[3]) == re.sub(r'\s', '', str(l['nodes'])), lambda: 'row %s for %s' % (row, l))
        if k + 1 > 9:
            mon.check('netlist', cells[0] == r'$\ell_{%d}$' % (k + 1), cells[0])
        args = row[row.index('\\begin{tabular}'):] if '\\begin{tabular}' in row else ''
        for a, v in l['arguments'].items():
            want = re.sub(r'\s', '', '%s&%s\\\\' % (a, v))
            mon.check('netlist', want in re.sub(r'\s', '', args), lambda: '%s missing from %s' % (want, args))
    graph = net.to_graph()
    os.makedirs('fig', exist_ok=True)
    n = (graph.number_of_nodes(), graph.number_of_edges())
    t = graphplot2tex(graph, folder='fig')
    m = re.search(r'made of (\d+) nodes and (\d+) eg', t) or re.search(r'made of (\d+) nodes and (\d+) ed', t)
    mon.check('graph', bool(m) and (int(m.group(1)), int(m.group(2))) == n, lambda: 'graph described by %s' % (m and m.groups(),))
    f = re.search(r'\\includegraphics\[[^\]]*\]\{([^}]*)\}', t)
    mon.check('graph', bool(f) and os.path.isfile(f.group(1)) and os.path.getsize(f.group(1)) > 0, lambda: 'figure %s' % f)
    core = graph.to_core()
    path = rng.choice(['n.tex', os.path.join('fig', 'n.tex'), None])
    core.texwrite(path=path)
    full = open(path or core.label + '.tex').read()
    mon.check('document', norm(text.replace('#', '\\#')) in norm(full), 'netlist missing from the document')
    bad = T.lint(full)
    mon.check('lint', not bad, lambda: '%s' % bad[:4])
    import matplotlib.pyplot as plt
    plt.close('all')
