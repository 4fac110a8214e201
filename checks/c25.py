# -*- coding: utf-8 -*-
"""C25: the generated documentation of a component describes the component that is built."""
import ast
import copy
import doctest
import importlib
import os
import random
import re
import numpy as np
import vh
import shadow as S

PROPERTY = 'C25'
LEVEL = 'exploration'
RULE = ('documentation generated for every component of the dictionary, with its own metadata and with '
        'random labels, node names, parameter values (numbers, labels, labelled values), descriptions and '
        'references; the documented example is executed, the usage line is evaluated, the netlist line is '
        'read by the netlist reader, and the three must build the same system; the tables are parsed as '
        'reStructuredText grids and compared with the data; random tables and titles; documentation '
        'of the whole dictionary written to files; distinct by spec hash, non-trivial when a document was parsed')
REQUIRED = ['example', 'dims', 'usage', 'netlist', 'agree', 'names', 'values', 'table', 'title', 'refs', 'texts',
            'unchanged', 'variables', 'types', 'grid', 'simple', 'heading', 'files', 'index', 'equation']
COUNT = {'quick': 700, 'thorough': 12000}
ASSUMPTIONS = ['the numbers of nodes and edges of the fractional components depend on the optimiser and are not compared',
               'simple tables are compared cell by cell from the column marks, borders between rows are accepted']

DICOS = ['electronics', 'mechanics', 'mechanics_dual', 'magnetics', 'thermics', 'connectors', 'transducers',
         'beams', 'fraccalc', 'pwl']
SLOW = ('fraccalc', 'beams', 'pwl')
FAST = [d for d in DICOS if d not in SLOW]
WORDS = ['Gain', 'stiffness of the spring', 'a', 'x-ref', 'Level (rms)', '100 %', 'ratio a/b', 'mu', u'N.m', 'Cost: $5', "d'amortissement"]
CELLS = ['', "'a'", "l'", 'a', '1e-09', 'Some longer text', 'x|y', 'N+1', '-', 'd/l', '=', 'alpha', '$R$', '{0}', '%d']


def components():
    out = []
    for d in DICOS:
        mod = importlib.import_module('pyphs.dictionary.' + d)
        out += [(d, c) for c in sorted(mod.__all__)]
    return out


def directed():
    out = [{'kind': 'own', 'dico': d, 'seed': 0} for d in DICOS]
    out += [{'kind': 'files', 'seed': 1}, {'kind': 'equation', 'seed': 1}, {'kind': 'grid', 'seed': 0, 'rows': 0, 'cols': 1}]
    return out


def gen(rng, i, tier):
    kind = ['random', 'random', 'grid', 'random', 'heading'][i % 5]
    s = {'kind': kind, 'seed': rng.randint(0, 10**6)}
    if kind == 'grid':
        s.update(rows=rng.randint(0, 6), cols=rng.randint(1, 5))
    if kind == 'random':
        s.update(dico=rng.choice(FAST), pick=rng.random(), nref=rng.choice([0, 0, 1, 1, 2, 3]),
                 rename=rng.random() < 0.7, values=rng.random() < 0.8, words=rng.random() < 0.7)
    return s


def run(spec, mon):
    mon.key(spec['kind'])
    rng = random.Random(spec['seed'])
    globals()['run_' + spec['kind']](spec, mon, rng)


# --------------------------------------------------------------------------- #
# reStructuredText

def grid(lines, mon, name, where):
    """rows of a grid table: [[cell]], and the row of the header border"""
    mark = [k for k, c in enumerate(lines[0]) if c == '+']
    ok = all(len(l) == len(lines[0]) for l in lines) and mark[0] == 0 and mark[-1] == len(lines[0])-1
    mon.check(name, ok, lambda: '%s: lines of different lengths\n%s' % (where, '\n'.join(lines)))
    rows, borders = [], []
    for k, l in enumerate(lines):
        if k % 2 == 0:
            mon.check(name, all(l[m] == '+' for m in mark) and set(l) - set('+') <= set('=' if k == 2 else '-'),
                      lambda: '%s: border %r' % (where, l))
            borders.append(k)
        else:
            mon.check(name, all(l[m] == '|' for m in mark), lambda: '%s: row %r against %r' % (where, l, lines[0]))
            cells = [l[a+1:b] for a, b in zip(mark, mark[1:])]
            rows.append([c.strip() for c in cells])
    mon.check(name, borders and borders[-1] == len(lines)-1, lambda: '%s: not closed' % where)
    return rows


def heading(lines, k, mon, name, text, top):
    """heading whose text is at line k"""
    n = len(lines[k].rstrip())
    under = lines[k+1].rstrip()
    ok = lines[k].strip() == text and len(set(under)) == 1 and not under[0].isalnum() and len(under) >= n
    if top:
        ok = ok and lines[k-1].rstrip() == under
    mon.check(name, ok, lambda: 'heading of %r: %r' % (text, lines[max(k-1, 0):k+2]))


# --------------------------------------------------------------------------- #
# systems

def fingerprint(g, rng):
    """numbers of the system built from a graph, by name"""
    core = g.core.__copy__() if hasattr(g.core, '__copy__') else copy.copy(g.core)
    r = random.Random(7)
    at = {}
    syms = sorted(set(list(core.x) + list(core.dx()) + list(core.w) + list(core.u) + list(core.p) +
                      list(core.H.free_symbols)) | set().union(*[z.free_symbols for z in core.z] or [set()]), key=str)
    for s in syms:
        at[s] = r.uniform(0.1, 0.9)
    at.update(core.subs)
    out = {'H': number(core.H, at), 'x': sorted(map(str, core.x)), 'w': sorted(map(str, core.w)),
           'u': sorted(map(str, core.u)), 'p': sorted(map(str, core.p)), 'subs': {str(k): v for k, v in core.subs.items()}}
    out['z'] = {str(w): number(z, at) for w, z in zip(core.w, core.z)}
    out['edges'] = sorted((str(a), str(b), str(d['label']), str(d['type']), str(d['ctrl'])) for a, b, d in g.edges(data=True))
    return out


def number(e, at):
    try:
        v = S.value(e, at)
        return v if abs(v) < 1e200 else 'large'
    except (OverflowError, ZeroDivisionError, ValueError) as err:
        return type(err).__name__


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(i, j) for i, j in zip(a, b))
    if isinstance(a, (tuple, str)) or isinstance(b, (tuple, str)):
        return a == b
    if getattr(a, 'free_symbols', None) or getattr(b, 'free_symbols', None):
        return str(a) == str(b)
    if a != a or b != b:
        return a != a and b != b
    return abs(complex(a) - complex(b)) <= 1e-12*(1 + abs(complex(a)))


def document(cls, md, doc, mon, rng, build=True, name=''):
    """checks of the documentation `doc` of `cls` from the metadata `md`"""
    dico, comp, label, nodes = md['dico'], md['component'], md['label'], md['nodes']
    pars = [tuple(p) for p in md['parameters']]
    lines = doc.splitlines()
    where = '%s.%s' % (dico, comp)
    mon.key(where)
    # title
    k = next((k for k, l in enumerate(lines) if l.strip() and l.strip().strip('=')), None)
    full = md['title'] if md['title'] == comp else '%s (%s)' % (md['title'], comp)
    heading(lines, k, mon, 'title', full, True)
    for t in ('Power variables', 'Arguments', 'Usage', 'Netlist line', 'Example'):
        where_t = [k for k, l in enumerate(lines) if l.strip() == t]
        mon.check('title', len(where_t) == 1, lambda: '%s: section %r' % (where, t))
        heading(lines, where_t[0], mon, 'title', t, False)
    # texts
    want = [md['desc'], md['nodesdesc'], '**flux**: %s :math:`%s`   (%s)' % (md['flux'][1], md['flux'][0], md['flux'][2]),
            '**effort**: %s :math:`%s`   (%s)' % (md['effort'][1], md['effort'][0], md['effort'][2]), 'nodes : %s' % (nodes,)]
    for w in want:
        mon.check('texts', w.strip() in doc, lambda: '%s: %r is missing' % (where, w))
    # references
    n = len(md['refs'])
    got = re.findall(r'^\.\. \[(\d+)\] (.*)$', doc, re.M)
    mon.check('refs', sorted(got) == sorted((str(i), md['refs'][i]) for i in md['refs']), lambda: '%s: references %r for %r' % (where, got, md['refs']))
    mon.check('refs', ('References' in lines) == (n > 1) and ('Reference' in lines) == (n == 1), lambda: '%s: section of the references' % where)
    # table
    tab = [l for l in lines if l[:1] in ('+', '|')]
    if tab:
        rows = grid(tab, mon, 'table', where)
        ref = [['Key', 'Description', 'Unit', 'Default']] + [[str(c).strip() for c in p] for p in pars]
        mon.check('table', rows == ref, lambda: '%s: table %r for %r' % (where, rows, ref))
    else:
        mon.check('table', False, '%s: no table' % where)
    # usage and netlist lines
    code = [l[2:-2] for l in lines if l.startswith('``') and l.endswith('``')]
    mon.check('usage', len(code) == 2, lambda: '%s: %d code lines' % (where, len(code)))
    use, net = code
    m = ast.parse(use).body[0]
    call = m.value
    args = [ast.literal_eval(a) for a in call.args]
    kws = {q.arg: ast.literal_eval(q.value) for q in call.keywords}
    want = {p[0]: p[3] for p in pars}
    mon.check('usage', m.targets[0].id == label and call.func.id == comp and args == [label, nodes] and kws == want,
              lambda: '%s: usage %r' % (where, use))
    from pyphs import Netlist
    path = os.path.join(os.getcwd(), 'doc.net')
    with open(path, 'w') as f:
        f.write(net + '\n')
    n = Netlist(path)
    item = dict(n[0])
    mon.check('netlist', n.nlines() == 1 and item['dictionary'] == dico and item['component'] == comp.lower() and
              item['label'] == label and tuple(item['nodes']) == tuple(nodes) and item['arguments'] == want,
              lambda: '%s: netlist line %r read as %r' % (where, net, item))
    # example
    ex = doctest.DocTestParser().get_doctest(doc, {}, where, None, None)
    mon.check('example', len(ex.examples) >= 7, lambda: '%s: %d statements in the example' % (where, len(ex.examples)))
    if not build:
        return
    out = []
    runner = doctest.DocTestRunner(verbose=False)
    if dico == 'fraccalc':
        ex.examples = ex.examples[:-2]
    res = runner.run(ex, out=out.append, clear_globs=False)
    mon.check('example', res.failed == 0, lambda: '%s: %s' % (where, ''.join(out)[:900]))
    g = ex.globs['component']
    mon.check('dims', dico == 'fraccalc' or (len(g.nodes) == md['nnodes'] and len(g.edges) == md['nedges']),
              lambda: '%s: %d nodes and %d edges, documented %d and %d' % (where, len(g.nodes), len(g.edges), md['nnodes'], md['nedges']))
    mon.check('values', ex.globs['parameters'] == want and ex.globs['nodes'] == nodes and ex.globs['label'] == label,
              lambda: '%s: example with %r' % (where, ex.globs['parameters']))
    mon.check('names', isinstance(g, cls), lambda: '%s: the example builds a %s' % (where, type(g)))
    if dico == 'fraccalc':
        return
    env = {comp: cls}
    exec(use, env)
    a = fingerprint(g, rng)
    b = fingerprint(env[label], rng)
    mon.check('agree', same(a, b), lambda: '%s: usage %r, example %r' % (where, b, a))
    c = fingerprint(n.to_graph(), rng)
    mon.check('agree', same(a, c), lambda: '%s: netlist %r, example %r' % (where, c, a))


def run_own(spec, mon, rng):
    from pyphs.dictionary.tools import componentDoc
    mod = importlib.import_module('pyphs.dictionary.' + spec['dico'])
    for c in sorted(mod.__all__):
        cls = getattr(mod, c)
        md = cls.metadata
        mon.check('names', md['component'] == c and md['dico'] == spec['dico'], lambda: '%s is documented as %s.%s' % (c, md['dico'], md['component']))
        keep = copy.deepcopy(md)
        doc = componentDoc(md)
        mon.check('unchanged', all(md[k] == keep[k] for k in keep), lambda: '%s: metadata changed' % c)
        build = spec['dico'] != 'pwl'
        document(cls, md, doc, mon, rng, build)
        if build and spec['dico'] not in ('fraccalc', 'beams'):
            # documentation carried by the objects and by the class
            o = cls(md['label'], md['nodes'], **{p[0]: p[3] for p in md['parameters']})
            mon.check('texts', o.__doc__ == doc, lambda: '%s: the documentation of the object is not the one of the component' % c)
        # power variables of the dictionary
        mon.check('variables', all(list(md[k]) == list(mod.metadata[k]) for k in ('flux', 'effort')), lambda: '%s: power variables %r %r, dictionary %r' % (
            c, md['flux'], md['effort'], mod.metadata))
        # every documented type of source is accepted, with one control each; others are refused
        for q in md['parameters']:
            if q[0] == 'type':
                names = re.findall("'([^']*)'", q[1])
                ctrl = []
                for v in names + [n.upper() for n in names]:
                    g = cls(md['label'], md['nodes'], type=v)
                    ctrl.append([d['ctrl'] for _, _, d in g.edges(data=True)])
                n = len(names)
                mon.check('types', n == 2 and q[3] in names and ctrl[0] != ctrl[1] and ctrl[:n] == ctrl[n:], lambda: '%s: types %r, controls %r' % (c, names, ctrl))
                mon.check('types', all(t in names for t in re.findall(r"type='(\w*)'", md['desc'])), lambda: '%s: types of the description %r' % (c, md['desc']))
                try:
                    cls(md['label'], md['nodes'], type='other')
                    mon.check('types', False, '%s: unknown type accepted' % c)
                except (AssertionError, ValueError):
                    mon.check('types', True, '')
        # without parameters: the documented defaults are the defaults
        if build and spec['dico'] not in ('fraccalc', 'beams'):
            a = fingerprint(cls(md['label'], md['nodes']), rng)
            b = fingerprint(cls(md['label'], md['nodes'], **{p[0]: p[3] for p in md['parameters']}), rng)
            mon.check('values', same(a, b), lambda: '%s: documented defaults %r, used %r' % (c, b, a))


def run_random(spec, mon, rng):
    from pyphs.dictionary.tools import componentDoc
    mod = importlib.import_module('pyphs.dictionary.' + spec['dico'])
    names = sorted(mod.__all__)
    cls = getattr(mod, names[int(spec['pick']*len(names))])
    md = copy.deepcopy(cls.metadata)
    md['refs'] = {i+1: rng.choice(WORDS) + ', %d' % rng.randint(1900, 2018) for i in range(spec['nref'])}
    if spec['rename']:
        md['label'] = rng.choice(['a', 'comp1', 'R2D2', 'my_comp', 'X'])
        pre = rng.choice(['N', 'node', 'P_', 'x'])
        ks = rng.sample(range(20), len(md['nodes']))
        md['nodes'] = tuple('%s%d' % (pre, k) for k in ks)
        if spec['dico'] == 'thermics' and len(ks) == 1:
            md['nodes'] = (md['label'],)     # the node of a heat component has its label
    if spec['words']:
        md['desc'] = rng.choice(WORDS)
        md['nodesdesc'] = rng.choice(WORDS)
        if rng.random() < 0.5:
            md['title'] = rng.choice([md['component'], 'Some component', u'Element'])
    for k, p in enumerate(md['parameters']):
        p = list(p)
        if spec['words'] and rng.random() < 0.5:
            p[1] = rng.choice(WORDS)
            p[2] = rng.choice(['', 'N.m', 'd.u.', 'A/(m.s)', 'in [0, 1]'])
        if spec['values'] and not isinstance(p[3], str):
            v = rng.choice([rng.uniform(0.1, 3), 1e-3*rng.random(), 10**rng.randint(0, 3), float(rng.randint(1, 9)), 2.5e-12])
            p[3] = v
            if p[0] in ('Ccoil', 'Ncoil'):
                pass                         # numbers only
            elif rng.random() < 0.3:
                p[3] = ('%s%d' % (rng.choice(['q', 'Par', 'k_']), k), v)
            elif rng.random() < 0.2:
                p[3] = 'free%d' % k
        md['parameters'][k] = p
    keep = copy.deepcopy(md)
    doc = componentDoc(md)
    mon.check('unchanged', all(md[k] == keep[k] for k in keep), 'metadata changed')
    document(cls, keep, doc, mon, rng)


def run_grid(spec, mon, rng):
    from pyphs.misc.rst import rstTable
    from pyphs.misc.rst.tools import rstTableV2
    cols, rows = spec['cols'], spec['rows']
    header = [rng.choice(['Key', 'A longer header', 'U', 'Description']) for k in range(cols)]
    content = [[rng.choice([rng.choice(CELLS), rng.uniform(0, 1), rng.randint(0, 9999), ('a', 2)]) for k in range(cols)] for r in range(rows)]
    keep = copy.deepcopy((header, content))
    t = rstTable(header, content)
    mon.check('unchanged', (header, content) == keep, 'the table of the caller was changed')
    lines = t.splitlines()
    # cells may hold the marks of the table: locate the columns on the borders
    got = grid(lines, mon, 'grid', 'table')
    ref = [header] + [[str(c).strip() for c in r] for r in content]
    mon.check('grid', got == ref and t.endswith('\n'), lambda: 'table %r for %r' % (got, ref))
    strs = [[str(c) for c in r] for r in content]
    t = rstTableV2(header, strs)
    lines = [l for l in t.splitlines()]
    b = lines[0]
    mark = [(m.start(), m.end()) for m in re.finditer('=+', b)]
    rws = [l for l in lines[1:] if l.rstrip() != b.rstrip() or set(b) - set('= ')]
    ok = len(mark) == cols and lines[2].rstrip() == b.rstrip() and lines[-1].rstrip() == b.rstrip()
    mon.check('simple', ok, lambda: 'simple table\n%s' % t)
    text = [lines[k] for k in range(1, len(lines), 2)]
    got = [[l[a:e].strip() for a, e in mark] for l in text]
    gaps = all(not l[e:a].strip() for l in text for (_, e), (a, _) in zip(mark, mark[1:]))
    mon.check('simple', got == [header] + [[c.strip() for c in r] for r in strs] and gaps, lambda: 'simple table %r\n%s' % (got, t))
    del rws


def run_heading(spec, mon, rng):
    from pyphs.misc.rst import title, indent
    texts = [''.join(rng.choice('abc XYZ-()é') for _ in range(rng.randint(1, 40))).strip() or 'T' for _ in range(6)]
    seen = []
    for level, text in enumerate(texts):
        lines = title(text, level).splitlines()
        k = 1 if level < 2 else 0
        heading(lines, k, mon, 'heading', text, level < 2)
        mon.check('heading', len(lines) == (3 if level < 2 else 2), lambda: '%r' % lines)
        seen.append((level < 2, lines[-1][0]))
    mon.check('heading', len(set(seen)) == 6, lambda: 'levels not told apart: %r' % seen)
    mon.check('heading', title(texts[0]) == title(texts[0], 1), 'default level')


def run_equation(spec, mon, rng):
    from pyphs.misc.rst import equation
    from pyphs.config import RST
    keep = dict(RST)
    try:
        RST['equations'] = 'mathjax'
        mon.check('equation', equation('x^2').split() == ['..', 'math::', 'x^2'] and '\n\n    x^2\n' in equation('x^2'), lambda: equation('x^2'))
        RST['equations'] = 'latex'
        mon.check('equation', equation('x^2').strip() == '$x^2$', lambda: equation('x^2'))
        RST['equations'] = 'word'
        try:
            equation('x')
            mon.check('equation', False, 'unknown format accepted')
        except AttributeError:
            mon.check('equation', True, '')
    finally:
        RST.clear()
        RST.update(keep)


def run_files(spec, mon, rng):
    from pyphs import dictionary
    from pyphs.dictionary.tools import generateDicDoc
    folder = os.path.join(os.getcwd(), 'dicdoc')
    os.makedirs(folder, exist_ok=True)
    before = {d: sorted(getattr(dictionary, d).__all__) for d in DICOS}
    for turn in range(2):
        generateDicDoc(folder)
        if turn == 0:
            # a file of an earlier version goes away
            with open(os.path.join(folder, 'electronics', 'Old.rst'), 'w') as f:
                f.write('old')
    mon.check('files', sorted(os.listdir(folder)) == sorted(DICOS), lambda: 'folders %r' % os.listdir(folder))
    for d in DICOS:
        mon.check('unchanged', sorted(getattr(dictionary, d).__all__) == before[d], 'list of components changed')
        mod = getattr(dictionary, d)
        got = sorted(os.listdir(os.path.join(folder, d)))
        mon.check('files', got == sorted([c + '.rst' for c in before[d]] + ['index.rst']), lambda: '%s: files %r' % (d, got))
        with open(os.path.join(folder, d, 'index.rst')) as f:
            index = f.read()
        links = dict((b, a) for a, b in re.findall(r'^- `(.*) </posts/dicos/(.*)>`_$', index, re.M))
        mon.check('index', '.. slug: %s-index' % d in index and len(links) == len(before[d]), lambda: '%s: index %r' % (d, links))
        for c in before[d]:
            cls = getattr(mod, c)
            md = cls.metadata
            with open(os.path.join(folder, d, c + '.rst')) as f:
                text = f.read()
            full = md['title'] if md['title'] == md['component'] else '%s (%s)' % (md['title'], md['component'])
            slug = re.search(r'^\.\. slug: (.*)$', text, re.M).group(1)
            mon.check('index', links.get('%s/%s' % (d, slug)) == full, lambda: '%s.%s: %r in the index %r' % (d, c, slug, links))
            mon.check('files', '.. title: %s\n' % full in text and '.. tags: %s,' % d in text and md['desc'].strip() in text and
                      text.rstrip().endswith(cls.__doc__.rstrip()), lambda: '%s.%s: page %r' % (d, c, text[:400]))
