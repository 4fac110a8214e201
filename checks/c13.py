# -*- coding: utf-8 -*-
"""C13: netlists survive writing, reading and editing."""
import copy
import random
import vh
import netlib as N
import shadow as S

PROPERTY = 'C13'
LEVEL = 'exploration'
RULE = ('random netlists (names with punctuation, integer nodes, numbers of every '
        'magnitude and sign, labelled values, free parameters, strings with spaces '
        'or separators, lists, booleans, None) driven through random histories of '
        'add, set, delete, concatenate, write, read and re-read, in step with a '
        'list model that is compared after every operation; for circuit contents '
        'the graph and the system of the re-read netlist are compared with those '
        'of the original; hand-formatted text is read back against its meaning; '
        'non-trivial when the history has at least one write and read; distinct '
        'by spec hash')
REQUIRED = ['lines', 'roundtrip', 'text', 'operands', 'graph', 'core', 'format',
            'edit', 'file']
COUNT = {'quick': 700, 'thorough': 20000}
ASSUMPTIONS = ['labels, dictionaries and components are identifiers; string '
               'arguments and labels are not themselves python literals']
KEYS = ('dictionary', 'component', 'label', 'nodes', 'arguments')

NODES = ['A', 'B1', 'n_2', '#', 'in', 'out', 1, 2, 37, 0, 'Vcc+', 'a b', "it's",
         'x:y', 'é', 'A#', 'c,d', 'x(1)', 'k;']
STRINGS = ['voltage', 'e', 'R1', '/tmp/a/data.pwl', '/tmp/my dir/data.pwl', 'a;b',
           'a=b', "it's", 'C:\\data\\x.pwl', 'a b  c', '(lab', '(a)', 'x#y', 'a,b',
           '[1', 'say "hi"', 'x-y', 'f(x)', '"', "q'\"q", 'trailing ', 'tab\there', ':',
           ';', '=', 'a = b; c', '2*x']


def rvalue(rng, depth=0):
    k = rng.randint(0, 9 if depth == 0 else 4)
    if k == 0:
        return rng.randint(-10**rng.randint(0, 12), 10**rng.randint(0, 12))
    if k in (1, 2):
        return rng.uniform(-1, 1)*10.**rng.randint(-25, 12)
    if k == 3:
        return rng.choice([1e-12, 1e3, -0.5, 0.1, 1/3., 1e300, 5e-324, 0.0, 2.5e-10])
    if k == 4:
        return rng.choice(STRINGS)
    if k in (5, 6):
        return {'t': [rng.choice(['R1', 'lab_2', 'my R', 'a;b', 'C(1)', "x'"]),
                      rvalue(rng, 1)]}
    if k == 7:
        return [rvalue(rng, 1) for _ in range(rng.randint(0, 4))]
    if k == 8:
        return rng.choice([True, False, None])
    return {'t': [rvalue(rng, 1) for _ in range(rng.randint(1, 3))]}


def dec(v):
    if isinstance(v, dict):
        return tuple(dec(q) for q in v['t'])
    if isinstance(v, list):
        return [dec(q) for q in v]
    return v


def rline(rng, k):
    return {'dictionary': rng.choice(['electronics', 'mechanics', 'pwl', 'my_dic']),
            'component': rng.choice(['resistor', 'source', 'Storage', 'c3']),
            'label': rng.choice(['R%d', 'IN_%d', 'x%d', 'Lab%d']) % k,
            'nodes': {'t': [rng.choice(NODES) for _ in range(rng.randint(1, 4))]},
            'arguments': {rng.choice(['R', 'C0', 'type', 'file', 'ctrl', 'a_b', 'q'])
                          + str(j): rvalue(rng) for j in range(rng.randint(0, 4))}}


def decline(l):
    return {'dictionary': l['dictionary'], 'component': l['component'],
            'label': l['label'], 'nodes': dec(l['nodes']),
            'arguments': {k: dec(v) for k, v in l['arguments'].items()}}


OPS = ['add', 'add', 'add', 'set', 'del', 'write', 'read', 'concat', 'iconcat',
       'writeto', 'selfset', 'empty']


def directed():
    out = []
    text = ("# comment line\n"
            "\n"
            "   \n"
            "electronics.source IN ('#', 'A'): type=voltage;\n"
            "electronics.resistor   R1\t('A','B') :  R = ( 'R1' , 1.5e3 ) ;\n"
            "electronics.capacitor C1 'B', '#': C=('C1', 1e-9)\n"
            "\t\n"
            "electronics.potentiometer P ('B', 2, '#'): R=1e3;A=alpha;  E=2;\n"
            "#electronics.resistor R9 ('A', 'B'): R=1;\n"
            "electronics.inductor L1 (2, '#'): L=('L1',1./4);")
    expect = [['electronics', 'source', 'IN', ['#', 'A'], {'type': 'voltage'}],
              ['electronics', 'resistor', 'R1', ['A', 'B'], {'R': {'t': ['R1', 1.5e3]}}],
              ['electronics', 'capacitor', 'C1', ['B', '#'], {'C': {'t': ['C1', 1e-9]}}],
              ['electronics', 'potentiometer', 'P', ['B', 2, '#'],
               {'R': 1e3, 'A': 'alpha', 'E': 2}],
              ['electronics', 'inductor', 'L1', [2, '#'], {'L': {'t': ['L1', 0.25]}}]]
    out.append({'kind': 'format', 'text': text, 'expect': expect})
    out.append({'kind': 'format', 'text': text.replace('\n', '\r\n'), 'expect': expect})
    out.append({'kind': 'format', 'text': text + '\n', 'expect': expect})
    out.append({'kind': 'format', 'text': '\n\n', 'expect': []})
    out.append({'kind': 'format', 'text': '', 'expect': []})
    rng = random.Random(3)
    for s in STRINGS:
        out.append({'kind': 'edit', 'seed': 1, 'ops': ['add', 'write', 'read'],
                    'lines': [{'dictionary': 'd', 'component': 'c', 'label': 'l1',
                               'nodes': {'t': ['#', 1]},
                               'arguments': {'a': s, 'b': 1, 'c': {'t': [s, 2.]}}}]})
    return out


def gen(rng, i, tier):
    r = rng.random()
    if r < 0.25:
        net = rng.choice([N.realizable_net, N.cluster_net, N.ladder_net])(rng)
        return {'kind': 'circuit', 'net': net, 'seed': rng.randint(0, 10**6)}
    if r < 0.4:                   # hand-formatted text with random spacing
        lines, expect = [], []
        for k in range(rng.randint(0, 6)):
            q = rng.random()
            if q < 0.15:
                lines.append(rng.choice(['', ' ', '\t', '# x: y=1;', '#']))
                continue
            nodes = [rng.choice(['A', 'B1', '#', 3]) for _ in range(rng.randint(1, 3))]
            args = {}
            txt = ''
            items = []
            for j in range(rng.randint(0, 3)):
                key = 'k%d' % j
                kind = rng.randint(0, 3)
                v = rng.choice([1, 2.5, 1e-9, -3e5])
                if kind == 0:
                    args[key], t = v, repr(v)
                elif kind == 1:
                    args[key], t = 'lab%d' % j, 'lab%d' % j
                elif kind == 2:
                    sp = rng.choice(['', ' '])
                    args[key] = {'t': ['lab%d' % j, v]}
                    t = "(%s'lab%d'%s,%s%r%s)" % (sp, j, sp, sp, v, sp)
                else:
                    args[key], t = [1, v], '[1, %r]' % v
                sp = rng.choice(['', ' '])
                items.append('%s%s=%s%s' % (key, sp, sp, t))
            txt = rng.choice([';', '; ', ' ;  ']).join(items) + \
                rng.choice(['', ';', '; ', ' ']) * bool(items)
            tup = repr(tuple(nodes))
            if len(nodes) > 1 and rng.random() < 0.3:
                tup = tup[1:-1]
            if rng.random() < 0.3:
                tup = tup.replace(', ', ',')
            lines.append('%s.%s%s%s%s%s:%s%s' % (
                'dic', 'comp', rng.choice([' ', '  ', '\t']), 'L%d' % k,
                rng.choice([' ', '\t']), tup, rng.choice(['', ' ']), txt))
            expect.append(['dic', 'comp', 'L%d' % k, nodes, args])
        return {'kind': 'format', 'text': '\n'.join(lines) + rng.choice(['', '\n']),
                'expect': expect}
    ops = [rng.choice(OPS) for _ in range(rng.randint(4, 20))] + ['write', 'read']
    return {'kind': 'edit', 'seed': rng.randint(0, 10**6), 'ops': ops,
            'lines': [rline(rng, k) for k in range(rng.randint(1, 8))]}


def lines_of(net):
    return [{k: net[n][k] for k in KEYS} for n in range(net.nlines())]


def typed(v):
    if isinstance(v, dict):
        return {k: typed(q) for k, q in v.items()}
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [typed(q) for q in v]
    return [type(v).__name__, v]


def eq(a, b):
    return typed(a) == typed(b)


def run(spec, mon):
    from pyphs import Netlist
    if spec['kind'] == 'format':
        with open('f.net', 'w', newline='') as f:
            f.write(spec['text'])
        net = Netlist('f.net')
        exp = [dict(zip(KEYS, (d, c, l, tuple(n), {k: dec(v) for k, v in a.items()})))
               for d, c, l, n, a in spec['expect']]
        got = lines_of(net)
        for g in got:
            if not isinstance(g['nodes'], tuple) and len(exp) == len(got):
                g['nodes'] = tuple(g['nodes'])
        mon.check('format', eq(got, exp), lambda: 'read %s, expected %s' % (got, exp))
        with open('f.net', newline='') as f:
            mon.check('file', f.read() == spec['text'], 'reading changed the file')
        return
    if spec['kind'] == 'circuit':
        return circuit(spec, mon)
    rng = random.Random(spec['seed'])
    pool = [decline(l) for l in spec['lines']]
    net = Netlist('a.net', clear=True)
    model = []
    ondisk = []          # content of a.net
    nread = 0
    for k, op in enumerate(spec['ops']):
        if op == 'add':
            l = copy.deepcopy(rng.choice(pool))
            net.add_line(copy.deepcopy(l))
            model.append(l)
        elif op == 'set' and model:
            n = rng.randrange(len(model))
            l = copy.deepcopy(rng.choice(pool))
            net.setline(n, copy.deepcopy(l))
            model[n] = l
            mon.seen('edit')
        elif op == 'selfset' and model:
            n = rng.randrange(len(model))
            net.setline(n, net[n])
        elif op == 'del' and model:
            n = rng.randrange(len(model))
            net.delline(n)
            del model[n]
            mon.seen('edit')
        elif op == 'write':
            net.write()
            ondisk = copy.deepcopy(model)
        elif op == 'writeto':
            net.write('other%d.net' % k)
            got = lines_of(Netlist('other%d.net' % k))
            nread += 1
            mon.check('roundtrip', eq(got, model),
                      lambda: 'written %s, read %s' % (model, got))
            got = lines_of(Netlist('a.net'))
            mon.check('file', eq(got, ondisk), 'writing elsewhere changed the file')
        elif op == 'read':
            net = Netlist('a.net')
            nread += 1
            got = lines_of(net)
            mon.check('roundtrip', eq(got, ondisk),
                      lambda: 'written %s, read %s' % (ondisk, got))
            model = copy.deepcopy(ondisk)
        elif op in ('concat', 'iconcat'):
            b = Netlist('b%d.net' % k, clear=True)
            extra = [copy.deepcopy(rng.choice(pool)) for _ in range(rng.randint(0, 3))]
            for l in extra:
                b.add_line(copy.deepcopy(l))
            if op == 'concat':
                s = net + b
                mon.check('operands', eq(lines_of(net), model) and
                          eq(lines_of(b), extra),
                          lambda: 'operands of + are %s and %s, were %s and %s'
                          % (lines_of(net), lines_of(b), model, extra))
                mon.check('lines', eq(lines_of(s), model + extra),
                          lambda: 'sum is %s' % lines_of(s))
                # edits of the sum do not show in the operands
                if s.nlines():
                    s.setline(0, copy.deepcopy(pool[0]))
                    s.delline(s.nlines() - 1)
                    s.add_line(copy.deepcopy(pool[-1]))
                mon.check('operands', eq(lines_of(net), model) and
                          eq(lines_of(b), extra), 'edit of the sum shows in an operand')
            else:
                net += b
                model = model + extra
                mon.check('operands', eq(lines_of(b), extra), 'operand of += changed')
        elif op == 'empty':
            e = Netlist('e.net', clear=True)
            mon.check('lines', lines_of(e) == [] and e.netlist() == '', 'cleared netlist')
        got = lines_of(net)
        if not mon.check('lines', eq(got, model),
                         lambda: 'after %s: %s, expected %s' % (spec['ops'][:k+1], got, model)):
            return
        mon.check('lines', net.nlines() == len(model), 'number of lines')
        txt = net.netlist()
        mon.check('text', txt == ''.join(net.line(n) for n in range(len(model)))[:-1]
                  and (not model or txt.count('\n') == len(model) - 1),
                  lambda: 'text %r' % txt)
    mon.key('%d ops %d lines' % (len(spec['ops']), len(model)))


def edges(g):
    return sorted([str(e[0]), str(e[1]), type(e[0]).__name__,
                   sorted((k, str(v)) for k, v in e[2].items())]
                  for e in g.edgeslist)


def circuit(spec, mon):
    from pyphs import Netlist
    comps = spec['net']['comps']
    rng = random.Random(spec['seed'])
    net = Netlist('c.net', clear=True)
    for c in comps:
        net.add_line(N.item(c))
    # a detour which leaves the lines as they were
    if rng.random() < 0.5:
        net.add_line(N.item(comps[0]))
        net.setline(0, net[0])
        net.delline(net.nlines() - 1)
    net.write()
    again = Netlist('c.net')
    ref = [N.item(c) for c in comps]
    mon.check('roundtrip', eq(lines_of(again), ref),
              lambda: 'read %s, expected %s' % (lines_of(again), ref))
    g1, g2 = net.to_graph(), again.to_graph()
    mon.check('graph', edges(g1) == edges(g2), lambda: 'edges %s, %s' % (edges(g1), edges(g2)))
    mon.check('graph', sorted(map(str, g1.core.subs.items())) ==
              sorted(map(str, g2.core.subs.items())), 'substitutions')

    def core(g):
        try:
            return g.to_core(), None
        except Exception as e:
            return None, type(e).__name__
    (a, ea), (b, eb) = core(g1), core(g2)
    if not mon.check('core', (a is None) == (b is None), lambda: 'errors %s %s' % (ea, eb)):
        return
    if a is not None:
        xa, xb = S.exact(a), S.exact(b)
        if xa != xb:                 # other form: compare values
            fa, fb = S.valued(a), S.valued(b)
            mon.check('core', not S.vdiff(fa, fb), lambda: str(S.vdiff(fa, fb)))
        else:
            mon.seen('core')
    mon.check('lines', eq(lines_of(net), ref) and eq(lines_of(again), ref),
              'building changed the netlist')
