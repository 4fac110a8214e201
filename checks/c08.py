# -*- coding: utf-8 -*-
"""C08: adding systems yields their disjoint union."""
import random
import copy
import vh
import gen as G
import shadow as S
from c07 import rename

PROPERTY = 'C08'
LEVEL = 'exploration'
RULE = ('chains of 2-4 random systems (some empty, some without storages or '
        'ports, some with connectors, observers, protected variables, already '
        'split, connected, substituted or reduced) are added in both '
        'associations; name-indexed values, order, coupling zeros and snapshots '
        'of the operands are compared; non-trivial when two operands have '
        'variables; distinct by spec hash')
REQUIRED = ['union', 'values', 'no_coupling', 'operands', 'associative', 'empty',
            'usable', 'later_changes']
COUNT = {'quick': 160, 'thorough': 4000}
CASE_TIMEOUT = 60


def gen(rng, i, tier):
    n = rng.choice([2, 2, 2, 3, 4])
    cores = []
    for k in range(n):
        if rng.random() < 0.1:
            cores.append(None)
            continue
        c = G.gen_core(rng, nx=(0, 3), nw=(0, 2), ny=(0, 3), ncy=(0, 0), np_=(0, 2),
                       obs=0.4, exprsubs=0.2)
        cores.append(rename(c, 'abcd'[k]))
    prep = [[rng.choice(['lnl', 'mono', 'connector', 'force', 'mstor', 'mdiss', 'mport',
                         'reduce', 'inverse', 'simplify', 'substall', 'noM'])
             for _ in range(rng.randint(0, 2))] for _ in range(n)]
    return {'cores': cores, 'prep': prep, 'seed': rng.randint(0, 10**6),
            'muts': [rng.choice(S.MUTATIONS) for _ in range(4)], 'iadd': rng.random() < 0.3}


def directed():
    return []


def run(spec, mon):
    import pyphs
    rng = random.Random(spec['seed'])
    cores = []
    for k, c in enumerate(spec['cores']):
        core = pyphs.Core('e%d' % k) if c is None else G.build_core(c, 'c%d' % k)
        for op in spec['prep'][k]:
            if op == 'noM':
                core.init_M()
            else:
                S.mutate(core, op, rng, 'abcd'[k])
        cores.append(core)
    before = [S.exact(c) for c in cores]
    total = cores[0]
    for c in cores[1:]:
        total = total + c
    after = [S.exact(c) for c in cores]
    mon.check('operands', before == after, lambda: [S.diff(a, b) for a, b in zip(after, before)])
    mon.check('operands', all(total is not c for c in cores), 'same object returned')
    # union, in order
    n = S.names(total)
    ns = [S.names(c) for c in cores]
    for k in ('x', 'w', 'u', 'y', 'cu', 'cy', 'p', 'o'):
        mon.check('union', n[k] == sum((m[k] for m in ns), []), '%s: %s' % (k, n[k]))
    mon.check('union', n['subs'] == sorted(set(sum((m['subs'] for m in ns), []))), 'subs %s' % n['subs'])
    mon.check('union', list(map(str, total.force_wnl)) ==
              [str(w) for c in cores for w in c.force_wnl], 'force_wnl')
    ex = S.valued(total)
    mon.check('union', S.close(ex['conn'], [t for c in cores for t in S.valued(c)['conn']]), 'connectors')
    mon.check('union', S.close(ex['subs'], sorted(t for c in cores for t in S.valued(c)['subs'])), 'subs')
    mon.check('union', total.M.shape == (total.dims.tot(),)*2 or total.dims.tot() == 0,
              'shape of M %s' % (total.M.shape,))
    # values
    got = S.by_name(total, seed=3)
    fs = [S.by_name(c, seed=3) for c in cores]
    H = sum(f.pop('H') for f in fs)
    mon.close('values', got.pop('H'), H, 1e-9, 1e-9, 'H')
    ref = {}
    for f in fs:
        f.pop('Mshape', None)
        ref.update(f)
    own = {}
    for k, m in enumerate(ns):
        for t in ('x', 'w', 'y', 'cy'):
            for s in m[t]:
                own[(t, s)] = k
    cross = {k: v for k, v in got.items() if k[0] == 'M' and own[k[1]] != own[k[2]]}
    bad = [k for k, v in cross.items() if v != 0]
    mon.check('no_coupling', not bad, lambda: 'coupled %s' % bad[:3])
    mine = {k: v for k, v in got.items() if k not in cross}
    S.same(mon, 'values', mine, ref)
    sizes = sum(1 for m in ns if m['x'] + m['w'] + m['y'] + m['cy'])
    mon.key('operands %d nonempty %d' % (len(cores), sizes))
    # associativity
    if len(cores) > 2:
        right = cores[-1]
        for c in reversed(cores[:-1]):
            right = c + right
        a, b = S.valued(right), S.valued(total)
        a.pop('label'), b.pop('label')
        mon.check('associative', S.close(a, b), lambda: S.vdiff(a, b))
    # empty system
    e = pyphs.Core('empty')
    for one, what in ((cores[0] + e, 'c+0'), (e + cores[0], '0+c')):
        a, b = S.valued(one), S.valued(cores[0])
        for q in ('label', 'split', 'Q', 'Zl', 'bl', 'dxH'):
            a.pop(q), b.pop(q)
        if not cores[0].dims.tot():
            a.pop('M'), b.pop('M')
        ex_ = [k for k in list(a) + list(b) if k.startswith('expr ')]
        for k in ex_:
            a.pop(k, None), b.pop(k, None)
        mon.check('empty', S.close(a, b), lambda: '%s %s' % (what, S.vdiff(a, b)))
    # the sum is a normal system: splitting it keeps its content
    sp = copy.copy(total)
    if sp.dims.tot() and not (sp.dims.x() == 0 and sp.dims.w() == 0):
        sp.linear_nonlinear()
        g2 = S.by_name(sp, seed=3)
        g2.pop('H')
        S.same(mon, 'usable', g2, got, 'after split')
    # later changes of the sum do not reach the operands, nor conversely
    for op in spec['muts']:
        if op == 'list':
            continue
        S.mutate(total, op, rng, 'T')
    mon.check('later_changes', [S.exact(c) for c in cores] == before,
              lambda: [S.diff(S.exact(c), b) for c, b in zip(cores, before)])
    snap = S.exact(total)
    for op in spec['muts']:
        if op == 'list':
            continue
        S.mutate(cores[0], op, rng, 'O')
    mon.check('later_changes', S.exact(total) == snap, lambda: S.diff(S.exact(total), snap))
    mon.sample = {'dims': total.dims.tot(), 'operands': len(cores)}
