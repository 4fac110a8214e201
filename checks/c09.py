# -*- coding: utf-8 -*-
"""C09: copies and saved systems are equal and independent."""
import os
import random
import copy
import vh
import gen as G
import shadow as S

PROPERTY = 'C09'
LEVEL = 'exploration'
RULE = ('random systems driven through random preparation histories, then copied '
        '(copy protocol) and saved/loaded through disk; an exact snapshot of every '
        'attribute is compared, then random histories of modifications are applied '
        'to one side while the other side is watched; non-trivial when at least '
        'one modification really changed its target; distinct by spec hash')
REQUIRED = ['copy_equal', 'load_equal', 'independent', 'source_untouched', 'behaves']
COUNT = {'quick': 220, 'thorough': 6000}


def gen(rng, i, tier):
    c = G.gen_core(rng, nx=(0, 4), nw=(0, 4), ny=(0, 4), ncy=(0, 0), np_=(0, 2),
                   nlprob=0.5, obs=0.5, exprsubs=0.3)
    prep = [rng.choice(S.MUTATIONS) for _ in range(rng.randint(0, 4))]
    muts = [rng.choice(S.MUTATIONS) for _ in range(rng.randint(3, 9))]
    return {'core': c, 'prep': prep, 'muts': muts, 'seed': rng.randint(0, 10**6),
            'dxH': rng.random() < 0.2, 'side': rng.choice(['copy', 'source', 'both']),
            'how': rng.choice(['copy', 'copy', 'load', 'load', 'method']),
            'label': rng.choice(['sys', 'a b', 'my.core', 'x1'])}


def directed():
    return []


def run(spec, mon):
    import pyphs
    core = G.build_core(spec['core'], spec['label'])
    rng = random.Random(spec['seed'])
    for op in spec['prep']:
        if op == 'list':
            continue
        S.mutate(core, op, rng, 'P')
    if spec['dxH']:
        core._dxH = [2*e for e in core.dxH()]
    before = S.exact(core)
    vbefore = S.valued(core)
    if spec['how'] == 'load':
        core.save(folder=mon.dir)
        if rng.random() < 0.3:
            core.save(folder=mon.dir)      # overwriting gives the same file
        other = pyphs.Core(label=core.label if rng.random() < 0.5 else None)
        other.load(folder=mon.dir, label=core.label)
        name = 'load_equal'
    else:
        other = copy.copy(core)
        name = 'copy_equal'
        if spec['how'] == 'method':
            other = copy.copy(other)
    mon.check('source_untouched', S.exact(core) == before, lambda: S.diff(S.exact(core), before))
    got = S.valued(other)
    mon.check(name, S.close(got, vbefore), lambda: 'differs: %s' % S.vdiff(got, vbefore))
    mon.check('type', type(other) is type(core), 'type')
    mon.key(spec['how'])
    # same answers from the accessors
    d1, d2 = core.dims, other.dims
    for k in ('x', 'w', 'y', 'cy', 'p', 'xl', 'xnl', 'wl', 'wnl'):
        mon.check('behaves', getattr(d1, k)() == getattr(d2, k)(), k)
    mon.check('behaves', (core.xl(), core.xnl(), core.wl(), core.wnl(), core.o(), core.g()) ==
              (other.xl(), other.xnl(), other.wl(), other.wnl(), other.o(), other.g()), 'parts')
    changed = 0
    for op in spec['muts']:
        side = spec['side']
        if side == 'both':
            side = rng.choice(['copy', 'source'])
        a, b = (other, core) if side == 'copy' else (core, other)
        sa, sb = S.exact(a), S.exact(b)
        if op == 'list' and 'list' in spec['muts'][:-1]:
            continue
        if not S.mutate(a, op, rng):
            continue
        if S.exact(a) != sa:
            changed += 1
        mon.key(op)
        mon.check('independent', S.exact(b) == sb,
                  lambda: '%s on %s shows on the other side: %s' % (op, side, S.diff(S.exact(b), sb)))
        if op == 'list':
            break
    if spec['how'] == 'load':
        again = pyphs.Core()
        again.load(folder=mon.dir, label=before['label'])
        got = S.valued(again)
        mon.check('load_equal', S.close(got, vbefore),
                  lambda: 'file changed: %s' % S.vdiff(got, vbefore))
    mon.sample = {'how': spec['how'], 'changed': changed}
    if not changed:
        raise vh.Skip('no modification applied')
