# -*- coding: utf-8 -*-
"""C10: substituting, simplifying and inverting keep every value."""
import random
import copy
import sympy
import vh
import gen as G
import shadow as S

PROPERTY = 'C10'
LEVEL = 'exploration'
RULE = ('random systems with numeric, symbolic and chained substitution '
        'dictionaries x random histories of substitute (own dictionary, own '
        'expressions, user dictionary with numbers / new symbols / expressions), '
        'simplify and subsinverse, before or after splitting and connector '
        'declaration; the name-indexed value of every expression (H, z, M, '
        'observers, Q, bl, Zl, connector ratios) at random points is compared '
        'with the initial one; non-trivial when a symbol was replaced; distinct '
        'by spec hash')
REQUIRED = ['values', 'only_requested', 'all_replaced', 'user_dict', 'inverse_removed',
            'free_symbols', 'ratio']
COUNT = {'quick': 400, 'thorough': 5000}
CASE_TIMEOUT = 60
ASSUMPTIONS = ['user substitution values do not refer to symbols that are themselves keys '
               'of the same user dictionary']

EXTRA = ['{k}*{x}**2/(2 + {k})', '{x}**2/{k}', '{x}**2/{k}**2', '{x}**2*sqrt({k})',
         '{x}**2/(2*{k}*(1 + {k}))', '({x}/{k})**2', 'exp({x}/{k})', 'Abs({x})/{k}',
         '{x}**2/sqrt({k})']


def gen(rng, i, tier):
    c = G.gen_core(rng, nx=(1, 3), nw=(0, 3), ny=(0, 3), np_=(0, 2), nlprob=0.5,
                   obs=0.5, psubs=0.9)
    subs = c['subs']
    for k in range(rng.randint(0, 2)):
        nm = 'e%d' % k
        subs[nm] = G.coef(rng)
        c['H'] += ' + ' + rng.choice(EXTRA).format(x=rng.choice(c['x']), k=nm)
        if c['w']:
            j = rng.randrange(len(c['w']))
            c['z'][j] += ' + %s*%s' % (c['w'][j], rng.choice(['1/{k}', '{k}', '{k}**-2', '1/({k}+1)']).format(k=nm))
    # symbolic and chained values
    names = sorted(subs)
    chain = rng.choice([0, 0, 1, 2, 3])
    if names and chain:
        for d in range(chain):
            subs['q%d' % d] = G.coef(rng)
        for k in names:
            if rng.random() < 0.5:
                subs[k] = rng.choice(['2*q0 + 1', 'q0**2 + 1', '1/(1 + q0)', 'q0'])
        for d in range(chain - 1):
            subs['q%d' % d] = rng.choice(['q%d + 0.5', '2*q%d', '1/q%d']) % (d + 1)
        perm = list(subs)
        rng.shuffle(perm)
        c['subs'] = {k: subs[k] for k in perm}
    ops = []
    for _ in range(rng.randint(1, 3)):
        ops.append([rng.choice(['selfall', 'selfexprs', 'num', 'sym', 'expr', 'rename',
                                'simplify', 'inverse', 'selfall_simplify', 'none', 'user_selfall',
                                'user_selfexprs']),
                    rng.randint(0, 10**6)])
    return {'core': c, 'ops': ops, 'split': rng.random() < 0.3, 'conn': rng.random() < 0.3,
            'sympified': rng.random() < 0.3, 'seed': rng.randint(0, 10**6)}


def directed():
    return []


def everything(core, at):
    """all values by name, at the point `at` completed by the core's own subs"""
    at = dict(at)
    at.update(S.resolve(core))
    ev = S.Evaluator(at)
    out = S.by_name(core, at)
    if core.Q.shape[0]:
        n = core.Q.shape[0]
        for i in range(n):
            out[('bl', i)] = ev(core.bl[i])
            for j in range(n):
                out[('Q', i, j)] = ev(core.Q[i, j])
    for i in range(core.Zl.shape[0]):
        for j in range(core.Zl.shape[0]):
            out[('Zl', i, j)] = ev(core.Zl[i, j])
    for k, c in enumerate(core.connectors):
        out[('alpha', k)] = ev(sympy.sympify(c['alpha']))
    return out


def exprs(core):
    es = [core.H] + list(core.z) + list(core.M) + list(core.observers.values())
    es += list(core.Q) + list(core.Zl) + list(core.bl)
    return [sympy.sympify(e) for e in es]


def free(core):
    fs = set()
    for e in exprs(core):
        fs |= e.free_symbols
    return fs


def run(spec, mon):
    c = spec['core']
    core = G.build_core(c)
    if spec['sympified']:
        for k in list(core.subs):
            core.subs[k] = sympy.sympify(core.subs[k])
    if spec['conn'] and core.dims.y() > 1:
        ks = sorted(core.subs, key=str)
        core.add_connector((0, 1), 1.5*ks[spec['seed'] % len(ks)] if ks else 2.)
    if spec['split']:
        core.linear_nonlinear()
    base = S.point(S.freesymbols(core), spec['seed'], 0.2, 1.3)
    replaced = 0
    for nop, (op, seed) in enumerate(spec['ops']):
        t = str(nop)
        rng = random.Random(seed)
        at = dict(base)
        ref = everything(core, at)
        before_free = free(core)
        nm = S.names(core)
        osubs = dict(core.subs)
        keys = sorted(core.subs, key=str)
        ksym = [k for k in before_free if k in core.subs]
        mon.key(op)
        ren = {}
        if op in ('selfall', 'selfall_simplify'):
            core.substitute(selfall=True, simplify=op != 'selfall')
            mon.check('all_replaced', not core.subs and not (free(core) & set(keys)),
                      'left: %s %s' % (dict(core.subs), free(core) & set(keys)))
            mon.check('only_requested', free(core) <= before_free,
                      'new symbols %s' % (free(core) - before_free))
            replaced += len(keys)
            # value with the old dictionary resolved by the oracle
            ks = {k: v for k, v in resolve(osubs).items()}
            at.update(ks)
        elif op == 'selfexprs':
            core.substitute(selfexprs=True)
            sy = [k for k in keys if sympy.sympify(osubs[k]).free_symbols]
            mon.check('all_replaced', not (free(core) & set(sy)) and
                      not any(sympy.sympify(v).free_symbols for v in core.subs.values()),
                      'left %s %s' % (dict(core.subs), free(core) & set(sy)))
            kept = [k for k in keys if isinstance(osubs[k], (int, float))]
            mon.check('only_requested', all(k in core.subs and core.subs[k] == osubs[k] for k in kept),
                      'numeric entries changed')
            replaced += len(sy)
        elif op in ('num', 'sym', 'expr', 'user_selfall', 'user_selfexprs'):
            cand = sorted(before_free - set(keys), key=str) if op.startswith('user') else \
                sorted(before_free - set(core.x) - set(core.w), key=str)
            cand = [s for s in cand if s not in core.observers and s not in core.x
                    and s not in core.w and s not in core.p and s not in core.g()]
            if not cand:
                continue
            sel = rng.sample(cand, rng.randint(1, min(3, len(cand))))
            user = {}
            for s in sel:
                if op in ('num', 'user_selfall', 'user_selfexprs'):
                    user[s] = round(rng.uniform(0.3, 2), 3)
                elif op == 'sym':
                    user[s] = core.symbols('nS' + t + str(s))
                else:
                    user[s] = core.symbols('nA' + t)**2 + core.symbols('nB' + t + str(s)) + 0.5
            keep = dict(user)
            new = {core.symbols(n): random.Random(n + '/v').uniform(0.3, 1.3) for n in
                   ['nA' + t] + ['nB' + t + str(s) for s in sel] + ['nS' + t + str(s) for s in sel]}
            # reference: the original at the point where s takes the value
            at.update(new)
            ev = S.Evaluator(at)
            vals = {s: ev(v) for s, v in user.items()}
            c2 = copy.copy(core)
            for s in sel:
                c2.subs.pop(s, None)
            at2 = dict(at)
            at2.update(vals)
            ref = everything(c2, at2)
            kw = {'selfall': True} if op == 'user_selfall' else \
                {'selfexprs': True} if op == 'user_selfexprs' else {}
            if kw:
                at.update(resolve({k: (sympy.sympify(v).subs(vals)) for k, v in core.subs.items()}))
            core.substitute(subs=user, **kw)
            mon.check('user_dict', user == keep, lambda: 'user dictionary modified: %s -> %s' % (keep, user))
            mon.check('all_replaced', not (free(core) & set(sel)) and not (set(core.subs) & set(sel)),
                      'left %s' % (free(core) & set(sel)))
            if not kw:
                mon.check('only_requested', free(core) - set(new) == before_free - set(sel),
                          'free symbols %s -> %s, requested %s' % (before_free, free(core), sel))
                mon.check('only_requested', set(core.subs) == set(keys) - set(sel), 'subs keys')
            replaced += len(sel)
            base.update(new)
            for s in sel:
                base.pop(s, None)
        elif op == 'rename':
            old = list(core.x)
            new = {x: core.symbols(str(x) + 'R') for x in old}
            for x, y in new.items():
                base[y] = base[x]
                at[y] = base[x]
                gx, gy = core.symbols('g' + str(x)), core.symbols('g' + str(y))
                base[gy] = at[gy] = base.get(gx, 0.5)
            core.substitute(subs=dict(new))
            ren = {str(x): str(y) for x, y in new.items()}
            mon.check('all_replaced', list(core.x) == [new[x] for x in old] and
                      not (free(core) & set(old)), 'renamed states')
            replaced += 1
        elif op == 'simplify':
            core.simplify()
            mon.check('only_requested', free(core) <= before_free and dict(core.subs) == osubs, 'simplify')
        elif op == 'inverse':
            core.subsinverse()
            bad = []
            for e in exprs(core):
                for p in e.atoms(sympy.Pow):
                    if p.base in osubs and p.exp.is_number and p.exp < 0:
                        bad.append(p)
            mon.check('inverse_removed', not bad, lambda: 'left %s' % bad[:4])
            mon.check('only_requested', all(core.subs[k] == v for k, v in osubs.items()), 'entries changed')
            replaced += 1
        elif op == 'none':
            core.substitute()
            mon.check('only_requested', free(core) == before_free and dict(core.subs) == osubs, 'empty substitution')
        got = everything(core, at)
        r = lambda k: k if not ren else eval(repr_ren(k, ren))
        ref = {r(k): v for k, v in ref.items()}
        ca = {k: v for k, v in got.items() if k[0] == 'alpha'}
        ra = {k: v for k, v in ref.items() if k[0] == 'alpha'}
        if ca or ra:
            S.same(mon, 'ratio', ca, ra, op)
        S.same(mon, 'values', {k: v for k, v in got.items() if k[0] != 'alpha'},
               {k: v for k, v in ref.items() if k[0] != 'alpha'}, op, 1e-8, 1e-9)
        n2 = S.names(core)
        if not ren:
            mon.check('only_requested', all(n2[k] == nm[k] for k in ('x', 'w', 'u', 'y', 'cu', 'cy', 'p', 'o')),
                      'variables')
        fs = set()
        for name in core.exprs_names:
            e = getattr(core, name)
            e = e() if callable(e) else e
            for q in (list(e) if hasattr(e, '__len__') else [e]):
                fs |= sympy.sympify(q).free_symbols
        for q in core.M:
            fs |= q.free_symbols
        mon.check('free_symbols', core.freesymbols() == fs, lambda: 'reported %s expected %s' % (core.freesymbols(), fs))
    mon.sample = {'ops': [o for o, _ in spec['ops']], 'replaced': replaced}


def repr_ren(k, ren):
    def f(a):
        if isinstance(a, tuple):
            return tuple(f(b) for b in a)
        return ren.get(a, a) if isinstance(a, str) else a
    return repr(f(k))


def resolve(subs):
    d = {k: sympy.sympify(v) for k, v in subs.items()}
    for _ in range(6):
        d = {k: (v.subs(d) if v.free_symbols else v) for k, v in d.items()}
    return {k: float(v) for k, v in d.items() if not v.free_symbols}
