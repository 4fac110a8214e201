# -*- coding: utf-8 -*-
"""Name-indexed fingerprint of a system (values at random points)."""
import numpy as np
import sympy
import random
import math


_FUN = {'exp': math.exp, 'log': math.log, 'sin': math.sin, 'cos': math.cos,
        'tan': math.tan, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh,
        'asin': math.asin, 'acos': math.acos, 'atan': math.atan,
        'asinh': math.asinh, 'Abs': abs,
        'sign': lambda v: float((v > 0) - (v < 0)), 'Max': max, 'Min': min}


class Evaluator(object):
    """floating-point value of expressions at one point, shared nodes once"""

    def __init__(self, at):
        self.at = {sympy.sympify(k): v for k, v in at.items()}
        self.memo = {}

    def __call__(self, e):
        e = sympy.sympify(e)
        return self.ev(e)

    def ev(self, e):
        if e.is_Number or e.is_NumberSymbol:
            return float(e)
        r = self.memo.get(e)
        if r is None:
            r = self.memo[e] = self._ev(e)
        return r

    def _ev(self, e):
        if e.is_Symbol:
            v = self.at[e]
            return self.ev(v) if isinstance(v, sympy.Basic) else float(v)
        if e.is_Add:
            return math.fsum(self.ev(a) for a in e.args)
        if e.is_Mul:
            r = 1.
            for a in e.args:
                r *= self.ev(a)
            return r
        if e.is_Pow:
            b, x = self.ev(e.base), e.exp
            if x.is_Integer:
                return float(b)**int(x)
            return math.pow(b, self.ev(x))
        f = _FUN.get(type(e).__name__)
        if f is not None:
            return float(f(*[self.ev(a) for a in e.args]))
        return float(e.subs({s: self.ev(s) for s in e.free_symbols}))


def value(e, at):
    e = sympy.sympify(e)
    if not e.free_symbols:
        return float(e)
    return Evaluator(at)(e)


def matvalue(M, at):
    ev = Evaluator(at)
    return np.array([[ev(M[i, j]) for j in range(M.shape[1])]
                     for i in range(M.shape[0])], dtype=float).reshape(M.shape)


def point(symbols, seed=0, lo=0.2, hi=1.3):
    """values in (lo, hi) for symbols, reproducible by name"""
    return {s: random.Random('%s/%s' % (s, seed)).uniform(lo, hi) for s in symbols}


def freesymbols(core):
    fs = set()
    for e in [core.H] + list(core.z) + list(core.M) + list(core.observers.values()):
        fs |= sympy.sympify(e).free_symbols
    for l in (core.x, core.w, core.u, core.y, core.p, core.cu, core.cy, core.g()):
        fs |= set(l)
    fs |= set(core.observers)
    for v in core.subs.values():
        fs |= sympy.sympify(v).free_symbols
    fs |= set(core.subs)
    return fs


def resolve(core):
    """numeric substitution dictionary, chained values resolved"""
    d = {sympy.sympify(k): sympy.sympify(v) for k, v in core.subs.items()}
    for _ in range(4):
        d = {k: (v.subs(d) if v.free_symbols else v) for k, v in d.items()}
    return {k: v for k, v in d.items() if not v.free_symbols}


def by_name(core, at=None, seed=0, usesubs=True):
    """
    {'H': value, ('z', w): value, ('M', a, b): value ...}
    """
    if at is None:
        at = point(freesymbols(core), seed)
    at = dict(at)
    if usesubs:
        at.update(resolve(core))
    ev = Evaluator(at)
    out = {'H': ev(core.H)}
    for x in core.x:
        out[('dH', str(x))] = ev(core.H.diff(x))
    for w, z in zip(core.w, core.z):
        out[('z', str(w))] = ev(z)
    lab = [('x', str(s)) for s in core.x] + [('w', str(s)) for s in core.w] + \
        [('y', str(s)) for s in core.y] + [('cy', str(s)) for s in core.cy]
    M = core.M
    if M.shape[0] == len(lab):
        for i, a in enumerate(lab):
            for j, b in enumerate(lab):
                out[('M', a, b)] = ev(M[i, j])
    else:
        out['Mshape'] = float(M.shape[0])
    for k, v in core.observers.items():
        out[('o', str(k))] = ev(v)
    return out


def names(core):
    s = lambda l: [str(e) for e in l]
    return {'x': s(core.x), 'w': s(core.w), 'u': s(core.u), 'y': s(core.y),
            'cu': s(core.cu), 'cy': s(core.cy), 'p': s(core.p),
            'o': s(core.observers), 'subs': sorted(s(core.subs)),
            'ports': sorted(zip(s(core.u), s(core.y))),
            'cports': sorted(zip(s(core.cu), s(core.cy)))}


def same(mon, name, got, ref, what='', rtol=1e-9, atol=1e-10):
    """compare two by_name dictionaries"""
    k1, k2 = set(map(str, got)), set(map(str, ref))
    if not mon.check(name, k1 == k2, lambda: '%s: keys differ: %s' % (what, sorted(k1 ^ k2)[:6])):
        return False
    ref = {str(k): v for k, v in ref.items()}
    bad = []
    for k, v in got.items():
        r = ref[str(k)]
        if not abs(v - r) <= atol + rtol*abs(r):
            bad.append((k, v, r))
    return mon.check(name, not bad, lambda: '%s: %d values differ, e.g. %s' % (what, len(bad), bad[:3]))


def exact(core):
    """everything a system is made of, as strings, order included"""
    s = lambda l: [str(e) for e in l]
    d = core.dims
    out = {k: s(getattr(core, k)) for k in ('x', 'w', 'u', 'y', 'cu', 'cy', 'p', 'z')}
    out['H'] = str(core.H)
    for k in ('M', 'Q', 'Zl'):
        m = getattr(core, k)
        out[k] = [list(map(int, m.shape)), s(m)]
    out['bl'] = s(core.bl)
    out['subs'] = sorted((str(k), str(v)) for k, v in core.subs.items())
    out['obs'] = [(str(k), str(v)) for k, v in core.observers.items()]
    out['conn'] = [(s(c['u']), s(c['y']), str(c['alpha'])) for c in core.connectors]
    out['force'] = s(core.force_wnl)
    out['split'] = [d.xl(), d.wl(), d.xnl_mono()]
    out['dxH'] = None if core._dxH is None else s(core._dxH)
    out['label'] = str(core.label)
    for k in sorted(map(str, core.exprs_names)):
        if k not in out:
            out['expr ' + k] = str(getattr(core, k, '<missing>'))
    for k in sorted(map(str, core.symbs_names)):
        if k not in out:
            out['symb ' + k] = s(getattr(core, k, ['<missing>']))
    return out


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}


# ---------------------------------------------------------------------------
# random modifications through the public interface

MUTATIONS = ['stor', 'diss', 'port', 'par', 'obs', 'setM', 'subs', 'mstor', 'mdiss',
             'mport', 'lnl', 'mono', 'reduce', 'subst', 'substall', 'simplify',
             'inverse', 'connector', 'connect', 'force', 'label', 'initM', 'z', 'list',
             'setexpr', 'substdict', 'Mentry', 'obsval']


def mutate(core, op, rng, tag='Q'):
    """apply one modification; returns False when it does not apply"""
    sy = core.symbols
    d = core.dims
    n = rng.randint(0, 99)
    if op in ('stor', 'list'):
        core._dxH = None
    if op == 'stor':
        x = sy('xN%s%d' % (tag, n))
        core.add_storages(x, x**2*(n + 1))
    elif op == 'diss':
        w = sy('wN%s%d' % (tag, n))
        core.add_dissipations(w, w*(n + 1))
    elif op == 'port':
        core.add_ports(sy('uN%s%d' % (tag, n)), sy('yN%s%d' % (tag, n)))
    elif op == 'par':
        core.add_parameters(sy('pN%s%d' % (tag, n)))
    elif op == 'obs':
        core.add_observer({sy('oN%s%d' % (tag, n)): sy('pN') + n})
    elif op == 'obsval':
        if not core.observers:
            return False
        core.observers[list(core.observers)[0]] = sympy.sympify(n)
    elif op == 'setM':
        if not d.x():
            return False
        core.set_Mxx(sympy.eye(d.x())*(-n - 1))
    elif op == 'Mentry':
        if not core.M.shape[0]:
            return False
        core.M[0, 0] = n + 1
    elif op == 'subs':
        core.subs[sy('kN%s%d' % (tag, n))] = n
        for k in list(core.subs)[:1]:
            core.subs[k] = n + 0.5
    elif op in ('mstor', 'mdiss', 'mport'):
        f, m = {'mstor': (core.move_storage, d.x()), 'mdiss': (core.move_dissipative, d.w()),
                'mport': (core.move_port, d.y())}[op]
        if m < 2 or core.M.shape[0] != d.tot():
            return False
        f(0, m - 1)
    elif op in ('lnl', 'mono', 'reduce'):
        if core.M.shape[0] != d.tot():
            core.init_M()
        core.linear_nonlinear()
        if op == 'mono':
            core.monovar_multivar()
        if op == 'reduce':
            core.force_wnl = list(core.w)[1:]
            core.reduce_z()
    elif op == 'subst':
        fs = sorted(core.subs, key=str)
        if not fs:
            return False
        core.substitute(subs={fs[n % len(fs)]: 0.25})
    elif op == 'substall':
        core.substitute(selfall=True)
    elif op == 'substdict':
        core.substitute(subs={x: sy(str(x) + 'R') for x in core.x})
    elif op == 'simplify':
        core.simplify()
    elif op == 'inverse':
        core.subsinverse()
    elif op == 'connector':
        if d.y() < 2 or core.M.shape[0] != d.tot():
            return False
        core.add_connector((0, 1), 2.*n + 1)
    elif op == 'connect':
        if not core.connectors or core.M.shape[0] != d.tot() or 2*len(core.connectors) != d.cy():
            return False
        try:
            core.connect()
        except Exception:
            return False
    elif op == 'force':
        if not core.w:
            return False
        core.force_wnl.append(core.w[0])
    elif op == 'label':
        core.label = 'lab%d' % n
    elif op == 'initM':
        core.init_M()
    elif op == 'z':
        if not core.z:
            return False
        core.z[0] = core.z[0]*2
    elif op == 'list':
        core.x.append(sy('xL%d' % n))
    elif op == 'setexpr':
        core.setexpr('H', core.H*2)
        core.setexpr('extra%s' % tag, core.H + n)
    return True


def valued(core, seed=5):
    """like exact(), with expressions replaced by their values at one point"""
    def num(e):
        e = sympy.sympify(e)
        return Evaluator(point(e.free_symbols, seed, 0.3, 1.2))(e)
    out = exact(core)
    out['H'] = num(core.H)
    out['z'] = [num(e) for e in core.z]
    for k in ('M', 'Q', 'Zl'):
        m = getattr(core, k)
        out[k] = [list(map(int, m.shape)), [num(e) for e in m]]
    out['bl'] = [num(e) for e in core.bl]
    out['subs'] = sorted((str(k), num(v)) for k, v in core.subs.items())
    out['obs'] = [(str(k), num(v)) for k, v in core.observers.items()]
    out['conn'] = [(a, b, num(c['alpha'])) for (a, b, _), c in zip(out['conn'], core.connectors)]
    if core._dxH is not None:
        out['dxH'] = [num(e) for e in core._dxH]
    for k in list(out):
        if k.startswith('expr '):
            out[k] = num(getattr(core, k[5:])) if hasattr(core, k[5:]) else '<missing>'
    return out


def close(a, b, rtol=1e-9):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(i, j, rtol) for i, j in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k], rtol) for k in a)
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= rtol*(1 + abs(b))
    return a == b


def vdiff(a, b):
    return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if not close(a.get(k), b.get(k))}
