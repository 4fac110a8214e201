# -*- coding: utf-8 -*-
"""
Common runtime-monitoring harness.

A check module (checks/cXX.py) provides

    PROPERTY   property id
    LEVEL      evidence level
    RULE       how cases are made, what makes one non-trivial
    REQUIRED   names of the monitors that must have been reached
    COUNT      {'quick': n, 'thorough': n}   number of generated cases
    directed() list of hand-written specs (run first)
    gen(rng, i, tier)   -> JSON-able spec of the i-th random case
    run(spec, mon)      run the real code on spec under the monitors

Cases run in forked workers, each in a scratch working directory; the verdict
is three-valued: exit 0 (held on everything observed), exit 1 + VIOLATION line,
exit 2 (inconclusive: monitors not reached, too many cases without an answer).
"""
from __future__ import print_function
import os
import sys
import json
import time
import random
import shutil
import signal
import hashlib
import tempfile
import traceback
import multiprocessing

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(ROOT, 'evidence'))
REPLAYS = os.environ.get('VERIF_REPLAYS', os.path.join(ROOT, 'replays'))
CASE_TIMEOUT = int(os.environ.get('VERIF_CASE_TIMEOUT', '150'))


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """The case gives no answer (outside the property's domain)."""


class Monitor(object):
    """Collects what the oracles observed on one case."""

    def __init__(self):
        self.counts = {}
        self.viol = []
        self.keys = set()
        self.sample = None
        self.maxdev = {}

    def seen(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def check(self, name, ok, detail=''):
        """One evaluation of oracle `name`."""
        self.seen(name)
        if not ok and len(self.viol) < 20:
            if callable(detail):
                detail = detail()
            self.viol.append([name, str(detail)[:1500]])
        return bool(ok)

    def close(self, name, got, ref, rtol=1e-7, atol=1e-9, detail=''):
        """Evaluation of a numerical oracle (nan/inf are never close)."""
        import numpy as np
        got = np.asarray(got, dtype=float)
        ref = np.asarray(ref, dtype=float)
        if got.shape != ref.shape:
            return self.check(name, False, 'shape %s != %s %s' %
                              (got.shape, ref.shape, detail))
        if got.size == 0:
            return self.check(name, True)
        dev = np.abs(got - ref)
        scale = atol + rtol*np.abs(ref)
        bad = ~(dev <= scale)
        m = float(np.max(np.where(np.isfinite(dev), dev/scale, 1e300)))
        self.maxdev[name] = max(self.maxdev.get(name, 0.), m)
        return self.check(
            name, not bad.any(),
            lambda: 'max|got-ref|/tol=%.3g got=%s ref=%s %s' % (
                m, got.ravel()[:8].tolist(), ref.ravel()[:8].tolist(),
                detail() if callable(detail) else detail))

    def crash(self, name, exc):
        tb = traceback.format_exc().strip().splitlines()
        self.check(name, False, ' | '.join(tb[-6:]))

    def key(self, k):
        self.keys.add(str(k))


def import_repo():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    # third-party modules from their caches; the code under test always from
    # its current source text, never from an old byte-code file
    import numpy, scipy, scipy.optimize, sympy, h5py, networkx  # noqa
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(),
                                      'verif_nocache_%d' % os.getpid())
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    try:
        import pyphs
        import pyphs.config
        import pyphs.dictionary
    finally:
        sys.stdout = out
    where = os.path.dirname(os.path.abspath(pyphs.__file__))
    if where != os.path.join(REPO, 'pyphs'):
        print('ERROR: pyphs imported from', where)
        sys.exit(3)
    quiet()
    return pyphs


def quiet():
    pyphs_mods = [m for n, m in list(sys.modules.items())
                  if n.split('.')[0] == 'pyphs' and m is not None]
    for m in pyphs_mods:
        if 'VERBOSE' in getattr(m, '__dict__', {}):
            m.VERBOSE = 0


def rng_for(pid, seed, i):
    return random.Random('%s/%s/%s' % (pid, seed, i))


def spec_hash(spec):
    return hashlib.sha1(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:12]


def run_spec(check, spec, scratch):
    """Run one case; returns a result dict."""
    mon = Monitor()
    res = {'status': 'ok'}

    def onalarm(signum, frame):
        raise CaseTimeout()
    d = tempfile.mkdtemp(dir=scratch)
    os.chdir(d)
    mon.dir = d
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(getattr(check, 'CASE_TIMEOUT', CASE_TIMEOUT))
    t0 = time.time()
    try:
        check.run(spec, mon)
    except Skip as e:
        res['status'] = 'skip'
        res['why'] = str(e)
    except CaseTimeout:
        res['status'] = 'timeout'
    except Exception as e:
        # The specs are inside the domain of the property: an exception
        # escaping from the code under test is an observed failure; an
        # exception of the harness itself is an error of the check.
        tb = traceback.extract_tb(sys.exc_info()[2])
        inrepo = any(os.path.abspath(f.filename).startswith(REPO + os.sep)
                     for f in tb)
        if inrepo:
            mon.crash('no_unexpected_exception', e)
        else:
            res['status'] = 'error'
            res['why'] = traceback.format_exc()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(scratch)
        shutil.rmtree(d, ignore_errors=True)
    res['t'] = time.time() - t0
    res['counts'] = mon.counts
    res['viol'] = mon.viol
    res['keys'] = sorted(mon.keys)
    res['maxdev'] = mon.maxdev
    if mon.sample is not None:
        res['sample'] = mon.sample
    return res


def worker(check, specs, counter, out, scratch, deadline):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, 'w')
    import warnings
    warnings.simplefilter('ignore')
    with open(out, 'a') as f:
        while True:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= len(specs):
                break
            if time.time() > deadline:
                break
            quiet()
            f.write(json.dumps({'begin': i}) + '\n')
            f.flush()
            res = run_spec(check, specs[i], scratch)
            res['i'] = i
            f.write(json.dumps(res) + '\n')
            f.flush()
    os._exit(0)


def load_known(pid):
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings']
                if k['property'] == pid and k.get('status') == 'known']


def main(check, argv=None):
    argv = list(sys.argv[1:] if argv is None else argv)
    pid = check.PROPERTY
    tier = os.environ.get('VERIF_TIER', 'quick')
    for t in ('quick', 'thorough'):
        if t in argv:
            tier = t
            argv.remove(t)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    import_repo()
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try:
        if argv and argv[0] == '--replay':
            return replay(check, argv[1], scratch)
        return sweep(check, pid, tier, seed, scratch, t0)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def replay(check, path, scratch):
    with open(path) as f:
        spec = json.load(f)['spec']
    res = run_spec(check, spec, scratch)
    sys.stdout = sys.__stdout__
    print(json.dumps({k: v for k, v in res.items() if k != 'keys'}, indent=1))
    if res['viol']:
        print('VIOLATION property=%s replay=%s' % (check.PROPERTY, path))
        return 1
    return 0 if res['status'] == 'ok' else 2


def sweep(check, pid, tier, seed, scratch, t0):
    n = check.COUNT[tier]
    specs = list(check.directed())
    ndirected = len(specs)
    for i in range(n):
        specs.append(check.gen(rng_for(pid, seed, i), i, tier))
    budget = float(os.environ.get('VERIF_BUDGET', {'quick': 600,
                                                   'thorough': 6*3600}[tier]))
    deadline = t0 + budget
    nw = int(os.environ.get('VERIF_JOBS', min(8, os.cpu_count() or 1)))
    if hasattr(check, 'prepare'):
        check.prepare(scratch)
    counter = multiprocessing.Value('i', 0)
    sys.stdout.flush()
    pids, outs = [], []
    for k in range(nw):
        out = os.path.join(scratch, 'out%d.jsonl' % k)
        outs.append(out)
        child = os.fork()
        if child == 0:
            try:
                worker(check, specs, counter, out, scratch, deadline)
            except BaseException:
                traceback.print_exc()
            os._exit(9)
        pids.append(child)
    bad_workers = 0
    for child in pids:
        _, st = os.waitpid(child, 0)
        if st != 0:
            bad_workers += 1
    results, begun = {}, {}
    for k, out in enumerate(outs):
        if not os.path.exists(out):
            continue
        with open(out) as f:
            for line in f:
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if 'begin' in r:
                    begun[r['begin']] = k
                else:
                    results[r['i']] = r
    died = sorted(i for i in begun if i not in results)

    # ---- aggregate
    counts, maxdev, keys = {}, {}, set()
    status = {}
    hashes = set()
    for i, r in results.items():
        status[r['status']] = status.get(r['status'], 0) + 1
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r.get('maxdev', {}).items():
            if not r['viol']:
                maxdev[k] = max(maxdev.get(k, 0.), v)
        keys.update(r['keys'])
        if r['status'] == 'ok' and sum(r['counts'].values()) > 0:
            hashes.add(spec_hash(specs[i]))

    # ---- violations against known findings
    known = load_known(pid)
    hit_known, violations = {}, []
    for i in sorted(results):
        r = results[i]
        if not r['viol']:
            continue
        unlisted = []
        for name, detail in r['viol']:
            kf = match_known(check, known, specs[i], name, detail)
            if kf is None:
                unlisted.append([name, detail])
            else:
                hit_known.setdefault(kf['id'], [kf, 0])[1] += 1
        if unlisted:
            violations.append((i, unlisted))

    nerr = status.get('error', 0)
    ntime = status.get('timeout', 0)
    lines, code = [], 0
    for kf in known:
        lines.append('KNOWN-FINDING: property=%s %s' % (pid, kf['what']))
    if violations:
        if not os.path.exists(REPLAYS):
            os.makedirs(REPLAYS)
        seen = set()
        for i, unl in violations:
            sig = unl[0][0]
            if sig in seen and len(seen) >= 1 and len(lines) > 12:
                continue
            seen.add(sig)
            path = os.path.join(REPLAYS, '%s-%s.json' % (pid, spec_hash(specs[i])))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'seed': seed, 'tier': tier,
                           'case': i, 'violations': unl, 'spec': specs[i]},
                          f, indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (pid, path))
            lines.append('   case %d: %s: %s' % (i, unl[0][0], unl[0][1][:600]))
            if len(lines) > 30:
                break
        lines.append('%d violating case(s) of %d' % (len(violations), len(results)))
        code = 1
    else:
        missing = [m for m in check.REQUIRED if counts.get(m, 0) == 0]
        why = []
        if missing:
            why.append('monitors never reached: %s' % missing)
        if nerr:
            errs = [r['why'] for r in results.values() if r['status'] == 'error']
            why.append('%d harness errors, first:\n%s' % (nerr, errs[0]))
        if died or bad_workers:
            why.append('workers died on cases %s (%d bad exits)' % (died[:5], bad_workers))
        if ntime > max(2, 0.35*len(results)):
            why.append('%d of %d cases timed out' % (ntime, len(results)))
        if len(results) < max(1, 0.3*len(specs)):
            why.append('only %d of %d cases ran in the time budget'
                       % (len(results), len(specs)))
        if status.get('skip', 0) > 0.7*max(1, len(results)):
            why.append('most cases skipped')
        if why:
            lines.append('INCONCLUSIVE property=%s %s' % (pid, '; '.join(why)))
            code = 2

    ok_ids = [i for i in sorted(results) if results[i]['status'] == 'ok']
    pick = ok_ids[:1] + ok_ids[len(ok_ids)//2:len(ok_ids)//2+1] + ok_ids[-1:]
    samples = []
    for i in pick:
        s = results[i].get('sample')
        samples.append({'case': i, 'spec': specs[i],
                        'observed': s if s is not None else results[i]['counts']})
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': getattr(check, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': len(results),
            'distinct_nontrivial': len(hashes),
            'rule': check.RULE,
            'samples': samples,
            'directed_cases': ndirected,
            'case_status': status,
            'monitor_evaluations': counts,
            'distinct_features': len(keys),
            'features': sorted(keys)[:80],
            'max_deviation_over_tolerance': {k: round(v, 6) for k, v in maxdev.items()},
            'cases_planned': len(specs),
            'known_findings_hit': {k: v[1] for k, v in hit_known.items()},
        },
        'assumptions': list(getattr(check, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    if not os.path.exists(EVIDENCE):
        os.makedirs(EVIDENCE)
    with open(os.path.join(EVIDENCE, '%s.json' % pid), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')
    for l in lines:
        print(l)
    print('%s %s seed=%d: %d cases (%s), %d distinct non-trivial, monitors %s, %.0fs'
          % (pid, tier, seed, len(results), status, len(hashes), counts,
             time.time() - t0))
    if os.environ.get('VERIF_DEBUG'):
        slow = sorted(results.values(), key=lambda r: -r['t'])[:5]
        print('slowest', [(r['i'], round(r['t'], 1)) for r in slow])
        print('maxdev', maxdev)
    return code


def match_known(check, known, spec, name, detail):
    f = getattr(check, 'mechanism', None)
    if f is None or not known:
        return None
    m = f(spec, name, detail)
    if m is None:
        return None
    for kf in known:
        if kf['id'] == m:
            return kf
    return None
