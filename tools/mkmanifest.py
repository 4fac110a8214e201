#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in checks/."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'runtime monitor of the power balance on recorded simulation traces',
 'C02': 'runtime monitor: independent evaluation of the scheme residual on every recorded step',
 'C03': 'runtime monitor: oracle on values of the discrete gradients built by the real code',
 'C04': 'runtime monitor: shadow matrix model checked after every operation of random histories',
 'C05': 'runtime monitor: name-indexed shadow model checked after every move/split',
 'C06': 'runtime monitor: numerical resolution of original vs reduced equations',
 'C07': 'runtime monitor: numerical resolution of declared connections vs connected system',
 'C08': 'runtime monitor: name-indexed shadow model of the disjoint union',
 'C09': 'runtime monitor: state fingerprints before/after copy, save, load and mutation',
 'C10': 'runtime monitor: numerical values of all expressions before/after rewriting',
 'C11': 'runtime monitor: Kirchhoff and constitutive laws evaluated on the built system',
 'C12': 'runtime monitor: metamorphic comparison of network behaviours',
 'C13': 'runtime monitor: round-trip and shadow list model of netlist edits',
 'C14': 'runtime monitor: independent component laws evaluated on built components',
 'C15': 'runtime monitor: recorded events compared with what the data store returns',
 'C16': 'runtime monitor: symbolic vs compiled values on random points',
 'C17': 'runtime monitor: replay and interleaving of simulation histories, input fingerprints',
 'C18': 'differential execution of generated C++ under AddressSanitizer/UBSan vs Python',
 'C20': 'runtime monitor: definitions re-evaluated with 40 digits against the accessors and calculus tools',
 'C21': 'runtime monitor: independent LaTeX linter and formula evaluator over the generated documents',
 'C22': 'runtime monitor: artists of the figures read back and compared with the record',
 'C23': 'runtime monitor: Faust block interpreter stepped beside the simulation',
 'C25': 'runtime monitor: documented examples, usage and netlist lines executed and compared; tables parsed back',
 'C24': 'differential execution of generated plugins under AddressSanitizer/UBSan vs Python',
 'C19': 'runtime monitor: independent signal oracle and WAV round trip',
}
NOTE = ('Held on every generated execution observed (counts in the evidence file); '
        'an exploration, not a proof. Trusts the oracle in checks/%s.py, sympy and numpy.')
NA = {}
checks = []
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
na = []
for p in props:
    if os.path.exists(os.path.join(here, 'checks', p.lower() + '.py')) and p not in NA:
        checks.append({'property': p, 'quick_cmd': 'bash run.sh %s quick' % p,
                       'thorough_cmd': 'bash run.sh %s thorough' % p,
                       'technique': TECH[p], 'level': 'exploration',
                       'level_note': NOTE % p.lower()})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'Checks import pyphs from /repo (VERIF_REPO overrides it for experiments); no hooks.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
