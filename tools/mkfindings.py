"""Regenerates known_findings.json from the fix: commits of /repo (never run by a check)."""
import json, os, subprocess
MAP = {'d65b239':'C02','d8c15be':'C02','5f8d39f':'C05','b974870':'C16','8d0467a':'C15','0906bec':'C15',
       'bcf9791':'C05','6a32352':'C06','0fd6741':'C07','c6118ef':'C09','9e2dd58':'C10','9a7d338':'C10',
       'a6771ad':'C11','9c0e234':'C11','5633648':'C11','b3caf0c':'C11','bfc67e7':'C12','6744960':'C08',
       '76b4675':'C12','727cfe5':'C12','beae025':'C13','4b9bed9':'C13'}
TXT = [('move of a storage', 'C05'), ('component', 'C14'), ('triode', 'C14'), ('parameter', 'C14'),
       ('fractional', 'C14'), ('cantilever', 'C14'), ('documented default', 'C14')]
HERE = os.path.dirname(os.path.abspath(__file__))
EXTRA = json.load(open(os.path.join(HERE, 'fixmap.json'))) if os.path.exists(os.path.join(HERE, 'fixmap.json')) else {}
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True)
out = []
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    what = s[4:].strip()
    p = MAP.get(h[:7]) or next((v for k, v in EXTRA.items() if k in s), None) or \
        next((v for k, v in TXT if k in s), None)
    if p is None:
        raise SystemExit('no property for: ' + line)
    out.append({'id': 'F%02d' % (len(out)+1), 'property': p, 'status': 'fixed', 'commit': h, 'what': what,
                'text': 'fixed: property=%s %s %s' % (p, h, what)})
open_ = os.path.join(HERE, 'open_findings.json')
if os.path.exists(open_):
    out += json.load(open(open_))
json.dump({'findings': out}, open(os.path.join(HERE, '..', 'known_findings.json'), 'w'), indent=1)
print(len(out))
