#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'lib'))
sys.path.insert(0, os.path.join(R, 'checks'))
NOTE = {
    'exploration': 'Every case of the stated finite space is run on the real code (in a fork server that links all of bic) and compared with an oracle; nothing is said of cases outside the space.',
    'model_checking': 'Every sequence of model operations (or every program of the model grammar, under every outcome of its conditions) up to the stated bound is executed by an explicit model and replayed on the real code, states compared; nothing is said beyond the bounds.',
    'fault_enumeration': 'Every point at which the event can happen is enumerated for each program of the corpus; nothing is said of other programs.',
}
TECH = {}
exec(open(os.path.join(R, 'tools', 'technique.py')).read())
checks, have = [], set()
for f in sorted(os.listdir(os.path.join(R, 'checks'))):
    m = re.match(r'(c\d\d)\.py$', f)
    if not m:
        continue
    mod = __import__(m.group(1))
    cls = getattr(mod, m.group(1).upper())
    pid = cls.pid
    have.add(pid)
    c = 'python3 checks/' + f
    checks.append(dict(property=pid, quick_cmd=c, thorough_cmd='VERIF_TIER=thorough ' + c,
                       evidence_file='evidence/%s.json' % pid, technique=TECH[pid], level=cls.level,
                       level_note=NOTE[cls.level] + ' Space: ' + cls.space + '.' + (
                           ' Assumes: ' + '; '.join(cls.assumptions) + '.' if cls.assumptions else '')))
na = [dict(property=d['id'], reason='No check has been built for it yet.')
      for d in map(json.loads, open(os.path.join(R, 'properties.jsonl'))) if d['id'] not in have]
json.dump(dict(version=1, setup_cmd='python3 lib/build.py plain asan', hooks=dict(
    guard='BIC_VERIF', enable='lib/build.py compiles /repo/src with -DBIC_VERIF into /verif/.build',
    source_commits=['5aa61c4']), checks=checks, not_applicable=na,
    notes='Thorough tiers take minutes to an hour each. Replays of violations are written to /verif/out/<id>/.'),
    open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
