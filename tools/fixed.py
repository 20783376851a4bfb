#!/usr/bin/env python3
"""Rewrite the `fixed` list of known_findings.json from /repo's fix commits (run by hand only)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OWNER = {}
for line in open(V + '/tools/fixed_owner.txt'):
    pid, subj = line.rstrip('\n').split(' ', 1)
    OWNER[subj] = pid
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
out = []
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        out.append('fixed: property=%s %s %s' % (OWNER[s[5:]], h, s[5:]))
K = json.load(open(V + '/known_findings.json'))
K['fixed'] = out
json.dump(K, open(V + '/known_findings.json', 'w'), indent=1)
print(len(out))
