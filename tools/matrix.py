#!/usr/bin/env python3
"""Runs the check of each planted bug on a patched copy of /repo and writes DESIGN.md from its parts.

    matrix.py [ID...]     re-run these (default: all without a stored result), then write DESIGN.md
Results are kept in tools/matrix.json.  Not part of any registered check.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STORE = os.path.join(V, 'tools', 'matrix.json')
store = json.load(open(STORE)) if os.path.exists(STORE) else {}
ids = sorted(os.listdir(os.path.join(V, 'seeded')))
todo = [a for a in sys.argv[1:] if a in ids] or [i for i in ids if i not in store]
for i in todo:
    d = os.path.join(V, 'seeded', i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='matrix')
    w = os.path.join(tmp, 'repo')
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    subprocess.run(['git', '-C', w, 'apply', os.path.join(d, 'patch.diff')], check=True)
    r = subprocess.run([sys.executable, os.path.join(V, 'check.py'), meta['property'], '--first', '--seed', '1'], capture_output=True, text=True,
                       env=dict(os.environ, VH_REPO=w, VERIF_SEED='1'))
    sub = [l.split('/')[1].split()[0] for l in r.stdout.split('\n') if ' fails on' in l]
    store[i] = dict(property=meta['property'], rc=r.returncode, sub=sorted(set(sub)), needs=meta['needs'], breaks=meta['what_it_breaks'])
    print(i, r.returncode, sub, flush=True)
    shutil.rmtree(tmp)
store = {i: store[i] for i in ids if i in store}
json.dump(store, open(STORE, 'w'), indent=1)
with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
    for part in ('design_head.md', 'design_props.md'):
        f.write(open(os.path.join(V, 'tools', part)).read())
    f.write('## Planted bugs and what catches them\nEach was written from the text of a property; all pass the tests of the repository. Columns: bug, what it needs, sub-check that '
            'noticed first (check of the same property, seed 1).\n\n')
    for i, r in store.items():
        f.write('- `%s` (needs %s): %s\n' % (i, r['needs'], ('caught by ' + ', '.join(r['property'] + '/' + s for s in r['sub'])) if r['rc'] == 1 else 'NOT caught'))
