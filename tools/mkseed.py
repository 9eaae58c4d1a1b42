#!/usr/bin/env python3
"""mkseed.py FILE.py: FILE defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]"""
import json, os, runpy, shutil, subprocess, sys, tempfile
S = runpy.run_path(sys.argv[1])['SEEDS']
only = sys.argv[2:]
for s in S:
    if only and s['id'] not in only:
        continue
    t = tempfile.mkdtemp(prefix='mkseed_')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
        for f, old, new in s['edits']:
            p = os.path.join(t, 'r', f)
            x = open(p).read()
            assert x.count(old) == 1, (s['id'], f, x.count(old))
            open(p, 'w').write(x.replace(old, new))
        d = subprocess.check_output(['git', '-C', t + '/r', 'diff']).decode()
    finally:
        shutil.rmtree(t)
    o = '/verif/seeded/' + s['id']
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(d)
    open(o + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\n'
                                    'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    open(o + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
              open(o + '/meta.json', 'w'), indent=1)
    print('made', s['id'])
