#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/<id>.py (edits, demo, needs, breaks) and tools/seedkit."""
import json, os, shutil, subprocess, sys, runpy, tempfile
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
R = os.environ.get('LIBCWD_REPO', '/repo')
KIT = os.path.join(V, 'tools', 'seedkit')
ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(V + '/tools/seeds') if f.endswith('.py'))
for i in ids:
    s = runpy.run_path('%s/tools/seeds/%s.py' % (V, i))
    d = os.path.join(V, 'seeded', i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix='mkseed-')
    diff = ''
    byfile = {}
    for f, old, new in s['edits']:
        t = byfile.setdefault(f, open(R + '/' + f).read())
        assert t.count(old) == 1, (i, f, old, t.count(old))
        byfile[f] = t.replace(old, new)
    for f, t in byfile.items():
        p = os.path.join(w, 'new'); open(p, 'w').write(t)
        r = subprocess.run(['diff', '-u', '--label', 'a/' + f, '--label', 'b/' + f, R + '/' + f, p], stdout=subprocess.PIPE, text=True).stdout
        diff += r
    shutil.rmtree(w)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
    extra = 'EXTRA=%s\n' % json.dumps(s['flags']) if s.get('flags') else ''
    run = s.get('run', 'cd "$T" && timeout 60 ./demo\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# Exit 0 when the property holds in this demonstration.\n' + extra + '. "$(cd "$(dirname "$0")" && pwd)/libcwd_build.sh"\n' + run)
    os.chmod(d + '/demo.sh', 0o755)
    for f in os.listdir(KIT): shutil.copy(os.path.join(KIT, f), d)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    print(i)
