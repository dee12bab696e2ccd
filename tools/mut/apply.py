#!/usr/bin/env python3
"""apply.py DIR ID: copy /repo to DIR with the edit ID of the *.defs applied (for inspection with VREPO=DIR)"""
import glob, os, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
DEFS = {}
mut = lambda id, prop, *e: DEFS.update({id: e})
same = lambda id, *e: DEFS.update({id: e})
for f in glob.glob(H + '/*.defs'):
    exec(open(f).read())
d, i = sys.argv[1:3]
subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '--exclude', '.git', '/repo/', d + '/'], check=True)
for f, o, n in DEFS[i]:
    p = os.path.join(d, f)
    t = open(p).read()
    assert t.count(o) == 1, f
    open(p, 'w').write(t.replace(o, n))
