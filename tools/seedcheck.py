#!/usr/bin/env python3
"""Run the checks against planted bugs / behaviour-preserving edits in a scratch copy (VREPO).
usage: seedcheck.py [--all-props] [--refactor] [id…]"""
import glob
import json
import os
import shutil
import subprocess
import sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


a = sys.argv[1:]
allp = '--all-props' in a
ref = '--refactor' in a
a = [x for x in a if not x.startswith('--')]
src = os.path.join(R, 'tools', 'refactors') if ref else os.path.join(R, 'seeded')
if ref:
    jobs = [(os.path.basename(f)[:-5], f, None) for f in sorted(glob.glob(src + '/*.diff'))]
else:
    jobs = [(os.path.basename(d), d + '/patch.diff', json.load(open(d + '/meta.json'))['property']) for d in sorted(glob.glob(src + '/*')) if os.path.exists(d + '/patch.diff')]
if a:
    jobs = [j for j in jobs if j[0] in a]
sys.path.insert(0, os.path.join(R, 'tools'))
from pool import Pool
pool = Pool(git=True)


def go(i, f, prop):
    def edit(W):
        r = sh('cd %s && git apply %s' % (W, f))
        if r.returncode:
            print(i, 'PATCH DOES NOT APPLY', r.stdout.decode()[:200], flush=True)
            return None
        return W

    def undo(W, x):
        sh('cd %s && git checkout -q -- . && git clean -fdq' % W)

    def done(o, rc):
        hit = [l.split('property=')[1].split()[0] for l in o.splitlines() if l.startswith('VIOLATION')]
        und = [l for l in o.splitlines() if ' hold, ' in l and ', 0 undecided' not in l and l[:1] == 'P' and int(l.split(' hold, ')[1].split()[0])]
        u = [l.split(':')[0] + ':' + l.split(' hold, ')[1].split()[0] for l in und]
        tail = '' if rc in (0, 1) else o[-500:]
        if ref:
            print(i, 'NOISY ' + ' '.join(hit) if hit else 'quiet', '| undecided:', u, tail, flush=True)
        else:
            print(i, prop, 'CAUGHT' if prop in hit else 'missed', ' '.join(h for h in hit if h != prop), u, tail, flush=True)
    pool.run(edit, undo, ['all'] if not prop or allp else [prop], done)


for x in jobs:
    go(*x)
pool.close()
