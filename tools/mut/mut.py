#!/usr/bin/env python3
"""Quick mutants (no demonstration): apply each small edit in a scratch copy and see whether the named property's check notices.
usage: mut.py [file-glob] [--only id] ; entries: mut(id, prop, (file, old, new)…) and same(id, (file, old, new)…) for edits that keep the behaviour"""
import glob
import os
import subprocess
import sys
H = os.path.dirname(os.path.abspath(__file__))
R = os.path.dirname(os.path.dirname(H))
M = []


def mut(id, prop, *edits):
    M.append((id, prop, edits))


def same(id, *edits):
    M.append((id, None, edits))


a = sys.argv[1:]
only = None
if '--only' in a:
    i = a.index('--only')
    only = set(a[i + 1].split(','))
    del a[i:i + 2]
for f in sorted(glob.glob(os.path.join(H, (a[0] if a else '*') + '.defs'))):
    exec(open(f).read())
sys.path.insert(0, os.path.join(R, 'tools'))
from pool import Pool
pool = Pool()


def go(id, prop, edits):
    def edit(W):
        saved = {}
        for f, old, new in edits:
            p = os.path.join(W, f)
            t = open(p).read()
            saved.setdefault(p, t)
            if t.count(old) != 1:
                print(id, 'matches %d times: %s %r' % (t.count(old), f, old[:80]))
                undo(W, saved)
                return None
            open(p, 'w').write(t.replace(old, new))
        return saved

    def undo(W, saved):
        for p, t in saved.items():
            open(p, 'w').write(t)

    def done(o, rc):
        hit = [l.split('property=')[1].split()[0] for l in o.splitlines() if l.startswith('VIOLATION')]
        und = {l.split(':')[0]: int(l.split(' hold, ')[1].split()[0]) for l in o.splitlines() if ' hold, ' in l}
        u = ' '.join('%s:%d' % k for k in und.items() if k[1])
        if rc not in (0, 1) or not und:
            print(id, 'NO ANSWER', o[-800:], flush=True)
        elif prop is None:
            print(id, 'NOISY ' + ' '.join(hit) if hit else 'quiet', u, flush=True)
        else:
            print(id, prop, 'caught' if prop in hit else 'MISSED' + (' (others: %s)' % ' '.join(hit) if hit else ''), u, flush=True)
    pool.run(edit, undo, ['all'], done)


for j in M:
    if not only or j[0] in only:
        go(*j)
pool.close()
