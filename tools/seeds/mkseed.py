#!/usr/bin/env python3
"""Build /verif/seeded/<id> from tools/seeds/defs*.py after confirming each change in a scratch copy.
usage: mkseed.py [--force] [id…]   (without ids: those not yet present)"""
import glob
import json
import os
import shutil
import subprocess
import sys
H = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(os.path.dirname(H)), 'seeded')
W = '/tmp/seedwork'
SEEDS = {}


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


for f in sorted(glob.glob(os.path.join(H, 'defs*.py'))):
    exec(open(f).read())


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


ENV = ('export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.77.2 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 '
       'CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=; unset RUSTFLAGS CARGO_TARGET_DIR; cd %s; ' % W)


def prepare():
    if not os.path.exists(W):
        sh('cp -a /repo %s' % W)
    sh('cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD' % W)


def build():
    r = sh(ENV + '(cd twiggy && cargo build --offline) && cargo build --offline -p twiggy-wasm-api --target wasm32-unknown-unknown')
    return r.returncode == 0, r.stdout.decode()


def tests():
    r = sh(ENV + 'rm -f twiggy/tests/all/whatever-output.txt; cargo test --workspace --no-fail-fast --offline -- --test-threads 8')
    o = r.stdout.decode()
    open('/tmp/seed.test.log', 'w').write(o)
    fails = {l.split()[1] for l in o.splitlines() if l.startswith('test ') and l.endswith('... FAILED')}
    oks = {l.split()[1] for l in o.splitlines() if l.startswith('test ') and l.endswith('... ok')}
    base = {b.split('::', 1)[-1] if False else b for b in json.load(open('/opt/vp/BASELINE.json'))} if False else None
    return len(oks), fails


def demo(d):
    r = sh('bash %s/demo.sh' % d, cwd=W, timeout=300)
    return r.returncode, r.stdout.decode()


def main():
    a = sys.argv[1:]
    force = '--force' in a
    a = [x for x in a if x != '--force']
    ids = a or [i for i in SEEDS if force or not os.path.exists(os.path.join(OUT, i, 'patch.diff'))]
    prepare()
    for i in ids:
        sd = SEEDS[i]
        sh('cd %s && git checkout -q -- .' % W)
        d = '/tmp/seedout/' + i
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copy(os.path.join(H, 'wb.py'), d)
        open(d + '/demo.py', 'w').write('from wb import *\n' + sd['demo'].strip() + '\n')
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run in the repository after a build; every file it makes is in a scratch folder\n'
                                        'd=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d)\ntrap \'rm -rf "$t"\' EXIT\n'
                                        'TMPDIR="$t" PYTHONDONTWRITEBYTECODE=1 python3 "$d/demo.py"\n')
        ok, o = build()
        assert ok, o
        rc, o = demo(d)
        if rc != 0:
            print(i, 'DEMO FAILS ON CLEAN TREE', o[-1500:])
            continue
        bad = False
        for f, old, new in sd['edits']:
            p = os.path.join(W, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(i, 'edit matches', t.count(old), 'times:', f, old[:80])
                bad = True
                break
            open(p, 'w').write(t.replace(old, new))
        if bad:
            continue
        diff = sh('cd %s && git diff' % W).stdout
        ok, o = build()
        if not ok:
            print(i, 'DOES NOT BUILD', o[-1500:])
            continue
        rc, o = demo(d)
        if rc == 0:
            print(i, 'DEMO PASSES WITH THE CHANGE')
            continue
        n, fails = tests()
        extra = {f for f in fails if 'top_mono' not in f}
        if n < 83 or extra:
            print(i, 'TESTS', n, extra)
            continue
        open(d + '/patch.diff', 'wb').write(diff)
        json.dump(dict(property=sd['prop'], needs=sd['needs'], what_it_breaks=sd['breaks']), open(d + '/meta.json', 'w'), indent=1)
        t = os.path.join(OUT, i)
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(d, t)
        print(i, 'ok', '| demo:', o.strip()[:150].replace('\n', ' '))
    sh('cd %s && git checkout -q -- .' % W)


main()
