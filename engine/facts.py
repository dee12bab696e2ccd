"""Builds the MIR facts of /repo's current working tree with the rustc driver and loads them."""
import hashlib
import re
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VREPO', '/repo')
CACHE = os.environ.get('VCACHE', os.path.join(VERIF, '.cache'))
WORLDS = {'cli': ('twiggy', ['twiggy', 'twiggy_analyze', 'twiggy_ir', 'twiggy_opt', 'twiggy_parser', 'twiggy_traits']),
          'wasm': ('twiggy-wasm-api', ['twiggy_wasm_api', 'twiggy_analyze', 'twiggy_ir', 'twiggy_opt', 'twiggy_parser', 'twiggy_traits'])}


class FactsError(Exception):
    pass


def src_hash():
    h = hashlib.sha256()
    roots = [REPO, os.path.join(VERIF, 'driver', 'src')]
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'node_modules', 'fixtures', 'expectations'))
            for f in sorted(fs):
                if f.endswith(('.rs', '.toml', '.lock')):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode() + b'\0')
                    h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]


def _run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise FactsError('%s failed:\n%s' % (' '.join(cmd), p.stdout[-3000:]))


def driver():
    sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    env = dict(os.environ, LD_LIBRARY_PATH=sysroot + '/lib', CARGO_NET_OFFLINE='true')
    env.pop('RUSTFLAGS', None)
    env.pop('RUSTC_WRAPPER', None)
    env['CARGO_TARGET_DIR'] = os.path.join(CACHE, 'driver')
    _run(['cargo', '+nightly', 'build', '--offline', '-q'], os.path.join(VERIF, 'driver'), env)
    env.pop('CARGO_TARGET_DIR')
    return os.path.join(CACHE, 'driver', 'debug', 'vdriver'), env


_locks = {}


def build(world):
    """-> directory with one json file per workspace crate"""
    os.makedirs(CACHE, exist_ok=True)
    import fcntl
    lock = open(os.path.join(CACHE, 'lock-' + world), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    _locks[world] = lock        # held until the facts are loaded
    out = os.path.join(CACHE, 'facts', world)
    stamp = os.path.join(out, 'stamp')
    h = src_hash()
    if os.path.exists(stamp) and open(stamp).read() == h:
        return out
    drv, env = driver()
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    tgt = os.path.join(CACHE, 'target-' + world)
    # every workspace crate goes through the driver again; only the external crates stay cached
    for sub in ('.fingerprint', 'build', 'deps'):
        fp = os.path.join(tgt, 'debug', sub)
        if os.path.isdir(fp):
            for f in os.listdir(fp):
                if re.match(r'(lib)?twiggy', f):
                    q = os.path.join(fp, f)
                    shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)
    env = dict(env, RUSTC_WRAPPER=drv, VFACTS_OUT=out, VFACTS_WORLD=world,
               RUSTFLAGS='-Zallow-features=proc_macro_diagnostic,proc_macro_def_site -Coverflow-checks=off -Zmir-opt-level=0 -Awarnings')
    _run(['cargo', '+nightly', 'check', '--offline', '-p', WORLDS[world][0], '--target-dir', tgt], REPO, env)
    for c in WORLDS[world][1]:
        if not os.path.exists(os.path.join(out, c + '.json')):
            raise FactsError('no facts for crate %s' % c)
    with open(stamp, 'w') as f:
        f.write(h)
    return out


class Body:
    def __init__(s, d, crate):
        s.__dict__.update(d)
        s.crate = crate
        s.cfg()

    def cfg(s):
        s.succ = []
        for bl in s.blocks:
            t = bl['t']
            if isinstance(t, dict):
                s.succ.append([t['to']] if t['to'] is not None else [])
            elif t[0] == 'goto':
                s.succ.append([t[1]])
            elif t[0] == 'switch':
                x = [b for _, b in t[3]] + ([t[4]] if t[4] is not None else [])
                s.succ.append(list(dict.fromkeys(x)))
            elif t[0] == 'drop':
                s.succ.append([t[4]])
            elif t[0] == 'assert':
                s.succ.append([t[5]])
            else:
                s.succ.append([])
        n = len(s.blocks)
        # reverse post order
        seen = [False] * n
        order = []
        st = [(0, iter(s.succ[0]))]
        seen[0] = True
        while st:
            b, it = st[-1]
            for c in it:
                if not seen[c]:
                    seen[c] = True
                    st.append((c, iter(s.succ[c])))
                    break
            else:
                order.append(b)
                st.pop()
        s.rpo = order[::-1]
        s.rpos = {b: i for i, b in enumerate(s.rpo)}
        s.pred = {b: [] for b in s.rpo}
        for b in s.rpo:
            for c in s.succ[b]:
                s.pred[c].append(b)
        # dominators
        idom = {s.rpo[0]: s.rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in s.rpo[1:]:
                ps = [p for p in s.pred[b] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while s.rpos[x] > s.rpos[y]:
                            x = idom[x]
                        while s.rpos[y] > s.rpos[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        s.idom = idom
        # natural loops
        s.loops = {}
        s.irreducible = False
        for b in s.rpo:
            for c in s.succ[b]:
                if s.rpos[c] <= s.rpos[b]:
                    if not s.dominates(c, b):
                        s.irreducible = True
                        continue
                    body = s.loops.setdefault(c, {c})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(s.pred[x])
        # blocks that can only end in an error return or in divergence
        rt = s.locals[0]
        is_res = rt.startswith('std::result::Result<') or rt.startswith('anyhow::Result')
        kill = set()
        if is_res:
            for b in s.rpo:
                bl = s.blocks[b]
                for st_ in bl['s']:
                    if st_[0] == '=' and st_[1] == [0, []]:
                        r = st_[2]
                        if r[0] == 'agg' and r[1][0] == 'adt' and r[1][2] == 'Err':
                            kill.add(b)
                t = bl['t']
                if isinstance(t, dict) and t['dest'] == [0, []] and t['f'][0] == 'k' and 'fn' in t['f'][1]:
                    if t['f'][1]['fn']['path'].endswith('from_residual'):
                        kill.add(b)
        ok = set()
        w = [b for b in s.rpo if s.blocks[b]['t'] == ['return'] and b not in kill]
        while w:
            b = w.pop()
            if b in ok:
                continue
            ok.add(b)
            for p in s.pred[b]:
                if p not in kill:
                    w.append(p)
        s.okable = ok
        s.kill = kill
        s.reach_ret = set()
        w = [b for b in s.rpo if s.blocks[b]['t'] == ['return']]
        while w:
            b = w.pop()
            if b not in s.reach_ret:
                s.reach_ret.add(b)
                w.extend(s.pred[b])

    def dominates(s, a, b):
        while True:
            if a == b:
                return True
            if b == s.rpo[0]:
                return False
            b = s.idom[b]


class World:
    def __init__(s, name):
        s.name = name
        d = build(name)
        s.bodies = {}
        s.adts = {}
        s.impls = []
        s.unsafe = {}
        s.crates = WORLDS[name][1]
        for c in s.crates:
            j = json.load(open(os.path.join(d, c + '.json')))
            for b in j['bodies']:
                s.bodies[b['id']] = Body(b, c)
            for p, a in j['adts']:
                for key in {p, c + '::' + p}:
                    s.adts.setdefault(key, a)
                s.adts.setdefault(a['id'], a)
            for im in j['impls']:
                s.impls.append((c, im))
            s.unsafe[c] = j['unsafe_blocks']
        _locks.pop(name).close()
        s.by_suffix = {}
        for b in s.bodies.values():
            s.by_suffix.setdefault(b.path.split('::')[-1], []).append(b)

    def find(s, suffix, crate=None):
        last = suffix.split('::')[-1]
        r = [b for b in s.by_suffix.get(last, []) if (b.crate + '::' + b.path).endswith(suffix) and (crate is None or b.crate == crate)]
        return r

    def one(s, suffix, crate=None):
        r = s.find(suffix, crate)
        return r[0] if len(r) == 1 else None


_worlds = {}


def world(name):
    if name not in _worlds:
        _worlds[name] = World(name)
    return _worlds[name]


if __name__ == '__main__':
    for w in sys.argv[1:] or ['cli', 'wasm']:
        print(build(w))
