"""Obligations, verdicts, evidence and the command line of the checks."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import facts
import rl
import debug
import spec
from terms import *
from spec import plain, unknowns, differ

PROPS = {}


def prop(pid, rule, floor=1, world='cli'):
    """register the function deciding property `pid`; floor = fewest decided obligations accepted"""
    def d(f):
        PROPS[pid] = dict(fn=f, rule=rule, floor=floor)
        return f
    return d


class Check:
    def __init__(s, pid):
        s.pid = pid
        s.obs = []
        s.worlds = {}
        s.fns = set()
        s.blocks = 0
        s.calls = 0
        s.notes = []

    def world(s, name='cli'):
        if name not in s.worlds:
            w = s.worlds[name] = facts.world(name)
            for k, a in w.adts.items():
                if a['kind'] == 'enum' and '::' in k:
                    ENUMS.setdefault(k, [v['name'] for v in a['variants']])
        return s.worlds[name]

    def seen(s, sm):
        s.fns |= sm.e.fns
        s.blocks += sm.e.blocks_run
        s.calls += sm.e.calls
        return sm

    def add(s, oid, where, status, detail='', fp=''):
        s.obs.append(dict(id=oid, where=where, status=status, detail=detail, fp=fp))
        return status

    def same(s, oid, where, got, want, note=''):
        """the value-flow term of the code is the specified term"""
        g, w = plain(got), plain(want)
        if g is w:
            return s.add(oid, where, 'ok')
        ug = unknowns(g) - unknowns(w)
        ds = differ(g, w)
        msg = '\n'.join('  computed: %s\n  required: %s' % (sh(a), sh(b)) for a, b in ds[:3])
        if ug:
            return s.add(oid, where, 'undecided', 'not modelled: %s\n%s' % (sorted(ug)[:6], msg))
        return s.add(oid, where, 'violation', (note + '\n' if note else '') + msg, fp=sh(ds[0][0]) if ds else '')

    def among(s, oid, where, got, wants, note=''):
        g = plain(got)
        if any(g is plain(w) for w in wants):
            return s.add(oid, where, 'ok')
        return s.same(oid, where, got, wants[0], note)

    def true(s, oid, where, ok, detail=''):
        return s.add(oid, where, 'ok' if ok else 'violation', '' if ok else detail, fp='' if ok else detail)

    def undecided(s, oid, where, why):
        return s.add(oid, where, 'undecided', why)

    def attempt(s, oid, where, f):
        """run f(); engine limits leave the obligation undecided, a missing anchor fails it"""
        try:
            return f()
        except rl.Missing as e:
            s.add(oid, where, 'undecided', 'anchor missing: %s' % e)
        except facts.FactsError:
            raise
        except Exception as e:
            s.add(oid, where, 'undecided', 'analysis gave up: %s: %s @ %s' % (type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1][:3]))
        return None


def sh(t):
    try:
        r = debug.pp_all([('', t)]).strip() if isinstance(t, T) else show(t)
    except Exception:
        r = show(t)
    return r if len(r) < 3000 else r[:3000] + ' …'


def loc(w, b):
    """file::function of a body"""
    sp = b.__dict__.get('span') or ['?', 0]
    return '%s:%s %s' % (sp[0], sp[1], b.path)


def known():
    p = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(p):
        return json.load(open(p))
    return []


def fp_of(o):
    import hashlib
    import re
    # term numbers are session-local
    t = re.sub(r'#\d+|∈\d+', '#', o['fp'])
    return hashlib.sha256(t.encode()).hexdigest()[:16]


def run(pid, tier):
    import rules
    t0 = time.time()
    p = PROPS[pid]
    spec.rule[0] = pid
    c = Check(pid)
    tier = tier or 'quick'
    c.tier = tier
    out = []
    try:
        p['fn'](c)
    except rl.Missing as e:
        c.add('anchor', str(e), 'undecided', 'anchor missing: %s' % e)
    except facts.FactsError:
        raise
    except Exception as e:
        c.add('rule', pid, 'undecided', 'analysis gave up: %s: %s @ %s' % (type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1][:3]))
    bad = [o for o in c.obs if o['status'] == 'violation']
    okn = sum(o['status'] == 'ok' for o in c.obs)
    und = [o for o in c.obs if o['status'] == 'undecided']
    kf = [k for k in known() if k['property'] == pid and k.get('status') == 'open']
    left, hit = [], []
    for o in bad:
        k = [k for k in kf if k['obligation'] == o['id'] and k['fingerprint'] == fp_of(o)]
        if k:
            hit.append((o, k[0]))
        else:
            left.append(o)
    if okn + len(bad) == 0 and not und:
        left.append(dict(id='vacuous', where=pid, status='violation', detail='no obligation was generated', fp=''))
    for o, k in hit:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    ev = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, pid + '.violation.txt')
    if left:
        with open(replay, 'w') as f:
            for o in left:
                f.write('%s\nobligation %s\nat %s\n%s\n(fingerprint %s)\n\n' % (pid, o['id'], o['where'], o['detail'], fp_of(o) if o.get('fp') else ''))
        for o in left[:8]:
            print('%s: obligation `%s` fails at %s\n%s' % (pid, o['id'], o['where'], o['detail'][:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
    elif os.path.exists(replay):
        os.remove(replay)
    m = json.load(open(os.path.join(ROOT, 'MANIFEST.json'))) if os.path.exists(os.path.join(ROOT, 'MANIFEST.json')) else {'checks': []}
    level = next((x['level'] for x in m['checks'] if x['property'] == pid), 'other')
    cov = dict(explanation='Static: the value-flow summary (normal-form term) of each listed function is computed from the MIR of '
               'the current tree and compared with the specified term; nothing is executed and no solver is asked. Rule: ' + p['rule'],
               obligations=len(c.obs), discharged=okn, undecided=len(und), known_findings=len(hit),
               functions_analysed=len(c.fns), basic_blocks_interpreted=c.blocks, call_sites_resolved=c.calls,
               obligation_list=[dict(id=o['id'], where=o['where'], status=o['status']) for o in c.obs],
               undecided_detail=[dict(id=o['id'], why=o['detail'][:300]) for o in und],
               worlds={k: dict(bodies=len(v.bodies)) for k, v in c.worlds.items()}, notes=c.notes)
    e = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level, coverage=cov,
             wall_s=round(time.time() - t0, 3), violations=len(left), failing=[dict(obligation=o['id'], where=o['where'], detail=o['detail'][:2000]) for o in left])
    json.dump(e, open(os.path.join(ev, pid + '.json'), 'w'), indent=1, ensure_ascii=False)
    print('%s: %d obligations, %d hold, %d undecided, %d known findings, %d violations (%.1fs)' % (pid, len(c.obs), okn, len(und), len(hit), len(left), time.time() - t0))
    if os.environ.get('VERBOSE'):
        for o in und:
            print('  undecided', o['id'], o['where'], o['detail'][:700])
    return 1 if left else 0


def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in a:
        tier = 'thorough'
        a.remove('--thorough')
    import rules
    if a == ['all']:
        rc = 0
        for p in sorted(PROPS):
            rc |= run(p, tier)
        sys.exit(rc)
    for p in a:
        if p not in PROPS:
            print('no such property', p)
            sys.exit(2)
    sys.exit(max(run(p, tier) for p in a))


if __name__ == '__main__':
    import check as _c       # one module object for rules and runner
    _c.main()
