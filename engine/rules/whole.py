"""whole-program rules about effects: where the program touches the outside world, and what may differ between two runs"""
from .common import *
import check as chk
import errs
import facts
import os
from terms import *
import terms as tm

RULES = [
    ('opens a file', r'^std::fs::(OpenOptions::(new|read|open)|File::options)$', 'file'),
    # kind, callee, functions the call must be reached through (main: only the program's own crate)
    ('reads a file', r'^std::fs::(File::open|read|read_to_string|metadata|symlink_metadata|canonicalize|exists)$|^std::path::Path::(exists|try_exists|metadata|symlink_metadata|canonicalize|is_file|is_dir|is_symlink)$|^std::fs::(File|Metadata)::(metadata|len|is_file|is_dir)$', 'read'),
    ('lists or follows files', r'^std::fs::(read_dir|read_link)$|^std::path::Path::(read_dir|read_link)$|^std::env::(?!args)', None),
    ('creates, changes or removes files', r'^std::fs::|^std::os::|^csv::(writer::)?Writer(::<[^>]*>)?::from_path', 'write'),
    ('writes to standard output', r'^std::io::stdout$', 'write'),
    ('prints besides the report', r'^std::io::_print$', None),
    ('reads the command line', r'^std::env::args', 'main'),
    ('prints an error message', r'^std::io::(_eprint|stderr)$', 'main'),
    ('reads standard input', r'^std::io::(stdin|read_to_string)$', None),
    ('ends the program', r'^std::process::(exit|abort)$', 'main'),
    ('starts a program', r'^std::process::', None),
    ('uses the network', r'^std::net::', None),
    ('starts a thread', r'^std::thread::', None),
    ('changes how panics are reported', r'^std::panic::(set_hook|take_hook)', None),
]
UNSTABLE = [
    ('the clock', r'^std::time::|::Instant::now|SystemTime::now'),
    ('a random number', r'^(rand|getrandom|fastrand)::|RandomState|DefaultHasher|BuildHasher'),
    ('the environment', r'^std::env::(?!args)'),
    ('the process or thread', r'^std::process::id$|^std::thread::'),
    ('an address', r'fmt::Pointer|::(addr|expose_provenance|expose_addr)$|^std::ptr::(hash|addr_of)'),
]


def calls(w):
    for b in w.bodies.values():
        if b.kind == 'promoted':
            continue
        for i in b.rpo:
            t = b.blocks[i]['t']
            if isinstance(t, dict):
                fn_ = errs.callee(t)
                if fn_:
                    yield b, t['sp'], fn_


def fns_in(x, out):
    """ids of every function mentioned"""
    if isinstance(x, dict):
        for k, y in x.items():
            if k == 'id' and isinstance(y, str):
                out.add(y)
            else:
                fns_in(y, out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            fns_in(y, out)
        if len(x) > 1 and x[0] == 'closure' and isinstance(x[1], str):
            out.add(x[1])
    return out


def callers(w):
    up = {}
    for b in w.bodies.values():
        s = set()
        for bl in b.blocks:
            fns_in(bl, s)
        for i in s:
            if i in w.bodies and i != b.id:
                up.setdefault(i, set()).add(b.id)
        if '::{closure' in b.path:
            p = b.path[:b.path.rindex('::{')]
            for q in w.bodies.values():
                if q.crate == b.crate and q.path == p:
                    up.setdefault(b.id, set()).add(q.id)
        if b.kind == 'promoted':
            pass
    return up


def main_of(w):
    m = [b for b in w.bodies.values() if b.crate == 'twiggy' and b.path == 'main']
    if len(m) != 1:
        raise Missing('main')
    return m[0]


def outside(w, up, b, roots, main):
    """how b is reached other than through `roots`: 'main', 'unused' or None"""
    todo, vis, dead = [b.id], set(), True
    while todo:
        x = todo.pop()
        if x in vis or x in roots:
            dead = dead and x not in roots
            continue
        vis.add(x)
        if x == main.id:
            return 'main'
        todo += list(up.get(x, ()))
    return 'unused' if dead else None


@prop('P27', 'who may touch the outside world: every call with an effect outside the process, and the functions it is reached through', floor=6)
def confined(c):
    w = c.world()
    up = callers(w)
    main = main_of(w)
    roots = {'read': {rl.fn(w, 'read_and_parse', 'twiggy_parser').id}, 'write': {rl.method(w, 'twiggy_opt', 'OutputDestination', 'open').id}}
    roots['file'] = roots['read'] | roots['write']
    n = 0
    for b, sp, f in calls(w):
        n += 1
        for what, rx, by in RULES:
            if not re.search(rx, f['path']):
                continue
            o = '%s.%s' % (b.path, f['path'].split('::')[-1])
            at = '%s:%s %s' % (sp[0], sp[1], b.path)
            if by is None:
                v = outside(w, up, b, (), main)
            elif by == 'main':          # only the program itself: the libraries neither print nor end the process
                v = None if b.crate == 'twiggy' else outside(w, up, b, (), main)
            else:
                v = outside(w, up, b, roots[by], main)
                if b.id in roots[by]:
                    v = None
            if v == 'unused':
                c.undecided(o, at, '%s in code that is not used' % what)
            else:
                c.true(o, at, v is None, '%s (%s) %s' % (what, f['path'], 'here' if by is None else 'elsewhere than from ' + {'read': 'read_and_parse', 'file': 'read_and_parse or OutputDestination::open', 'write': 'OutputDestination::open', 'main': 'the program itself'}[by]))
            break
    c.calls += n
    for name in ('cli', 'wasm'):
        w2 = c.world(name)
        for k, v in sorted(w2.unsafe.items()):
            v = [x for x in v if not x[1]]          # not what #[wasm_bindgen] expands to
            c.true('%s.unsafe.%s' % (name, k), k, not v, 'code outside the checks of the compiler: %s' % str(v)[:300])
        for b in w2.bodies.values():
            c.fns.add(b.id)
            c.blocks += len(b.rpo)


class Harvest(chk.Check):
    """runs another property's rule for the summaries it computes"""

    def __init__(s, pid, worlds):
        chk.Check.__init__(s, pid)
        s.worlds = worlds
        s.sums = []

    def seen(s, sm):
        s.sums.append(sm)
        return chk.Check.seen(s, sm)

    def same(s, *a, **k):
        return 'ok'

    true = among = undecided = add = same


def loose(t):
    """pieces of sequences whose order is that of a hash table"""
    bad, seen = [], set()

    def any_(x, flat):
        if isinstance(x, T):
            go(x, flat)
        elif isinstance(x, tuple):
            for y in x:
                any_(y, flat)

    def seg(st, e, flat):
        st = tuple(st)
        for i, sg in enumerate(st):
            if sg[0] == 'hash' and not flat and not settled(st[:i], st[i + 1:], e):
                bad.append((st, e))
        for i, sg in enumerate(st):
            # what runs through a source in its order: shuffled or sorted afterwards, that order is gone
            any_(sg[1:], sg[0] == 'order' or flat or any(x[0] == 'hash' for x in st[i + 1:]) or settled(st[:i + 1], st[i + 1:], e))
        any_(e, flat)

    def go(t, flat):
        if (t, flat) in seen:
            return
        seen.add((t, flat))
        if t.op in ('seq', 'cat'):
            for st, e in t.a[0]:
                seg(st, e, flat)
            return
        if t.op == 'b':
            for x in tm.BD.support(t.a[0]):
                go(tm.BD.atoms[x] if isinstance(x, int) else x, True)
            return
        if t.op in ('elem', 'val', 'key') and isinstance(t.a[0], T):      # one of the elements, whichever; its source is looked at where it is walked
            if t.op != 'elem':
                go(t.a[0], flat)
            return
        # what is counted, summed up, grouped in a tree or looked for does not depend on the order
        over = t.op in ('agg', 'count', 'group', 'mapof', 'exists', 'has', 'sethas') or t.op in ('ext',) and 'Hash' in str(t.a[0])
        any_(t.a, flat or over)
    go(t, False)
    return bad


def settled(before, after, e):
    """a later sort tells all elements apart"""
    vs = [sg[1] for sg in before if sg[0] == 'for']
    ident = set(vs) | {mk('key', v) for v in vs} | {sg[1] for sg in before + after if sg[0] == 'uniq' and len(sg) > 1} | {e}
    for v in list(vs):
        ident |= {tm.proj(v, '0')}
    for sg in after:
        if sg[0] == 'order' and sg[1].op == 'keys':
            if any(k in ident for k, _ in sg[1].a[0]):
                return True
    return False


@prop('P26', 'what may differ between two runs: calls that observe it, and hash order surviving in a value-flow summary', floor=4)
def repeatable(c):
    w = c.world()
    n = 0
    for name in ('cli', 'wasm'):
        wn = c.world(name)
        bad = {}
        for b, sp, f in calls(wn):
            n += 1
            for what, rx in UNSTABLE:
                if re.search(rx, f['path']) or re.search(rx, str((f.get('res') or {}).get('path'))):
                    bad.setdefault(b.id, []).append((b, sp, what, f['path']))
        for b in wn.bodies.values():
            c.fns.add(b.id)
            c.blocks += len(b.rpo)
            if 'wasm_bindgen::' in b.path or '__wasm_bindgen' in b.path:        # generated glue
                continue
            for i in b.rpo:
                for s in b.blocks[i]['s']:
                    if s[0] == '=' and s[2][0] == 'cast' and s[2][1] in ('PointerExposeProvenance', 'PointerExposeAddress'):
                        bad.setdefault(b.id, []).append((b, s[3], 'an address', 'cast'))
        c.true(name + '.observes', name, not bad, '\n'.join('%s:%s %s depends on %s (%s)' % (sp[0], sp[1], b.path, what, p) for xs in bad.values() for b, sp, what, p in xs))
    c.calls += n
    # hash order
    covered = set()
    for pid in sorted(chk.PROPS):
        if pid in ('P26', 'P27', 'P28', 'P25', 'P29', 'P30', 'P31'):
            continue
        h = Harvest(pid, c.worlds)
        h.tier = 'quick'
        c.attempt('summaries.' + pid, pid, lambda: chk.PROPS[pid]['fn'](h))
        hit = []
        for sm in h.sums:
            covered |= sm.e.fns
            ts = [sm.ret] + [x for e in sm.effects if e.kind in ('write', 'ext', 'call') for x in e.args if isinstance(x, T)]
            for t in ts:
                if isinstance(t, T) and t.op not in ('ptr', 'clo'):
                    for st, e in loose(plain(t)):
                        hit.append((sm, st, e))
        c.fns |= h.fns
        c.true('order.' + pid, ', '.join(sorted({sm.b.path for sm, _, _ in hit})[:3]) or pid, not hit,
               '\n'.join('%s: %s comes in the order of a hash table' % (sm.b.path, show(mk_seq([(st, e)]))[:300]) for sm, st, e in hit[:3]))
    # every place where a hash table is walked lies in a summarised function
    for b, sp, f in calls(w):
        p = f['path']
        at = ''
        if re.search(r'collections::(hash_map::|hash_set::)?Hash(Map|Set)::<[^>]*>::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|union|difference|intersection|symmetric_difference|extract_if)$', p) \
                or re.search(r'IntoIterator>?::into_iter$', p) and re.search(r'std::collections::Hash(Map|Set)', str((f.get('targs') or [''])[0])):
            o = 'walk.%s' % b.path
            if b.id in covered:
                c.add(o, '%s:%s %s' % (sp[0], sp[1], b.path), 'ok')
            else:
                c.undecided(o, '%s:%s %s' % (sp[0], sp[1], b.path), 'a hash table is walked in a function without a summary')


# ---------------------------------------------------------------- bad input ends in an error
MEM = re.compile(r'^<(std::vec::Vec<u8>|std::string::String) as ')
POS = ('range', 'start', 'end', 'size', 'offset', 'consumed')


def read_in(t):
    """t is (part of) something handed over by the reading libraries"""
    fs = []
    while t.op == 'proj' or t.op == 'cast' or t.op in ('elem', 'val') and isinstance(t.a[0], T):
        if t.op == 'proj':
            fs.append(t.a[1])
        t = t.a[1] if t.op == 'cast' else t.a[0]
    if t.op not in ('api', 'ext') or re.match(r'(str|slice|String|Vec)::|chunkpos$|chunks$|earlier$', str(t.a[0])):
        return None
    return fs


def file_number(t, d=0):
    """an integer taken from the input, possibly adjusted"""
    if d > 6:
        return False
    if t.op == 'lin':
        return any(file_number(x, d + 1) for x, _ in t.a[1])
    if t.op == 'cast':
        return file_number(t.a[1], d + 1)
    if t.op in ('min', 'max'):
        return any(file_number(x, d + 1) for x in t.a[0])
    if t.op == 'phi':
        return any(file_number(v, d + 1) for _, v in t.a[0])
    fs = read_in(t)
    return bool(fs) and not any(f in POS for f in fs)


def numbers_in(b):
    """the condition compares, or looks up, a number taken from the input"""
    for a in BD.support(b.a[0]):
        if a.op in ('le0', 'eq0'):
            _, d = tm.lparts(a.a[0])
            if any(file_number(x) for x in d):
                return True
        elif a.op == 'ch' and a.a[0].op == 'get' and file_number(a.a[0].a[1]):
            return True
        elif a.op in ('has', 'eq') and any(isinstance(x, T) and file_number(x) for x in a.a):
            return True
    return False


def given(b):
    """the condition looks at the input or at the user's options"""
    hit = []

    def f(x):
        if x is OPTS or x.op in ('api', 'ext') and read_in(x) is not None:
            hit.append(x)
    for a in BD.support(b.a[0]):
        tm.walk(a, f)
    return bool(hit)


def crash(e):
    """(violates, what) for a place where the program may stop, None when it is not about the input"""
    what = e.args[0].a[0]
    ok = e.args[-1]
    if what in ('slice::index', 'Map::index', 'bounds'):
        k = e.args[-2] if what != 'bounds' else e.args[2]
        if file_number(k):
            return 'an index taken from the input, %s, is used without checking that it is in range' % show(k)[:200]
    elif what == 'slice::range':
        k = e.args[-2]
        fs = dict(k.a[2])
        for x in fs.values():
            r = read_in(x)
            y = show(x)
            if r is not None and re.search(r'(CodeSectionStart|ModuleSectionStart):range', y):
                return 'the announced extent %s of a section is cut out of the input without checking that the input is that long' % y[:200]
            if file_number(x):
                return 'a position taken from the input, %s, is used without checking that it is in range' % y[:200]
            if x.op == 'int' and x is not I(0) and (e.args[1].op == 'param' or read_in(e.args[1]) is not None):
                return 'the first %s bytes of the input are looked at without checking that there are that many' % show(x)
    elif what.startswith('Result::'):
        if given(ok):
            return 'the program stops where %s fails' % show(e.args[1])[:200]
    elif what.startswith('Option::'):
        v = e.args[1]
        if v.op != 'phi' and read_in(v) is not None or numbers_in(ok):
            return 'no value is expected to be missing here, but %s may be' % show(v)[:200]
        if named(ok):
            return 'what the user asked for, %s, may not exist' % show(v)[:200]
    return None


def named(b):
    """the condition is that something the user named exists"""
    for a in BD.support(b.a[0]):
        for st in [x for x in a.a if isinstance(x, tuple)]:
            for sg in st:
                if isinstance(sg, tuple) and sg and sg[0] == 'if':
                    for y in BD.support(sg[1].a[0]):
                        if y.op == 'eq' and any(z.op == 'elem' and z.a[0].op == 'proj' and z.a[0].a[0] is OPTS for z in y.a):
                            return True
    return False


def ends_itself(w, b):
    return b.crate == 'twiggy' and b.path == 'main'


def stops(w, b, x, calls_=()):
    """where the program panics from block x on (None: it ends in an orderly way)"""
    st, vis = [x], set()
    while st:
        y = st.pop()
        if y in vis:
            continue
        vis.add(y)
        t = b.blocks[y]['t']
        if isinstance(t, dict) and t['to'] is None:
            f = errs.callee(t)
            own = f and w.bodies.get(f.get('res') or f['id']) or f and w.bodies.get(f['id'])
            if own:                   # a function of the program that does not return
                r = own.id not in calls_ and stops(w, own, 0, calls_ + (own.id,))
                if r:
                    return r
            elif f and not f['path'].startswith('std::process'):
                return t['sp']
        st += b.succ[y]
    return None


def source_line(sp):
    try:
        with open(os.path.join(facts.REPO, sp[0])) as f:
            return f.read().split('\n')[sp[1] - 1]
    except (OSError, IndexError):
        return ''


@prop('P25', 'places where the program would stop on bad input: fate of failures, and conditions of lookups and explicit panics in the value-flow summaries', floor=40)
def no_crash(c):
    w = c.world()
    n = 0
    for b in w.bodies.values():
        if b.kind == 'promoted' or b.__dict__.get('derived') or 'StructOpt' in b.path:
            continue
        c.fns.add(b.id)
        c.blocks += len(b.rpo)
        fl = None
        hits = []
        for i in b.rpo:
            t = b.blocks[i]['t']
            if not isinstance(t, dict) or t['to'] is None or t['dest'][1]:
                continue
            fn_ = errs.callee(t)
            if fn_ and errs.PANIC.search(errs.name_of(fn_)) and t['at'] and t['args'][0][0] in ('c', 'm') and not any(MEM.search(d) for d in errs.defs_of(b, t['args'][0][1][0])):
                e = errs.errty(t['at'][0])
                if e and errs.TRACKED.match(e) and e != 'std::fmt::Error':
                    fl = fl or errs.flow(b)
                    hits.append('%s:%s the program stops when this fails' % (t['sp'][0], t['sp'][1]))
                    continue
            if fn_ and (fn_['targs'] or [''])[0] in ('std::vec::Vec<u8>', 'std::string::String'):       # written to memory
                continue
            e = errs.errty(t['dty'])
            if not e or not errs.TRACKED.match(e) or e in ('std::fmt::Error',):
                continue
            n += 1
            fl = fl or errs.flow(b)
            if 'panics' in fl.fate(t['dest'][0]) and not ends_itself(w, b):
                fn_ = errs.callee(t)
                hits.append('%s:%s the program stops when %s fails' % (t['sp'][0], t['sp'][1], errs.name_of(fn_) if fn_ else '?'))
        if fl:
            c.true('fails.' + b.path, loc(w, b), not hits, '\n'.join(hits))
    sums = {}
    for pid in sorted(chk.PROPS):
        if pid in ('P25', 'P26', 'P27', 'P28', 'P22', 'P29', 'P30', 'P31'):
            continue
        h = Harvest(pid, c.worlds)
        h.tier = 'quick'
        c.attempt('summaries.' + pid, pid, lambda: chk.PROPS[pid]['fn'](h))
        c.fns |= h.fns
        for sm in h.sums:
            bad = sums.setdefault(sm.b.path, (sm.b, {}))[1]
            for e in sm.effects:
                if e.kind != 'mayfail':
                    continue
                n += 1
                v = crash(e)
                if v:
                    bad[(str(e.where), v)] = None
            for x in sm.errexits:
                bid, _, g, tgt = x
                b = w.bodies.get(bid)
                if b is None or g is FALSE or tgt in b.reach_ret:
                    continue
                n += 1
                sp = stops(w, b, tgt)
                if not sp:
                    continue
                if re.match(r'\s*(debug_)?assert', source_line(sp)):
                    if numbers_in(sm.e.why.get(x, FALSE)):
                        bad[(b.path, 'a number taken from the input is only checked by an assertion')] = None
                elif given(g):
                    bad[(b.path, '%s:%s the program stops when %s' % (sp[0], sp[1], show(g)[:200]))] = None
    c.calls += n
    c.attempt('counts', 'parse_wasm', lambda: function_counts(c))
    for p, (b, bad) in sorted(sums.items()):
        c.true('stops.' + p, loc(w, b), not bad, '\n'.join('%s: %s' % k for k in bad))


def function_counts(c):
    """a module whose function and code sections do not match, or that lacks one of them, is refused: bodies and declarations are paired by position"""
    from . import wasm
    from .run import failing
    W = wasm.Wasm(c.world())
    f = failing(c.seen(W.sm))
    n, m = mk('api', 'entries', W.func), mk('api', 'entries', W.code)
    at = loc(c.world(), W.b)
    c.true('counts.match', at, band(W.present, bnot(eq(n, m)), bnot(f)) is FALSE, 'a module with more functions than bodies, or more bodies than functions, is not refused')
    c.true('counts.there', at, band(bnot(W.present), bnot(f)) is FALSE, 'a module without a function or code section is not refused')


# ---------------------------------------------------------------- derived tables are there when they are consulted
TABLE = {'pred': 'the predecessors', 'idom': 'the immediate dominators', 'domtree': 'the dominator tree', 'ret': 'the retained sizes'}
ANALYSES = {'P13': 'garbage', 'P14': 'top', 'P15': 'dominators', 'P16': 'paths', 'P17': 'monos', 'P18': 'diff'}


def owner(e):
    return e.args[1]


@prop('P12', 'order of computing and consulting the derived tables, with the conditions of both, in the value-flow summaries of every analysis and its writers', floor=12)
def computed_first(c):
    w = c.world()
    for pid, name in ANALYSES.items():
        h = Harvest(pid, c.worlds)
        h.tier = 'quick'
        c.attempt('summaries.' + name, name, lambda: chk.PROPS[pid]['fn'](h))
        c.fns |= h.fns
        c.blocks += h.blocks
        start = entry(w, name)
        runs, k = [], 0
        for sm in h.sums:
            if sm.b.id == start.id:
                runs.append([sm])
            elif runs:
                runs[-1].append(sm)
        if not runs:
            c.undecided(name, name, 'not summarised')
        seen = {}
        for r in runs:
            made = [e for e in r[0].effects if e.kind == 'computed']
            for sm in r:
                bad, odd, n = [], [], 0
                for e in sm.effects:
                    if e.kind != 'uses':
                        continue
                    n += 1
                    kind = e.args[0].a[0]
                    g = guard_of(e.stages)
                    have = FALSE
                    for m in made:
                        if m.args[0].a[0] == kind and owner(m) is owner(e) and not is_for(m.stages) and (sm is not r[0] or m.seq < e.seq):
                            have = bor(have, guard_of(m.stages))
                    left = band(g, bnot(have))
                    if left is FALSE:
                        continue
                    what = '%s are consulted in %s ' % (TABLE[kind], e.where)
                    if have is FALSE:
                        bad.append(what + 'but never computed before')
                    elif all(mentions(a, OPTS) for a in BD.support(have.a[0])):
                        bad.append(what + 'but not computed when %s' % show(left)[:200])
                    elif any(not left1 is FALSE and all(mentions(a, OPTS) for a in BD.support(left1.a[0])) for left1 in with_sizes(left)):
                        bad.append(what + 'but not computed when %s' % show(left)[:200])
                    else:
                        odd.append(what + 'and may not have been computed when %s' % show(left)[:200])
                s = seen.setdefault(sm.b.path, [sm.b, {}, {}, 0])
                s[1].update(dict.fromkeys(bad))
                s[2].update(dict.fromkeys(odd))
                s[3] += n
        for p, (b, bad, odd, n) in sorted(seen.items()):
            c.calls += n
            if bad or not odd:
                c.true('%s.%s' % (name, p), loc(w, b), not bad, '\n'.join(bad))
            else:
                c.undecided('%s.%s' % (name, p), loc(w, b), '\n'.join(odd))


def with_sizes(left):
    """the condition for some sizes of the whole file (a file which holds anything is larger than its 8 bytes of header)"""
    sizes, ks = [], set()
    for a in BD.support(left.a[0]):
        tm.walk(a, lambda y: sizes.append(y) if y.op in ('proj', 'api', 'field') and show(y) == '$items.size' else None)
        tm.walk(a, lambda y: ks.add(abs(y.a[0])) if y.op == 'int' else None)
    for z in dict.fromkeys(sizes):
        for k in sorted(ks | {100, 1 << 20}):
            for n in (k, k + 1):
                if n > 64:
                    yield replace(left, z, I(n))


def mentions(t, x):
    hit = []
    tm.walk(t, lambda y: hit.append(y) if y is x else None)
    return bool(hit)
