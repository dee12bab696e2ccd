"""every run comes to an end: each loop makes progress on every turn, each recursion goes to something smaller"""
import re
from .common import *
from . import wasm
import ev
from terms import *

STEP = {'next', 'next_back', 'next_dfs', 'next_entry', 'next_sibling', 'nth', 'pop', 'pop_front', 'pop_back', 'pop_first', 'pop_last', 'read'}
ENDLESS = re.compile(r'std::ops::RangeFrom<|std::iter::(Repeat|RepeatWith|Cycle|Successors|FromFn)<')
BOUNDED = re.compile(r'std::iter::(Take|Zip|TakeWhile|MapWhile)<')
SHARED = re.compile(r'\b(Cell|RefCell|Mutex|RwLock|OnceCell|Atomic\w+)\b')
SINK = re.compile(r"(std::fmt::Formatter|dyn std::io::Write|csv::Writer|json::Object|json::Array|ItemsBuilder\b)")
MUT = re.compile(r"^&('\w+ )?mut ")
ALL = {'count', 'last', 'fold', 'for_each', 'collect', 'sum', 'product', 'max', 'min', 'max_by_key', 'min_by_key', 'max_by', 'min_by', 'extend'}


@prop('P31', 'every cycle of every loop passes a step that uses up input or changes what the loop tests; every recursive call is on a part of its own argument, on a child in the dominator tree, or on an item not yet on the path')
def ends(c):
    loops = calls = recs = 0
    for wn in ('cli', 'wasm'):
        w = c.world(wn)
        per = {}
        for b in w.bodies.values():
            if wn == 'wasm' and not b.crate.startswith('twiggy_wasm_api'):
                continue
            c.fns.add(b.path)
            c.blocks += len(b.blocks)
            A = Loops(w, b)
            for h in sorted(b.loops, key=lambda x: b.rpos[x]):
                loops += 1
                n = per[b.path] = per.get(b.path, -1) + 1
                A.check(c, h, 'loop.%s.%d' % (b.path, n))
            for i in b.rpo:
                t = b.blocks[i]['t']
                if isinstance(t, dict):
                    calls += endless(c, b, t)
        recs += recursion(c, w, wn)
    c.true('loops', 'twiggy', loops > 20, 'only %d loops found' % loops)
    c.notes.append('%d loops, %d recursive calls, %d calls that consume a whole iterator' % (loops, recs, calls))


def called(t):
    """-> (path, own id or None)"""
    f = t['f']
    if f[0] != 'k' or 'fn' not in f[1]:
        return '', None
    i = f[1]['fn']
    return i['path'], (i.get('res') or i)['id']


def endless(c, b, t):
    p, _ = called(t)
    if p.split('::')[-1] not in ALL or 'Iterator' not in p and 'Extend' not in p or not t['at']:
        return 0
    ty = t['at'][-1] if p.endswith('extend') else t['at'][0]
    if ENDLESS.search(ty) and not BOUNDED.search(ty):
        at = '%s:%s %s' % (t['sp'][0], t['sp'][1], b.path)
        if re.match(r"^(&('\w+ )?mut )?(std::iter::(Enumerate|Cloned|Copied|Rev|Peekable)<)*(std::ops::RangeFrom|std::iter::(Repeat|Cycle))<", ty):
            c.add('endless.' + b.path, at, 'violation', '%s of an iterator that has no end (%s)' % (p.split('::')[-1], ty[:200]), fp=b.path)
        else:
            c.undecided('endless.' + b.path, at, 'an iterator that may have no end: ' + ty[:200])
    return 1


def operand_places(x):
    """places an operand, an rvalue or a terminator part reads"""
    if not isinstance(x, (list, tuple)) or not x:
        return
    if x[0] in ('c', 'm') and len(x) == 2 and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
        yield x[1]
        return
    if x[0] == 'k':
        return
    if x[0] in ('ref', 'addr', 'raw') and isinstance(x[-1], list):
        yield x[-1]
        return
    if x[0] in ('discr', 'len') and isinstance(x[1], list):
        yield x[1]
        return
    for y in x[1:]:
        if isinstance(y, list):
            if y and isinstance(y[0], list):
                for z in y:
                    yield from operand_places(z)
            else:
                yield from operand_places(y)


def locals_in(pl):
    yield pl[0]
    for p in pl[1]:
        if isinstance(p, list) and p and p[0] in ('i', 'idx', 'index') and isinstance(p[1], int):
            yield p[1]


# from one entry of the input to another one it names
FOLLOWS = re.compile(r'^gimli::.*Unit.*::(entry|entries_at_offset|header_entry)$|Items::(neighbors|predecessors)$')


TAKE = re.compile(r'::(pop|pop_front|pop_back|pop_first|pop_last)$')
GROW = re.compile(r'::(push|push_back|push_front|extend|extend_from_slice|append|insert)$')
SETTY = re.compile(r'(BTreeSet|HashSet|FixedBitSet)<?')


class Loops:
    def __init__(s, w, b):
        s.w = w
        s.b = b
        s.inner = {}
        for h, L in sorted(b.loops.items(), key=lambda x: -len(x[1])):
            for x in L:
                s.inner[x] = h

    # ---- facts about one block
    def term_reads(s, t):
        if isinstance(t, dict):
            for a in t['args']:
                yield from operand_places(a)
            if t['f'][0] != 'k':
                yield from operand_places(t['f'])
        elif t[0] in ('switch', 'assert'):
            yield from operand_places(t[1])

    def uses_defs(s, i):
        """in order: ('use', local) / ('def', local)"""
        for st in s.b.blocks[i]['s']:
            if st[0] == '=':
                for pl in operand_places(st[2]):
                    for l in locals_in(pl):
                        yield 'use', l
                yield ('def' if not st[1][1] else 'use'), st[1][0]
        t = s.b.blocks[i]['t']
        for pl in s.term_reads(t):
            for l in locals_in(pl):
                yield 'use', l
        if isinstance(t, dict) and t['dest']:
            yield ('def' if not t['dest'][1] else 'use'), t['dest'][0]

    def livein(s, L, h):
        gen, kill = {}, {}
        for i in L:
            g, k = set(), set()
            for op, l in s.uses_defs(i):
                if op == 'use':
                    if l not in k:
                        g.add(l)
                else:
                    k.add(l)
            gen[i], kill[i] = g, k
        live = {i: set(gen[i]) for i in L}
        ch = True
        while ch:
            ch = False
            for i in L:
                n = set(gen[i])
                for x in s.b.succ[i]:
                    if x in L:
                        n |= live[x] - kill[i]
                if n != live[i]:
                    live[i] = n
                    ch = True
        return live[h]

    def root(s, l, L, seen=()):
        """locals a pointer made inside the loop leads to; None if it was made outside (then: itself)"""
        if l in seen:
            return {l}
        out = set()
        for i in L:
            for st in s.b.blocks[i]['s']:
                if st[0] == '=' and st[1] == [l, []]:
                    ps = list(operand_places(st[2]))
                    for pl in ps:
                        out |= s.root(pl[0], L, seen + (l,))
            t = s.b.blocks[i]['t']
            if isinstance(t, dict) and t['dest'] == [l, []]:
                for pl in s.term_reads(t):
                    out |= s.root(pl[0], L, seen + (l,))
        return out or {l}

    def whole_defs(s, L):
        out = set()
        for i in L:
            for st in s.b.blocks[i]['s']:
                if st[0] == '=' and not st[1][1]:
                    out.add(st[1][0])
            t = s.b.blocks[i]['t']
            if isinstance(t, dict) and t['dest'] and not t['dest'][1]:
                out.add(t['dest'][0])
        return out

    def altered(s, i, L):
        """locals whose value (or what they lead to) the block may change"""
        out = set()
        for st in s.b.blocks[i]['s']:
            if st[0] == '=':
                out |= {st[1][0]} if not st[1][1] else s.root(st[1][0], L) | {st[1][0]}
        t = s.b.blocks[i]['t']
        if isinstance(t, dict):
            if t['dest']:
                out.add(t['dest'][0])
            for a, ty in zip(t['args'], t['at']):
                if 'mut ' in ty:
                    for pl in operand_places(a):
                        out |= s.root(pl[0], L)
                elif ty.startswith('{closure@') or not ty.startswith('&'):
                    for pl in operand_places(a):
                        if 'mut ' in s.b.locals[pl[0]] or ty.startswith('{closure@') or '{closure@' in ty:
                            out |= s.root(pl[0], L)
        return out

    # ---- progress
    def step(s, i, L):
        """the block uses up one element of something that is not made anew inside the loop"""
        t = s.b.blocks[i]['t']
        if isinstance(t, dict) and t['args'] and MUT.match(t['at'][0]):
            p, fid = called(t)
            own = s.w.bodies.get(fid)
            if p.split('::')[-1] in STEP or own is not None:
                if ENDLESS.search(t['at'][0]) and not BOUNDED.search(t['at'][0]):
                    return False
                if own is not None and not advances(s.w, own):
                    return False
                fresh = s.whole_defs(L)
                r = set()
                for pl in operand_places(t['args'][0]):
                    r |= s.root(pl[0], L)
                return bool(r) and not (r & fresh)
        return s.counts(i, L)

    def counts(s, i, L):
        """p = p + q where p is tested by the loop, or q is not a constant"""
        bl = s.b.blocks
        for st in bl[i]['s']:
            if st[0] != '=' or st[2][0] != 'use' or st[2][1][0] not in ('m', 'c'):
                if st[0] == '=' and st[2][0] == 'bin' and st[2][1] in ('Add', 'Sub') and s.bump(st[1], st[2], L):
                    return True
                continue
            src = st[2][1][1]
            if len(src[1]) == 1 and src[1][0][0] == 'f' and str(src[1][0][1]) == '0':
                for j in L:
                    for d in bl[j]['s']:
                        if d[0] == '=' and d[1] == [src[0], []] and d[2][0] == 'bin' and d[2][1] in ('AddWithOverflow', 'SubWithOverflow'):
                            if s.bump(st[1], d[2], L):
                                return True
        return False

    def bump(s, p, r, L):
        a, q = r[2], r[3]
        if not (a[0] in ('c', 'm') and a[1] == p):
            if r[1].startswith('Sub') or not (q[0] in ('c', 'm') and q[1] == p):
                return False
            a, q = q, a
        if q[0] != 'k':
            return True
        return str(q[1].get('int')) not in ('0', 'None') and s.tested(p, L)

    def tested(s, p, L):
        bl = s.b.blocks
        copies = {str(p)}
        for i in L:
            for st in bl[i]['s']:
                if st[0] == '=' and st[2][0] in ('use', 'cast') and any(str(x) in copies for x in operand_places(st[2])):
                    copies.add(str(st[1]))
        for i in L:
            for st in bl[i]['s']:
                if st[0] == '=' and st[2][0] == 'bin' and st[2][1] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                    if any(str(x) in copies for x in operand_places(st[2])):
                        return True
        return False

    def grows(s, h, L, cut):
        """the loop takes from a collection that it also adds to: (block of the addition, the set that guards it or None, how)"""
        b = s.b
        for i in sorted(cut):
            t = b.blocks[i]['t']
            if not isinstance(t, dict) or not TAKE.search(called(t)[0]):
                continue
            R = set()
            for pl in operand_places(t['args'][0]):
                R |= s.root(pl[0], L)
            for j in sorted(L):
                x = b.blocks[j]['t']
                if isinstance(x, dict) and x['args'] and x['at'] and MUT.match(x['at'][0]) and GROW.search(called(x)[0]):
                    r = set()
                    for pl in operand_places(x['args'][0]):
                        r |= s.root(pl[0], L)
                    if r & R:
                        yield j

    def once(s, g, L):
        """block g is only reached when something was not in a set of visited items and has been put there: 'ok', 'no' or None"""
        b = s.b
        fresh = s.whole_defs(L)
        puts, tests = set(), {}
        for j in L:
            t = b.blocks[j]['t']
            if not isinstance(t, dict) or not t['args'] or not t['at'] or not SETTY.search(t['at'][0]):
                continue
            r = set()
            for pl in operand_places(t['args'][0]):
                r |= s.root(pl[0], L)
            n = called(t)[0].split('::')[-1]
            if r & fresh or not r:
                continue
            if n == 'insert':
                puts.add(j)
                tests[str(t['dest'])] = (j, True, 1)
            elif n == 'contains':
                tests[str(t['dest'])] = (j, False, 0)
        read = {l for i in L for op, l in s.uses_defs(i) if op == 'use'}
        if not any(eval(q)[0] in read for q in tests):
            # a closure may keep the record
            return None if any(SETTY.search(ty) for j in L if isinstance(b.blocks[j]['t'], dict) and not re.search(r'::(insert|contains)$', called(b.blocks[j]['t'])[0]) for ty in b.blocks[j]['t']['at']) or any(
                st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] == 'closure' and any(SETTY.search(b.locals[pl[0]]) for pl in operand_places(st[2]))
                for j in L for st in b.blocks[j]['s']) else 'no'
        for j in L:
            t = b.blocks[j]['t']
            if isinstance(t, dict) or t[0] != 'switch':
                continue
            neg, ps = False, [str(pl) for pl in operand_places(t[1])]
            for st in b.blocks[j]['s']:
                if st[0] == '=' and str(st[1]) in ps and st[2][0] == 'un' and st[2][1] == 'Not':
                    neg, ps = True, [str(pl) for pl in operand_places(st[2])]
            for q in ps:
                if q in tests:
                    src, put, want = tests[q]
                    want = want ^ neg
                    tg = dict((int(v), y) for v, y in t[3])
                    to = tg.get(want, t[4])
                    if to is None or not b.dominates(to, g) or len(b.pred[to]) != 1:
                        continue
                    if put or any(b.dominates(to, k) and (b.dominates(k, g) or b.dominates(g, k)) for k in puts):
                        return 'ok'
        return None

    def none_edge(s, i, L):
        """where control goes when the step at block i found nothing left"""
        t = s.b.blocks[i]['t']
        if not isinstance(t, dict) or not s.b.locals[t['dest'][0]].startswith('std::option::Option<') or t['dest'][1]:
            return None
        for j in L:
            x = s.b.blocks[j]['t']
            if not isinstance(x, dict) and x[0] == 'switch':
                for st in s.b.blocks[j]['s']:
                    if st[0] == '=' and st[2][0] == 'discr' and st[2][1] == t['dest'] and x[1][1] == st[1]:
                        for v, to in x[3]:
                            if str(v) == '0':
                                return to
        return None

    def cycle(s, L, h, cut, frm=None):
        """blocks on some cycle through h inside L that passes no block of `cut`"""
        if h in cut:
            return set()
        fwd = {frm if frm is not None else h}
        if fwd & cut:
            return set()
        w = list(fwd)
        while w:
            x = w.pop()
            for y in s.b.succ[x]:
                if y in L and y not in cut and y not in fwd:
                    fwd.add(y)
                    w.append(y)
        back = {x for x in fwd if h in s.b.succ[x]}
        w = list(back)
        while w:
            x = w.pop()
            for y in s.b.pred[x]:
                if y in fwd and y not in back and x != h:
                    back.add(y)
                    w.append(y)
        return back if (frm if frm is not None else h) in back else set()

    def check(s, c, h, oid):
        b = s.b
        L = b.loops[h]
        at = where_(b, h)
        cut = {i for i in L if s.inner.get(i) == h and s.step(i, L)}
        cyc = s.cycle(L, h, cut)
        src = None
        if not cyc:
            for i in sorted(cut):
                n = s.none_edge(i, L)
                if n is not None and n in L:
                    cyc = s.cycle(L, h, cut - {h}, n) if h not in cut or True else set()
                    if cyc:
                        src = n
                        break
        if not cyc:
            for g in s.grows(h, L, cut):
                v = s.once(g, L)
                if v == 'ok':
                    continue
                if v == 'no' and any(isinstance(b.blocks[i]['t'], dict) and FOLLOWS.search(called(b.blocks[i]['t'])[0]) for i in L):
                    c.add(oid, at, 'violation', 'the walk over the graph keeps no record of the items it has visited, so a cycle of references never ends', fp=b.path)
                else:
                    c.undecided(oid, at, 'the loop adds to what it takes from')
                return
            c.add(oid, at, 'ok')
            return
        # what decides the way around
        D = set()
        for i in cyc:
            t = b.blocks[i]['t']
            if not isinstance(t, dict) and t[0] in ('switch', 'assert'):
                for pl in s.term_reads(t):
                    D.update(locals_in(pl))
        ch = True
        while ch:
            ch = False
            for i in L:
                for st in b.blocks[i]['s']:
                    if st[0] == '=' and st[1][0] in D:
                        for pl in operand_places(st[2]):
                            for l in locals_in(pl):
                                if l not in D:
                                    D.add(l)
                                    ch = True
                t = b.blocks[i]['t']
                if isinstance(t, dict) and (t['dest'] and t['dest'][0] in D or any('mut ' in ty and D & {l for pl in operand_places(a) for l in s.root(pl[0], L)} for a, ty in zip(t['args'], t['at']))):
                    for pl in s.term_reads(t):
                        for l in locals_in(pl):
                            if l not in D:
                                D.add(l)
                                ch = True
        carried = {l for l in s.livein(L, h) & D if not SINK.search(b.locals[l])}
        if any(SHARED.search(b.locals[l]) for l in D):
            c.undecided(oid, at, 'shared mutable state decides when the loop ends')
            return
        touch = {i for i in cyc if s.altered(i, L) & carried}
        still = s.cycle(L, h, cut | touch) if src is None else (set() if touch else cyc)
        if still:
            c.add(oid, at, 'violation', 'the loop can go around without using up any input and without changing anything that decides when it ends', fp=b.path)
            return
        for i in sorted(cyc):
            t = b.blocks[i]['t']
            if isinstance(t, dict) and parses(s.w, called(t)):
                c.add(oid, at, 'violation', 'the loop can go around without moving on past the part that has been parsed', fp=b.path)
                return
        if carried and not any(re.search(r'(Set|Map|Vec|VecDeque|Heap)<|^[iu](8|16|32|64|size)$', b.locals[l]) for l in carried):
            for i in sorted(cyc):
                if isinstance(b.blocks[i]['t'], dict) and FOLLOWS.search(called(b.blocks[i]['t'])[0]):
                    c.add(oid, at, 'violation', 'the loop follows references found in the input, which may lead back to where it was', fp=b.path)
                    return
        c.undecided(oid, at, 'no step found that brings the end of the loop closer')


def parses(w, pf):
    """the library's parser, or a method of our own that calls it"""
    if pf[0].endswith('wasmparser::Parser::parse'):
        return True
    o = w.bodies.get(pf[1])
    return o is not None and MUT.match(o.locals[1] if o.nargs else '') is not None and any(
        isinstance(o.blocks[i]['t'], dict) and called(o.blocks[i]['t'])[0].endswith('wasmparser::Parser::parse') for i in o.rpo)


def where_(b, h):
    for i in [h] + sorted(b.loops[h]):
        t = b.blocks[i]['t']
        if isinstance(t, dict) and 'sp' in t:
            return '%s:%s %s' % (t['sp'][0], t['sp'][1], b.path)
    return '%s %s' % (b.path, h)


def advances(w, b, stack=()):
    """every way to return normally from the method passes a step on something it was given"""
    if b.id in stack or not b.nargs or not MUT.match(b.locals[1]):
        return False
    A = Loops(w, b)
    allb = set(b.rpo)
    cut = set()
    for i in b.rpo:
        t = b.blocks[i]['t']
        if isinstance(t, dict) and t['args'] and t['at'] and MUT.match(t['at'][0]):
            p, fid = called(t)
            own = w.bodies.get(fid)
            if own is not None and advances(w, own, stack + (b.id,)) or own is None and p.split('::')[-1] in STEP:
                r = set()
                for pl in operand_places(t['args'][0]):
                    r |= A.root(pl[0], allb)
                if r == {1}:
                    cut.add(i)
        if A.counts(i, allb):
            cut.add(i)
    seen = {0}
    st = [0]
    while st:
        x = st.pop()
        if x in cut:
            continue
        if x in b.kill:
            continue
        if b.blocks[x]['t'] == ['return']:
            return False
        for y in b.succ[x]:
            if y not in seen:
                seen.add(y)
                st.append(y)
    return bool(cut)


# ---------------------------------------------------------------- recursion
def graph(w):
    g = {}
    for b in w.bodies.values():
        s = g.setdefault(b.id, set())
        for i in b.rpo:
            t = b.blocks[i]['t']
            if isinstance(t, dict):
                _, fid = called(t)
                if fid in w.bodies:
                    s.add(fid)
            for st in b.blocks[i]['s']:
                if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] == 'closure' and st[2][1][1] in w.bodies:
                    s.add(st[2][1][1])
            for a in (t['args'] if isinstance(t, dict) else []):
                if a[0] == 'k' and 'fn' in a[1]:
                    fid = (a[1]['fn'].get('res') or a[1]['fn'])['id']
                    if fid in w.bodies:
                        s.add(fid)
    return g


def sccs(g):
    """groups of functions that can call themselves or each other"""
    def reach(a):
        seen, st = set(), list(g[a])
        while st:
            x = st.pop()
            if x not in seen:
                seen.add(x)
                st.extend(g.get(x, ()))
        return seen
    R = {a: reach(a) for a in g}
    out, used = [], set()
    for a in g:
        if a in R[a] and a not in used:
            k = {x for x in R[a] if a in R[x]}
            used |= k
            out.append(k)
    return out


def recursion(c, w, wn):
    n = 0
    for k in sccs(graph(w)):
        fs = [w.bodies[x] for x in k if w.bodies[x].kind != 'closure']
        if wn == 'wasm' and not any(b.crate.startswith('twiggy_wasm_api') for b in fs):
            continue
        for b in fs:
            oid = 'recursion.' + b.path
            at = loc(w, b)
            if len(fs) != 1:
                c.undecided(oid, at, 'functions that call each other: %s' % [x.path for x in fs])
                continue
            n += c.attempt(oid, at, lambda: smaller(c, w, b, oid, at)) or 0
    return n


def smaller(c, w, b, oid, at):
    syms = [recur.symbol(b.locals[i + 1], i) for i in range(b.nargs)]
    for i in range(b.nargs):
        t = ev.strip_ty(b.locals[i + 1])
        if t == 'twiggy_ir::Items' or t == 'Items' and b.crate == 'twiggy_ir':
            syms[i] = ITEMS
    log = []
    muts = [i for i in range(b.nargs) if MUT.match(b.locals[i + 1]) and not recur.is_handle(syms[i])]
    over = dict(overrides(w))
    over.pop(b.id, None)
    over[b.id] = recur.rec_override(b.id, log)
    sm = evaluate(w, b, syms, over, cells=muts)
    c.seen(sm)
    effs = [e for e in sm.effects if e.kind == 'rec']
    if not effs:
        c.undecided(oid, at, 'no recursive call found in the summary')
        return 0
    for n, e in enumerate(effs):
        r, why = 'ok', ''
        for A, g in alternatives(list(e.args[1:]), guard_of(e)):
            q = classify(w, b, syms, A, g)
            if q[0] != 'ok' and r != 'bad':
                r, why = q
        o = '%s.%d' % (oid, n)
        if r == 'ok':
            c.add(o, at, 'ok')
        elif r is None:
            c.undecided(o, at, why)
        else:
            c.add(o, at, 'violation', why, fp=b.path)
    return len(effs)


GRAPH = {'neighbors', 'predecessors', 'preds', 'succs', 'callees', 'callers'}


def guard_of(e):
    g = TRUE
    for st in e.stages:
        if st[0] == 'if':
            g = band(g, st[1])
    w = getattr(e, 'where', None)
    return g


def alternatives(A, g):
    for i, a in enumerate(A):
        if a.op == 'phi':
            for h, x in a.a[0]:
                if band(g, h) is not FALSE:
                    yield from alternatives(A[:i] + [x] + A[i + 1:], band(g, h))
            return
    yield A, g


def classify(w, b, P, A, g):
    def memo(i, a):
        return a.op in ('mu', 'after') and re.search(r'Map<', b.locals[i + 1]) is not None
    if all(a is p or recur.is_handle(a) or memo(i, a) for i, (a, p) in enumerate(zip(A, P))):
        return 'bad', 'the function calls itself with its own arguments'
    for i, (a, p) in enumerate(zip(A, P)):
        d = add(a, neg(p)) if p.op == 'param' and a is not p and b.locals[i + 1] in ev.WIDTH else None
        if d is not None and d.op == 'int' and (d.a[0] > 0 or d.a[0] < 0) and p in contains_op(g, ('param',)):
            return 'ok', ''
    for a, p in zip(A, P):
        if below(a, p):
            return 'ok', ''
    ids = [(i, a) for i, a in enumerate(A) if a is not P[i] and a.op in ('elem', 'itemof', 'proj') or a is not P[i] and re.search(r'\bId\b|Item\b', b.locals[i + 1])]
    sets = [(i, a) for i, a in enumerate(A) if recur.is_set(b.locals[i + 1])]
    src = [x for _, a in ids for x in walked(a, w, b, P)]
    gr = 'graph' in src
    if src and set(src) == {'tree'}:
        return 'ok', ''
    if gr:
        for i, a in ids:
            p = P[i]
            for j, s_ in sets:
                if (s_ is mk('setput', P[j], p) or s_.op == 'setput' and s_.a[0] is P[j] and s_.a[1] is p) and band(g, set_has(P[j], p)) is FALSE:
                    return 'ok', ''         # only an item that was not in the set goes on, and it is now
                if s_ is mk('setput', P[j], p) or s_.op == 'setput' and s_.a[0] is P[j] and s_.a[1] is p:
                    if band(g, set_has(s_, a)) is FALSE:
                        return 'ok', ''
                    return 'bad', 'an item already on the path can be visited again: nothing keeps %s out of %s' % (sh(a), sh(s_))
        if not sets:
            return 'bad', 'the walk over the graph keeps no record of the items it has visited, so a cycle of references never ends'
        if all(P[j] not in contains_op(s_, ('param',)) for j, s_ in sets):
            return 'bad', 'the walk over the graph forgets the items already on its path, so a cycle of references never ends'
        if all(s_ is P[j] for j, s_ in sets):
            return 'bad', 'the walk over the graph does not add the item to the set of visited items, so a cycle of references never ends'
    if not sets and any(re.search(r'^Unit::entry$', str(x.a[0])) for a in A for x in contains_op(a, ('ext',))):
        return 'bad', 'the function follows references found in the input, which may lead back to where it was'
    return None, 'nothing shows that %s is smaller than %s' % ([sh(a)[:80] for a in A], [sh(p) for p in P])


def below(a, p):
    """a is a proper part of the owned structure p"""
    n = 0
    while True:
        if a is p:
            return n > 0
        if a.op == 'proj' or a.op == 'elem':
            n += a.op == 'elem' or a.op == 'proj'
            a = a.a[0]
            continue
        if a.op == 'seq' and len(a.a[0]) == 1 and a.a[0][0][1].op == 'elem' and len(a.a[0][0][0]) >= 1 and a.a[0][0][0][0][0] == 'for':
            a = a.a[0][0][0][0][2]
            continue
        return False


def walked(t, w, b, P):
    """what the item to go to is read from: edges of the graph, or the dominator tree"""
    out = set()
    for x in contains_op(t, ('api',)):
        n = x.a[0] if isinstance(x.a[0], str) else x.a[0].a[0]
        if n in GRAPH:
            out.add('graph')
    if 'DOMTREE' in show(t):
        out.add('tree')
    for x in contains_op(t, ('at', 'get')):
        m = x.a[0]
        if m in P:
            out |= given(w, b, P.index(m))
    return out


def given(w, b, k):
    """what the callers pass as argument k: names of the fields and methods it comes from"""
    out = set()
    for o in w.bodies.values():
        if o.id == b.id:
            continue
        A = None
        for i in o.rpo:
            t = o.blocks[i]['t']
            if isinstance(t, dict) and called(t)[1] == b.id:
                out |= slice_names(w, o, t['args'][k])
    return out


def slice_names(w, o, x, deep=True):
    names = set()
    todo = [p[0] for p in operand_places(x)]
    for p in operand_places(x):
        names |= {str(q[1]) for q in p[1] if isinstance(q, list) and q[0] == 'f'}
    seen = set()
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        for i in o.rpo:
            for st in o.blocks[i]['s']:
                if st[0] == '=' and st[1][0] == l:
                    for p in operand_places(st[2]):
                        todo.append(p[0])
                        names |= {str(q[1]) for q in p[1] if isinstance(q, list) and q[0] == 'f'}
            t = o.blocks[i]['t']
            if isinstance(t, dict) and t['dest'] and t['dest'][0] == l:
                names.add(called(t)[0].split('::')[-1])
                for a in t['args'][:1]:
                    for p in operand_places(a):
                        todo.append(p[0])
                        names |= {str(q[1]) for q in p[1] if isinstance(q, list) and q[0] == 'f'}
    out = set()
    if 'dominator_tree' in names:
        out.add('tree')
    if names & {'predecessors', 'edges', 'neighbors'}:
        out.add('graph')
    if not out and deep:
        for q in w.bodies.values():
            if q.crate == o.crate:
                for i in q.rpo:
                    for st in q.blocks[i]['s']:
                        if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] == 'adt':
                            for f, v in zip(st[2][1][3], st[2][2]):
                                if f in names:
                                    out |= slice_names(w, q, v, False)
    return out or {'other'}
