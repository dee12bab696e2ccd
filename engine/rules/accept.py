"""well-formed input is accepted: every error the parser can report, and what has to be wrong with the input for it"""
from .common import *
from . import wasm, whole
import wasmp
import check as chk
from ev import cofactor
from terms import *


@prop('P30', 'the condition of every error exit of the parser is false for input that keeps the rules of its format')
def accepted(c):
    w = c.world()
    W = wasm.wasm(c)
    sums = [W.sm]
    for pid in ('P01', 'P03', 'P05', 'P07'):
        h = whole.Harvest(pid, c.worlds)
        h.tier = 'quick'
        c.attempt('summaries.' + pid, pid, lambda: chk.PROPS[pid]['fn'](h))
        c.fns |= h.fns
        c.blocks += h.blocks
        sums += [s for s in h.sums if s not in sums]
    R = ranges(W)
    seen = {}
    for sm in sums:
        for bid, ctx, g, tgt in sm.errexits:
            b = w.bodies.get(bid)
            if b is None or g is FALSE or b.crate != wasm.PARSER or tgt not in b.reach_ret:
                continue
            g = band(g, *[x[1] for x in ctx if x[0] == 'if'])
            t = b.blocks[tgt]['t']
            sp = t['sp'] if isinstance(t, dict) and 'sp' in t else b.span
            k = (b.path, sp[1])
            r = excused(W, g, R)
            if k not in seen or r is not FALSE:
                seen[k] = (b, sp, r)
    per = {}
    for (p, _), (b, sp, r) in sorted(seen.items()):
        n = per[p] = per.get(p, -1) + 1
        oid = 'error.%s.%d' % (p, n)
        at = '%s:%s %s' % (sp[0], sp[1], p)
        if r is FALSE:
            c.add(oid, at, 'ok')
        elif unknown(r):
            c.undecided(oid, at, 'not modelled: %s' % unknown(r)[:5])
        else:
            c.add(oid, at, 'violation', 'an error is reported for input that keeps the rules: %s' % show(r)[:1200], fp=p)
    c.true('errors', 'twiggy_parser', len(seen) > 30, 'only %d error exits found' % len(seen))
    c.notes.append('%d error exits of the parser' % len(seen))


def unknown(r):
    """what the condition depends on that is not modelled (where the debug sections come from does not matter to it)"""
    def pre(x):
        return mk('name', 'item') if x.op == 'elem' else x
    return sorted(set(unknowns(plain(Mapper(lambda x: None, None, pre).t(r)))), key=str)


def ranges(W):
    out = []
    for k, alts in wasm.spaces(W).items():
        for a in alts:
            n = spread(pinned(length(a), W.present))
            if (k, n) not in out:
                out.append((k, n))
    return out


def spread(t):
    """a sum of counts, with a count over a concatenation written as one count for each of its parts"""
    c, d = lparts(t)
    out = I(c)
    for x, k in d.items():
        y = x
        if x.op == 'agg' and x.a[0] == 'count':
            y = I(0)
            for st in parts_of(x.a[1]):
                y = add(y, plain(count(st)))
        out = add(out, mul(I(k), y))
    return out


def parts_of(st):
    for n, s in enumerate(st):
        if s[0] == 'for' and s[2].op == 'whole':
            return [q for a, e in as_segs(s[2].a[0]) for q in parts_of(st[:n] + a + st[n + 1:])]
    if all(s[0] in ('for', 'if') for s in st):
        st = tuple(s for s in st if s[0] == 'for') + tuple(s for s in st if s[0] == 'if')
    return [st]


def pinned(t, c):
    if t.op == 'phi':
        alts = [v for g, v in t.a[0] if band(g, c) is not FALSE]
        if len(alts) == 1:
            return alts[0]
    return t


def excused(W, g, ns):
    """what is left of g once the input is taken to keep the rules (it has functions, and so both of their sections)"""
    return rules(W, band(g, W.present), ns)


def rules(W, r, ns):
    for a in list(BD.support(r.a[0])):
        if a.op == 'ch' and a.a[2] in ('Addr', 'Udata') and attribute(a.a[0]) == 18:       # DW_AT_high_pc: an address or an offset
            r = band(r, bor(*[atom(mk('ch', a.a[0], a.a[1], v)) for v in ('Addr', 'Udata')]))
        if a.op == 'ch' and a.a[0].op == 'api' and a.a[0].a[0] == 'ensure_end':
            b, n = a.a[0].a[1:]
            ok = atom(a) if a.a[2] == 'Ok' else bnot(atom(a))
            r = band(r, bor(ok, bnot(eq(n, wasmp.num_entries(b)))))
        if a.op == 'le0':
            for k, want, x in in_range(a, ns):
                r = band(r, bor(bnot(kind(x, k)), atom(a) if want else bnot(atom(a))))
    while r is not FALSE:
        for a in list(BD.support(r.a[0])):
            v = must(W, a, ns)
            if v is not None:
                r = cofactor(r, atom(a), v)
                break
        else:
            return r
    return r


def must(W, a, ns):
    """the truth of the question `a` for well-formed input; None: either"""
    if a.op == 'ch':
        x, ty, v = a.a
        if v in ('Ok', 'Err') and 'Result' in str(ty) and not (x.op == 'api' and x.a[0] == 'ensure_end'):
            return v == 'Ok'
        if v == 'NeedMoreData':
            return False
        if v in ('None', 'Some'):
            if x.op == 'getrange' and x.a[0] is wasm.D or x.op == 'get' and filled(W, x):
                return v == 'Some'
    if a.op == 'ch' and attribute(a.a[0]) in FORM:
        return a.a[2] == FORM[attribute(a.a[0])]
    if a.op == 'agg' and a.a[0] == 'exists' and a not in BD.support(W.present.a[0]):
        g = TRUE
        for st in a.a[1]:
            if st[0] == 'if':
                g = band(g, st[1])
        if excused(W, g, ns) is FALSE:
            return False
    if a.op == 'api' and a.a[0] == 'rooted':
        return True
    if a.op == 'le0' and len(lparts(a.a[0])[1]) == 2 and lparts(a.a[0])[0] in (0, 1):
        k, d = lparts(a.a[0])
        low, high = [next((x for x, n in d.items() if n == s), None) for s in ((1, -1) if k == 0 else (-1, 1))]
        if low is not None and high is not None and address(low) == 17 and address(high) == 18:
            return k == 0
    if a.op == 'eq0' and same_count(W, a.a[0]):
        return True
    return None


FORM = {17: 'Addr', 85: 'RangeListsRef'}         # DW_AT_low_pc, DW_AT_ranges


def attribute(x):
    """the number of the attribute that `x` is the value of"""
    while x.op in ('proj', 'payload') and isinstance(x.a[0], T):
        x = x.a[0]
    if x.op == 'api' and x.a[0] == 'attr' and x.a[-1].op == 'int':
        return x.a[-1].a[0]


def address(x):
    return attribute(x) if show(x).endswith('.Addr:0') else None


def in_range(a, ns):
    """(space, truth, index): `a` asks whether an index is one of the space"""
    E = spread(a.a[0])
    for k, n in ns:
        x = single(sub(n, E), 0)
        if x is not None:
            yield k, False, x
        x = single(add(E, n), 1)
        if x is not None:
            yield k, True, x


def single(t, c):
    k, d = lparts(t)
    if k == c and len(d) == 1 and list(d.values()) == [1]:
        return next(iter(d))


def kind(x, k):
    """when `x` is an index of the space `k`"""
    if x.op != 'proj':
        return FALSE
    n = show(x).split('.')[-1].split(':')
    if n[-1] in FIELD:
        return TRUE if FIELD[n[-1]] == k else FALSE
    if n[-1] == 'index':
        return is_variant(proj(x.a[0], 'kind'), 'wasmparser::ExternalKind', k)
    if n in (['StartSection', 'func'], ['Func', '0']):
        return TRUE if k == 'Function' else FALSE
    return FALSE


FIELD = {'function_index': 'Function', 'global_index': 'Global', 'table_index': 'Table', 'memory_index': 'Memory'}


def same_count(W, t):
    d = sub(length(mk_seq([(wasm.ents(W.func)[0], I(0))])), length(mk_seq([(wasm.ents(W.code)[0], I(0))])))
    return t is d or t is sub(I(0), d)


def filled(W, x):
    """a map read at a key it was filled for"""
    m, k = x.a[0], x.a[1]
    if m.op != 'mapof':
        return False
    if plain(m) is plain(wasm.types_map(W)):
        return True
    segs = m.a[1].a[0] if m.a[1].op == 'seq' else ()
    if len(segs) == 1:
        st, e = segs[0]
        return len(st) == 1 and st[0][0] == 'for' and proj(e, '0') is st[0][1] and k.op == 'elem' and k.a[0] is st[0][2]
    return False
