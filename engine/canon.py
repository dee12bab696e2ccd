"""Canonical forms used when two terms are compared: integer thresholds and conditional segments."""
from terms import *
import terms as tm


# ---------------------------------------------------------------- conditions over integer thresholds
def form(a):
    """atom -> (key, kind, point): kind 'le' means key <= point, 'eq' means key == point, 'ch' chain link"""
    if a.op in ('le0', 'eq0'):
        c, d = lparts(a.a[0])
        if not d:
            return None
        # divide out nothing; sign is already normalised (lead coefficient positive)
        L = lin(0, d)
        return (L, 'le' if a.op == 'le0' else 'eq', -c)
    if a.op == 'ch' and a.a[1] == ('n',):
        return (a.a[0], 'ch', a.a[2])
    return None


_cb = {}


def canon_bool(b):
    r = _cb.get(b)
    if r is not None:
        return r
    cur = b
    for _ in range(6):
        nxt = _pass(cur)
        if nxt is cur:
            break
        cur = nxt
    _cb[b] = cur
    return cur


def _subst_atoms(n, m, memo):
    if n < 2:
        return n
    r = memo.get(n)
    if r is None:
        v = BD.var[n]
        if v in m:
            r = _subst_atoms(BD.hi[n] if m[v] else BD.lo[n], m, memo)
        else:
            r = BD.ite(BD.node(v, 0, 1), _subst_atoms(BD.hi[n], m, memo), _subst_atoms(BD.lo[n], m, memo))
        memo[n] = r
    return r


def _pass(b):
    n = b.a[0]
    if n < 2:
        return b
    groups = {}
    for a in BD.support(n):
        f = form(a)
        if f is not None:
            groups.setdefault(f[0], []).append((f[1], f[2], BD.aidx[a]))
    for L in sorted(groups, key=lambda x: x.i):
        g = groups[L]
        if len(g) == 1 and g[0][0] == 'le':
            continue
        # breakpoints: the function of L is constant on each of the regions (…,p0],(p0,p1],…
        pts = set()
        for k, p, v in g:
            pts.add(p)
            if k != 'le':
                pts.add(p - 1)
        lo = 0 if nonneg(L) else None
        if lo is not None:
            pts = {p for p in pts if p >= lo}
        pts = sorted(pts)
        regs = [(p, p) for p in pts] + [(None, (pts[-1] + 1) if pts else (lo if lo is not None else 0))]
        vals = []
        for up, x in regs:
            # x is a representative: the largest value of the region
            m = {}
            for k, p, v in g:
                m[v] = (x <= p) if k == 'le' else (x == p)
            vals.append(_subst_atoms(n, m, {}))
        # merge equal neighbours, rebuild from the top
        r = vals[-1]
        for i in range(len(pts) - 1, -1, -1):
            if vals[i] == (vals[i + 1] if i + 1 < len(vals) else None) and True:
                # the region (…,p_i] has the value of the next one: no breakpoint here
                continue
            t = le0(sub(L, I(pts[i]))).a[0]
            r = BD.ite(t, vals[i], r)
        n = r
    return B(n)


# ---------------------------------------------------------------- conditional segments
def _guard(st):
    return (st[0][1], st[1:]) if st and st[0][0] == 'if' else (TRUE, st)


def disjoint(a, b):
    return a is not TRUE and b is not TRUE and canon_bool(band(a, b)) is FALSE


def canon_segs(segs):
    S_ = []
    for st, e in segs:
        g, rest = _guard(st)
        g = canon_bool(g)
        if g is FALSE:
            continue
        S_.append([g, rest, e])
    for a in S_:
        # all of X where X has at most n elements is the first n of X
        if a[0] is TRUE or not is_for(a[1]):
            continue
        for b in S_:
            r = tuple(b[1])
            if b is a or b[2] is not a[2] or not any(sg[0] == 'take' for sg in r) or not disjoint(a[0], b[0]):
                continue
            k = [i for i, sg in enumerate(r) if sg[0] == 'take' and tm.norm_stages(r[:i] + r[i + 1:]) == tm.norm_stages(tuple(a[1]))
                 and canon_bool(band(a[0], bnot(le0(sub(count(r[:i]), sg[1]))))) is FALSE]
            if k:
                a[1] = r
                break
    changed = True
    while changed:
        changed = False
        for i in range(len(S_)):
            for j in range(i + 1, len(S_)):
                a, b = S_[i], S_[j]
                if a[1] == b[1] and a[2] is b[2] and a[0] is not TRUE and disjoint(a[0], b[0]):
                    mid = S_[i + 1:j]
                    g = canon_bool(bor(a[0], b[0]))
                    if all(disjoint(m[0], b[0]) for m in mid):
                        S_[i] = [g, a[1], a[2]]
                        del S_[j]
                    elif all(disjoint(m[0], a[0]) for m in mid):
                        S_[j] = [g, a[1], a[2]]
                        del S_[i]
                    else:
                        continue
                    changed = True
                    break
            if changed:
                break
    out = []
    key = lambda x: (x[2].i, str(ids(x[1])), x[0].i)
    while S_:
        cand = [i for i in range(len(S_)) if all(disjoint(S_[k][0], S_[i][0]) for k in range(i))]
        i = min(cand, key=lambda i: key(S_[i]))
        out.append(S_.pop(i))
    return tuple((((('if', g),) if g is not TRUE else ()) + tuple(rest), e) for g, rest, e in out)


def ids(x):
    return x.i if isinstance(x, T) else tuple(ids(y) for y in x) if isinstance(x, (tuple, list)) else x


def push_guards(segs):
    """if g, for w in whole([parts])  ==  for w in whole([if g, parts]), parts in canonical order"""
    out, ch = [], False
    for st, e in segs:
        st = list(st)
        i = 0
        while i < len(st):
            if st[i][0] == 'for' and st[i][2].op == 'whole' and st[i][2].a[0].op == 'seq':
                X = st[i][2].a[0]
                Y = X
                if i and st[i - 1][0] == 'if' and not (i > 1 and st[i - 2][0] == 'if'):
                    g = st[i - 1][1]
                    Y = mk_seq([((('if', g),) + tuple(s), x) for s, x in X.a[0]])
                    j = i - 1
                else:
                    j = i
                Z = mk_seq(canon_segs(as_segs(Y)))
                if Z is not X or j < i:
                    old = st[i][1]
                    v = elem(mk('whole', Z))
                    rest = []
                    for sg in st[i + 1:]:
                        rest.append((sg[0],) + tuple(subst(y, {old: v}) if isinstance(y, T) else y for y in sg[1:]))
                    e = subst(e, {old: v})
                    st = st[:j] + [('for', v, mk('whole', Z))] + rest
                    i = j
                    ch = True
            i += 1
        out.append((tuple(st), e))
    return tuple(out) if ch else segs


def thresholds(t):
    """integer comparisons inside t, by the quantity compared"""
    r = _th.get(t)
    if r is None:
        r = {}

        def f(x):
            if x.op in ('le0', 'eq0') or x.op == 'ch' and x.a[1] == ('n',):
                k = form(x)
                if k is not None:
                    r.setdefault(k[0], set()).add(x)
        walk(t, f)
        _th[t] = r
    return r


_th = {}


def know(g, t):
    """t where g holds: a comparison in t that g settles is settled"""
    gt = {}
    for a in BD.support(g.a[0]):
        k = form(a)
        if k is not None:
            gt.setdefault(k[0], set()).add(a)
    if not gt or not isinstance(t, T):
        return t
    t = settle(g, t)
    tt = thresholds(t)
    c = g
    for L in gt:
        for a in tt.get(L, ()):
            if a in gt[L]:
                continue
            x = atom(a)
            if canon_bool(band(g, bnot(x))) is FALSE:
                c = band(c, x)
            elif canon_bool(band(g, x)) is FALSE:
                c = band(c, bnot(x))
    return restrict(t, c) if c is not g else t


def settle(g, t):
    """minima and maxima in t whose winner g decides"""
    mm = []
    walk(t, lambda x: mm.append(x) if x.op in ('min', 'max') else None)
    m = {}
    for x in mm:
        vs = list(x.a[0])
        keep = list(vs)
        for a in vs:
            for b in vs:
                if a is b or a not in keep or b not in keep:
                    continue
                c = le0(sub(a, b))
                if c is TRUE or c is FALSE or canon_bool(band(g, bnot(c))) is FALSE:      # a <= b
                    if c is not FALSE:
                        keep.remove(b if x.op == 'min' else a)
        if len(keep) < len(vs) and keep:
            r = keep[0]
            for y in keep[1:]:
                r = minmax(x.op, r, y)
            m[x] = r
    if not m:
        return t
    return Mapper(lambda x: m.get(x)).t(t)


def maps(x):
    """one form for updates of map and set entries"""
    if x.op == 'getor':
        n = is_variant(map_get(x.a[0], x.a[1]), 'Option', 'None')
        return mkphi([(n, x.a[2]), (bnot(n), map_at(x.a[0], x.a[1]))])
    if x.op == 'setput':
        b = maps(x.a[0])
        if b.op == 'phi':
            return mkphi([(g, mk('setput', v, x.a[1])) for g, v in b.a[0]])
    if x.op == 'phi' and all(v.op == 'mapput' for _, v in x.a[0]) and len({(v.a[0], v.a[1]) for _, v in x.a[0]}) == 1:
        v = x.a[0][0][1]
        return maps(mk('mapput', v.a[0], v.a[1], mkphi([(g, y.a[2]) for g, y in x.a[0]])))
    if x.op == 'mapput' and x.a[0].op == 'mapput' and x.a[0].a[1] is x.a[1]:
        return maps(mk('mapput', x.a[0].a[0], x.a[1], x.a[2]))
    return x


def reindex(stages, e):
    """counting through the positions of a collection and looking each one up is going through the collection"""
    if not stages or stages[0][0] != 'for':
        return None
    bv = bound_vars(stages)
    for k in range(1, len(stages) + 1):
        P = tuple(stages[:k])
        ix = mk('idx', P)
        rest = tuple(stages[k:])
        hits = []

        def f(y):
            if y.op == 'index' and y.a[1] is ix:
                hits.append(y)
        for y in (e,) + rest:
            walk(y, f)
        hits = [y for y in set(hits) if y.a[0].op == 'seq' and len(y.a[0].a[0]) == 1]
        for y in hits:
            st2, e2 = y.a[0].a[0][0]
            st2 = tm.norm_stages(st2)
            if st2 == P or tm.strip_order(st2) != P:
                continue
            hole = mk('param', '@position')
            if any(tm._fv_of(replace(replace(z, y, hole), ix, hole) if isinstance(z, T) else ()) & bound_vars(P) for z in (e,)):
                continue

            def sw(z):
                if isinstance(z, T):
                    return Mapper(lambda q: e2 if q is y else mk('idx', st2) if q is ix else None).t(z)
                return tuple(sw(w) for w in z) if isinstance(z, tuple) else z
            return tm.norm_stages(st2 + tuple(sw(r) for r in rest)), sw(e)
    return None


def inside(segs):
    """what is done with each element of a concatenation is done with the elements of its pieces"""
    out, ch = [], False
    for st, e in segs:
        if st and st[-1][0] == 'for' and st[-1][1] is e and st[-1][2].op == 'whole' and st[-1][2].a[0].op == 'seq' and not is_for(st[:-1]) \
                and all(sg[0] == 'if' for sg in st[:-1]):
            # all of a concatenation, once: its pieces
            for s2, e2 in st[-1][2].a[0].a[0]:
                out.append((tuple(st[:-1]) + tuple(s2), e2))
            ch = True
            continue
        for i, sg in enumerate(st):
            if sg[0] == 'for' and sg[2].op == 'whole' and sg[2].a[0].op == 'seq' and all(x[0] in ('if', 'for') for x in st[i + 1:]) \
                    and not (i + 1 == len(st) and e is sg[1]):
                v, parts = sg[1], []
                for s2, e2 in sg[2].a[0].a[0]:
                    if bound_vars(s2) & (tm._fv_of((st[i + 1:], e)) | bound_vars(st)):
                        break
                    parts.append((tuple(s2) + tuple(tm.subst_any(x, {v: e2}) for x in st[i + 1:]), subst(e, {v: e2})))
                else:
                    Z = mk('whole', mk_seq(parts))
                    if Z.a[0].op == 'seq':
                        w = elem(Z)
                        out.append((tuple(st[:i]) + (('for', w, Z),), w))
                        ch = True
                        break
        else:
            out.append((st, e))
            continue
    return out if ch else None


def repeats(segs):
    """text repeated n times: one form, however the repetition is counted"""
    out, ch = [], False
    for st, e in segs:
        if e.op == 'show' and e.a[1] == '{}' and e.a[0].op == 'strrepeat':
            e = e.a[0]
        if e.op == 'strrepeat':
            t, n = e.a
            if t.op == 'cat' and len(t.a[0]) == 1 and t.a[0][0][0] == ():
                t = t.a[0][0][1]
            if t.op != 'cat':
                R = mk('range', I(0), n)
                st, e, ch = tuple(st) + (('for', elem(R), R),), t, True
        for i, sg in enumerate(st):
            if sg[0] == 'for' and sg[2].op == 'range' and sg[2].a[0] is not I(0):
                v = sg[1]
                if not (tm._fv_of((st[i + 1:], e)) & {v}):
                    R = mk('range', I(0), satsub(sg[2].a[1], sg[2].a[0]))
                    st = tuple(st[:i]) + (('for', elem(R), R),) + tuple(st[i + 1:])
                    ch = True
        out.append((st, e))
    return out if ch else None


def empties(g, t):
    """t where g holds: repetitions whose count is zero there are left out"""
    if t.op != 'cat':
        return t

    def none(st):
        return any(sg[0] == 'for' and sg[2].op == 'range' and sg[2].a[0] is I(0) and settle(g, sg[2].a[1]) is I(0)
                   or sg[0] == 'take' and band(g, bnot(le0(sg[1]))) is FALSE for sg in st)

    def gone(st, e):
        y = e.a[0] if e.op == 'str' else e
        return none(st) or y.op == 'join' and y.a[0].op == 'seq' and all(none(s2) for s2, _ in y.a[0].a[0])
    segs = [(st, e) for st, e in t.a[0] if not gone(st, e)]
    return mk_cat(segs) if len(segs) < len(t.a[0]) else t


def ascending(st, e):
    """these rounds yield e once each, in rising order"""
    if not st or st[0][0] != 'for':
        return False
    v, X = st[0][1], st[0][2]
    if not (X in tm.SETS and e is v
            or X in tm.SORTED and (e is mk('key', v) or X in tm.IDKEYED and e is tm.proj(mk('val', v), 'id'))):
        return False
    inner = [sg for sg in st[1:] if sg[0] == 'for']
    if any(sg[0] not in ('if', 'for') for sg in st[1:]) or len(inner) > 1:
        return False
    if not inner:
        return True
    # an inner round over a set, kept for one element of it only
    t, Y = inner[0][1], inner[0][2]
    if X not in tm.SETVALS or Y is not mk('val', v):
        return False
    pin = tm.eq(mk('gkey'), t)
    return any(sg[0] == 'if' and band(sg[1], bnot(pin)) is FALSE for sg in st)


def once_rising(segs):
    if len(segs) != 1:
        return None
    st, e = segs[0]
    out, ch = [], False
    for sg in st:
        if ascending(tuple(out), e) and (sg == ('uniq',) or sg[0] == 'order' and sg[1].op == 'keys' and len(sg[1].a[0]) == 1
                                         and sg[1].a[0][0][0] is e and sg[1].a[0][0][1] is tm.ASC):
            ch = True
            continue
        out.append(sg)
    return ((tuple(out), e),) if ch else None


def eta_of(g, v):
    """the value that v merely takes apart and puts together again where g holds"""
    if v.op != 'adt' or not v.a[2]:
        return None
    x = None
    for f, y in v.a[2]:
        if y.op != 'proj' or len(y.a) < 3 or y.a[1] != f or y.a[2] != v.a[1] or x is not None and x is not y.a[0]:
            return None
        x = y.a[0]
    return x if band(g, bnot(tm.is_variant(x, v.a[0], v.a[1]))) is FALSE else None


def eta(alts):
    """a value rebuilt case by case is the value itself"""
    cand = {}
    for g, v in alts:
        x = eta_of(g, v)
        if x is not None:
            cand[x] = v.a[0]
    ns = [(v.a[0], v) for _, v in alts if v.op == 'adt' and not v.a[2] and v.a[0] in ('Option',)]
    if ns:
        for g, v in alts:
            if v.op in ('proj', 'param'):
                cand[v] = ns[0][0]
    if not cand:
        return None
    out, ch = [], False
    for g, v in alts:
        x = eta_of(g, v)
        if x is not None:
            out.append((g, x))
            ch = True
            continue
        if v.op == 'adt' and not v.a[2]:
            for x, p in cand.items():
                if p == v.a[0]:
                    i = tm.is_variant(x, p, v.a[1])
                    h = band(g, i)
                    if h is not FALSE:
                        out.append((h, x))
                        g = band(g, bnot(i))
                        ch = True
        if g is not FALSE:
            out.append((g, v))
    return mkphi(out) if ch else None


def unjoin(x):
    """the last, single entry of a joined list written out"""
    X, sep = x.a
    if X.op != 'seq' or len(X.a[0]) < 2 or is_for(X.a[0][-1][0]) or any(sg[0] != 'if' for sg in X.a[0][-1][0]):
        return None
    st, e = X.a[0][-1]
    H = mk_seq(X.a[0][:-1])
    g = guard_of(st)
    j = mk('join', H, sep)
    j = unjoin(j) or j
    some_ = settle(g, bor(*[lt(I(0), count(tuple(s2))) for s2, _ in as_segs(H)]))
    return mkphi([(bnot(g), j), (band(g, some_), mk_cat([((), mk('str', j)), ((), mk('str', sep)), ((), mk('str', e))])), (band(g, bnot(some_)), e)])


def pre(x):
    if x.op == 'phi':
        r = eta(x.a[0])
        if r is not None:
            x = r
    if x.op == 'join':
        r = unjoin(x)
        if r is not None:
            return r
    if x.op == 'api' and any(isinstance(y, T) and y.op == 'phi' for y in x.a[1:]):
        i = [isinstance(y, T) and y.op == 'phi' for y in x.a].index(True)
        return mkphi([(g, mk('api', *x.a[:i], v, *x.a[i + 1:])) for g, v in x.a[i].a[0]])
    if x.op == 'cat':
        r = repeats(x.a[0])
        if r is not None:
            x = mk_cat(r)
    if x.op == 'phi' and any(v.op == 'cat' for _, v in x.a[0]):
        r = [(g, empties(g, v)) for g, v in x.a[0]]
        if any(a is not b for (_, a), (_, b) in zip(r, x.a[0])):
            x = mkphi(r)
    if x.op == 'seq':
        r = once_rising(x.a[0])
        if r is not None:
            x = mk_seq(r)
    if x.op == 'seq':
        r = inside(x.a[0])
        if r is not None:
            x = mk_seq(r)
    if x.op in ('seq', 'cat'):
        segs = [(st, e) if r is None else r for st, e in x.a[0] for r in (reindex(st, e),)]
        if tuple(segs) != x.a[0]:
            x = mk_seq(segs) if x.op == 'seq' else mk_cat(segs)
    elif x.op == 'agg' and len(x.a) == 3 and isinstance(x.a[2], T) and x.a[0] in ('sum', 'max', 'min'):
        r = reindex(x.a[1], x.a[2])
        if r is not None:
            x = mk('agg', x.a[0], tm.strip_order(r[0]), r[1])
    if x.op in ('getor', 'setput', 'mapput', 'phi'):
        x = maps(x)
    if x.op == 'b':
        return canon_bool(x)
    if x.op == 'seq' and any(sg[0] == 'uniq' and len(sg) > 1 and i and st[i - 1][0] == 'order' and st[i - 1][1] is sg[1] for st, e in x.a[0] for i, sg in enumerate(st)):
        # equal neighbours of a list sorted by the whole element
        return mk_seq([(tuple(('uniq',) if sg[0] == 'uniq' and len(sg) > 1 and i and st[i - 1][0] == 'order' and st[i - 1][1] is sg[1] else sg
                              for i, sg in enumerate(st)), e) for st, e in x.a[0]])
    if x.op == 'seq' and any(sg[0] == 'for' and sg[2].op == 'whole' for st, e in x.a[0] for sg in st):
        segs = push_guards(x.a[0])
        if segs is not x.a[0]:
            return mk_seq(segs)
    if x.op in ('seq', 'cat') and any(st and st[0][0] == 'if' for st, e in x.a[0]):
        segs = tuple((st, know(st[0][1], e)) if st and st[0][0] == 'if' else (st, e) for st, e in x.a[0])
        if segs != x.a[0]:
            x = mk_seq(segs) if x.op == 'seq' else mk_cat(segs)
            if x.op not in ('seq', 'cat'):
                return x
    if x.op in ('seq', 'cat') and len(x.a[0]) > 1:
        segs = canon_segs(x.a[0])
        if segs != x.a[0]:
            return mk_seq(segs) if x.op == 'seq' else mk_cat(segs)
    return x
