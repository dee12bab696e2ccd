"""diff: sizes per name in two sets of items, and the difference of the two"""
from .common import *
from .dominators import matches
from ev import set_of

OLD, NEW = mk('param', 'old'), mk('param', 'new')
ARGS = proj(OPTS, 'items')


def all_of(items):
    return where(all_items(items), lambda it: TRUE)


def per_name(items):
    """total size of the items of each name"""
    (st, it), = as_segs(all_items(items))
    k = name(it)
    return mk('group', 'BTreeMap', tm.norm_stages(st), k, asum(st + (('if', eq(tm.GKEY, k)),), size(it)))


def names_of(items):
    return each(all_items(items), name)


# ---------------------------------------------------------------- canonical form of the set of names
def map_names(X):
    """the names as item names: a key of a map of sizes is the name of some item"""
    out = []
    for st, e in as_segs(X):
        st = tuple(s for s in st if s[0] not in ('hash', 'order'))
        for k, s in enumerate(st):
            if s[0] == 'for' and s[2].op == 'group' and s[1].op == 'elem':
                G, v = s[2], s[1]
                key = mk('key', v)
                f = lambda x: replace(x, key, G.a[2])
                rest = tuple((y[0], f(y[1])) if y[0] == 'if' else y for y in st[k + 1:])
                e = f(plain(e))
                if v in e.fv or any(isinstance(z, T) and v in z.fv for y in rest for z in y[1:]):
                    return None
                st = st[:k] + tuple(G.a[1]) + rest
                break
        out.append((st, e))
    return out


def pull(X):
    """-> (set without its filter, filter as a function of the element) when every part is filtered alike"""
    parts = map_names(X)
    if parts is None:
        return None
    bare, conds = [], set()
    V = mk('name', 'NAME')
    for st, e in parts:
        e = plain(e)
        g = TRUE
        while st and st[-1][0] == 'if':
            g = band(g, st[-1][1])
            st = st[:-1]
        g = plain(g)
        if any(s[0] != 'for' for s in st):
            return None
        c = replace(g, e, V)
        if any(v in c.fv for s in st for v in (s[1],)):
            return None
        conds.add(c)
        bare.append((st, e))
    if len(conds) != 1:
        return None
    bare.sort(key=lambda p: p[1].i)
    return mk('whole', mk('seq', tuple(bare))), conds.pop()


def assume_listed(b, W):
    """a name taken from either set of items is in at least one of the two maps"""
    ks = {}
    for a in BD.support(b.a[0]):
        if a.op == 'ch' and a.a[0].op == 'get' and a.a[0].a[0].op == 'group' and a.a[0].a[1] is elem(W):
            ks[a.a[0]] = a
    if len(ks) != 2:
        return b
    x, y = ks
    none = lambda g: is_variant(g, 'Option', 'None')
    k = bnot(band(none(x), none(y)))
    return constrain(b, k)


def nz(t):
    """canonical form used on both sides of every comparison"""
    t = plain(t)

    def kind(x):
        if x.op == 'group' and x.a[0] == 'HashMap':
            x = mk('group', 'BTreeMap', *x.a[1:])
        return x
    t = plain(Mapper(lambda x: None, None, kind).t(t))
    ws = {}

    def find(x):
        if x.op == 'whole':
            ws[x] = None
    tm.walk(t, find)
    filt = {}
    m = {}
    for W in ws:
        p = pull(W.a[0])
        if p is not None:
            m[W] = p[0]
            filt.setdefault(p[0], {})[W] = p[1]
    known = {W: (m[W], filt[m[W]][W]) for W in m}
    if known:
        t = Refilter(known).t(t)

    for W in m.values():
        t = guards(t, lambda b: assume_listed(b, W))
    return plain(t)


class Refilter(Mapper):
    """sets of names with the filter on their parts pulled out: it becomes a stage of whatever runs over the set"""

    def __init__(s, known):
        s.known = known
        Mapper.__init__(s, s.swap)

    def swap(s, x):
        if x in s.known:
            return s.known[x][0]
        if x.op == 'elem' and x.a[0] in s.known:
            return mk('elem', s.known[x.a[0]][0], *x.a[1:])
        return None

    def any(s, x):
        if isinstance(x, tuple) and any(isinstance(y, tuple) and len(y) == 3 and y[0] == 'for' and y[2] in s.known for y in x):
            out, pend = [], None
            for y in x:
                if y[0] == 'for' and y[2] in s.known:
                    W2, c = s.known[y[2]]
                    v2 = s.t(y[1])
                    out.append(('for', v2, W2))
                    pend = replace(c, mk('name', 'NAME'), v2)
                    continue
                if out and y[0] == 'hash' and (pend is not None or any(z[0] == 'order' for z in x)):
                    continue
                out.append(tuple(s.any(z) for z in y))
                if pend is not None and y[0] == 'uniq':
                    out.append(('if', pend))
                    pend = None
            return tm.norm_stages(tuple(out))
        return Mapper.any(s, x)


def guards(t, f):
    """apply f to the conditions of stages and alternatives"""
    return Mapper(lambda x: None, None, lambda x: f(x) if x.op == 'b' else x).t(t)


# ---------------------------------------------------------------- what the report must be
def entries(mode):
    O, N = per_name(OLD), per_name(NEW)
    X = chainseq(names_of(OLD), names_of(NEW))
    S_ = set_of('HashSet', X)
    if mode == 'regexps':
        S_ = where(S_, lambda n: matches(ARGS, n))
    elif mode == 'names':
        a = elem(ARGS)
        A = mk('seq', (((('for', a, ARGS),), a),))
        S_ = where(S_, lambda n: set_has(A, n))

    def delta(n):
        o, w = map_get(O, n), map_get(N, n)
        no, nw = is_variant(o, 'Option', 'None'), is_variant(w, 'Option', 'None')
        a, b = proj(o, '0', 'Some'), proj(w, '0', 'Some')
        return mkphi([(no, b), (band(bnot(no), nw), neg(a)), (band(bnot(no), bnot(nw)), sub(b, a))])
    S_ = where(S_, lambda n: bnot(eq(delta(n), I(0))))
    ranked = order(S_, lambda n: [(mk('abs', delta(n)), DESC), (n, ASC)])
    mx = opt('max_items')
    n = num(S_)
    head, rest = take(ranked, mx), skip(ranked, mx)
    tot = total(S_, delta) if mode != 'all' else sub(proj(NEW, 'size'), proj(OLD, 'size'))
    return [(st, e, delta(e)) for st, e in as_segs(head)] + [
        ((('if', lt(mx, n)),), txt('... and ', sub(n, num(head)), ' more.'), total(rest, delta)),
        ((), txt('Σ [', n, ' Total Rows]'), tot)]


def neg(x):
    return sub(I(0), x)


def expected(fmt, es):
    out = []
    for st, n, d in es:
        if fmt == 'text':
            r = row(to_str(d, '{:+}'), to_str(n))
        elif fmt == 'json':
            r = jobj(jfs(('delta_bytes', to_real(d), 'n'), ('name', n, 's')))
        else:
            r = rec_([('DeltaBytes', to_str(d, '{:+}')), ('Item', n)])
        out.append((st, r))
    body = mk_seq(out)
    if fmt == 'text':
        return table([('Right', 'Delta Bytes'), ('Left', 'Item')], body)
    return jarray_top(body) if fmt == 'json' else csv(body)


@prop('P18', 'diff: per-name sizes of both sets, their differences, order, limit, remainder and total in every format')
def diff(c):
    w = c.world()
    for mode in ('all', 'names', 'regexps'):
        if mode == 'all':
            sm, v = analyse(c, w, 'diff', opts('Diff', items=SEQ0), items=[OLD, NEW])
        else:
            a = elem(ARGS)
            sm, v = analyse(c, w, 'diff', opts('Diff', using_regexps=TRUE if mode == 'regexps' else FALSE), items=[OLD, NEW],
                            assume=exists((('for', a, ARGS),)))
        es = entries(mode)
        for fmt in FORMATS:
            check_doc(c, w, 'diff.%s.%s' % (fmt, mode), v, fmt, expected(fmt, es), pre=nz)
