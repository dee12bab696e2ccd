"""Small vocabulary for writing down what a function is supposed to compute."""
from terms import *
import terms as tm
import api
import canon
from rl import ITEMS
from api import all_items, id_of, item_of, universe, pmap

OPTS = mk('param', 'opts')
TOTAL = api.nn(proj(ITEMS, 'size'))
META = proj(ITEMS, 'meta_root')
ASC, DESC = tm.ASC, tm.DESC
U32MAX = I(4294967295)


def opt(name):
    r = proj(OPTS, name)
    return api.nn(r) if name.startswith('max_') else r


def opts(ty, **fixed):
    """options value with some getters fixed to a constant"""
    fs = []
    for g in api.GETTERS[ty]:
        fs.append((g, fixed[g] if g in fixed else opt(g)))
    return adt('twiggy_opt::' + ty, ty, fs)


def name(it):
    return proj(it, 'name')


def size(it):
    return api.nn(proj(it, 'size'))


def retained(it_id, items=ITEMS):
    return api.nn(api.api('retained_size', items, it_id))


def neighbors(i, items=ITEMS):
    return api.api('neighbors', items, i)


def preds(i, items=ITEMS):
    return api.api('predecessors', items, i)


def serial(i):
    return api.nn(api.api('serializable', i))


def is_data(it):
    return is_variant(proj(it, 'kind'), 'twiggy_ir::ItemKind', 'Data')


def has_mono(it):
    return is_variant(proj(it, 'monomorphization_of'), 'Option', 'Some')


def generic(it):
    return proj(proj(it, 'monomorphization_of'), '0', 'Some')


# ---- sequences
def stages(X, *fs):
    out = []
    for st, e in as_segs(X):
        for f in fs:
            st = st + (f(e),)
        out.append((st, e))
    return mk_seq(out)


def where(X, f):
    return stages(X, lambda e: ('if', f(e)))


def order(X, f, stable=True):
    return stages(X, lambda e: ('order', mk('keys', tuple(f(e))), stable))


def take(X, n):
    return stages(X, lambda e: ('take', n))


def skip(X, n):
    return stages(X, lambda e: ('skip', n))


def each(X, f):
    return mk_seq([(st, f(e)) for st, e in as_segs(X)])


def flat(X, f):
    """for each element, the segments of f(element)"""
    out = []
    for st, e in as_segs(X):
        for st2, e2 in as_segs(f(e)):
            out.append((st + st2, e2))
    return mk_seq(out)


def total(X, f):
    r = I(0)
    for st, e in as_segs(X):
        r = add(r, asum(st, f(e)))
    return r


def num(X):
    return tm.length(X)


def some(X):
    return bor(*[exists(st) for st, e in as_segs(X)])


def when(c, X):
    return mk_seq([((('if', c),) + st, e) for st, e in as_segs(X)])


def lst(*xs):
    return mk('seq', tuple(((), x) for x in xs))


def chainseq(*Xs):
    out = []
    for X in Xs:
        out += list(as_segs(X))
    return mk_seq(out)


# ---- text
def txt(*ps):
    """concatenation of literals and values"""
    return cat(*[S(p) if isinstance(p, str) else to_str(p) for p in ps])


def pct(x, tot=TOTAL):
    return rmul(rdiv(to_real(x), to_real(tot)), real_const(100))


def pctcell(x, tot=TOTAL):
    return cat(to_str(pct(x, tot), '{:.2}'), S('%'))


# ---- documents
def row(*cells):
    return mk('row', lst(*cells))


def rec(**cols):
    return rec_([(k, v) for k, v in cols.items()])


def rec_(cols):
    return mk('row', lst(*[tup(S(k), v) for k, v in cols]))


def jobj(fields, kind='object', key=None):
    return mk('jobj', kind, key if key is not None else mk('name', 'elem'), fields)


def jf(k, v, ty):
    return mk('jf', S(k), v, mk('name', ty))


def jfs(*kvs):
    """fields, typed by the shape of the tuple (key, value, 's'|'n')"""
    return lst(*[jf(k, v, {'s': 'string', 'n': 'number'}[t]) for k, v, t in kvs])


def jarray_top(X):
    return lst(jobj(X, 'array', mk('name', 'top')))


def jobject_top(X):
    return lst(jobj(X, 'object', mk('name', 'top')))


def table(header, rows):
    hs = lst(*[tup(adt('twiggy_analyze::formats::table::Align', a, []), S(h) if isinstance(h, str) else h) for a, h in header])
    return lst(mk('table', hs, rows, to_str(mk('name', 'TABLE'))))


def csv(rows):
    return lst(mk('csv', rows))


# ---- comparison
def spread_cat(x):
    """conditional text inside a concatenation becomes conditional pieces"""
    out = []

    def go(st, e):
        if e.op == 'str':
            e = e.a[0]
        if e.op == 'phi':
            for g, v in e.a[0]:
                go(st + (('if', g),), v)
        elif e.op == 'cat':
            for s2, e2 in e.a[0]:
                go(st + s2, e2)
        elif e.op in ('lit', 'show'):
            out.append((tm.norm_stages(st), e))
        else:
            out.append((tm.norm_stages(st), mk('str', e)))
    for st, e in x.a[0]:
        go(st, e)
    return mk_cat(out)


def cases(x, cap=48):
    """conditional text as alternatives: [(condition, text)], conditions exclusive"""
    alts = [(TRUE, [])]
    flat_ = []
    for st, e in x.a[0]:
        y = e.a[0] if e.op == 'str' else e
        if y.op == 'cases' and all(sg[0] == 'if' for sg in st):
            g0 = guard_of(st)
            flat_ += [((('if', band(g0, g)),), m) for g, m in y.a[0]]
        else:
            flat_.append((tuple(st), e))
    for st, e in flat_:
        if not st or st[0][0] != 'if':
            for _, l in alts:
                l.append((st, e))
            continue
        g, rest = st[0][1], tuple(st[1:])
        new = []
        for h, l in alts:
            y, n = band(h, g), band(h, bnot(g))
            if y is not FALSE:
                new.append((y, l + [(rest, e)]))
            if n is not FALSE:
                new.append((n, list(l)))
        alts = new
        if len(alts) > cap:
            return None
    out = {}
    for g, l in alts:
        m = canon.settle(g, canon.empties(g, mk_cat(canon.repeats(l) or l)))
        out[m] = bor(out.get(m, FALSE), g)
    return sorted([(canon.canon_bool(g), m) for m, g in out.items()], key=lambda p: p[1].i)


def number(y):
    """the number a piece of text is"""
    if y.op == 'show':
        return y.a[0] if y.a[1] == '{}' else None
    if y.op == 'str':
        return number(y.a[0])
    if y.op == 'cat':
        return number(y.a[0][0][1]) if len(y.a[0]) == 1 and y.a[0][0][0] == () else None
    if y.op == 'phi':
        alts = [(g, number(v)) for g, v in y.a[0]]
        return None if any(v is None for _, v in alts) else mkphi(alts)
    return None if y.op in ('lit', 'cases', 'seq', 'adt', 'b') else y


def signed(x):
    """a plus sign in front of what is not negative: the number with its sign"""
    segs = list(x.a[0])
    for i in range(len(segs) - 1):
        (st, e), (s2, y) = segs[i:i + 2]
        if s2 == () and len(st) == 1 and st[0][0] == 'if' and e.op == 'lit' and e.a[0] == '+':
            n = number(y)
            if n is not None and not tm.is_real(n) and st[0][1] is le(I(0), n):
                return signed(mk_cat(segs[:i] + [((), mk('show', n, '{:+}'))] + segs[i + 2:]))
    return x


def plain(t):
    """«‹x›» and x are the same text: the text of a value is written as the value"""
    def leaf(x):
        return None

    def pre(x):
        if x.op == 'cat':
            x = signed(x)
        if x.op == 'join':
            x = canon.unjoin(x) or x
        if x.op == 'group' and x.a[0] == 'HashMap':     # walking one has a stage of its own for the order
            x = mk('group', 'BTreeMap', *x.a[1:])
        if x.op == 'phi' and any(v.op in ('cat', 'cases') for _, v in x.a[0]):
            x = mk_cat([((('if', g),), piece(v)) for g, v in x.a[0]])
        if x.op == 'cat' and any(e.op in ('phi', 'cat') or e.op == 'str' and e.a[0].op in ('phi', 'cat') for st, e in x.a[0]):
            x = spread_cat(x)
        x = canon.pre(x)
        if x.op == 'cat' and any(st and st[0][0] == 'if' or st == () and (e.op == 'cases' or e.op == 'str' and e.a[0].op == 'cases') for st, e in x.a[0]):
            cs = cases(x)
            if cs is not None:
                return mk('cases', tuple(sorted(((g, pre(m) if m.op == 'cat' and m is not x else m) for g, m in cs), key=lambda p: p[1].i)))
        if x.op == 'cast' and x.a[0] == 'u32' and x.a[1].op == 'lin':       # modulo 2^32 the sum of the parts
            c, ps = x.a[1].a
            r = I(c)
            for y, k in ps:
                r = add(r, mul(I(k), pre(mk('cast', 'u32', y))))
            return r
        if x.op == 'cast' and x.a[0] in ('u32', 'u64', 'usize') and x.a[1].op == 'agg' and x.a[1].a[0] == 'count':
            return x.a[1]
        if x.op == 'cat':
            x = mk('cat', tuple((st, e.a[0] if e.op == 'str' or e.op == 'show' and e.a[1] == '{}' else e) for st, e in x.a[0]))
        if x.op == 'cat' and len(x.a[0]) == 1 and x.a[0][0][0] == ():
            e = x.a[0][0][1]
            if e.op != 'show' and e.op != 'lit':
                return e
        if x.op == 'show' and x.a[1] == '{}' and x.a[0].op in ('cat',):
            return x.a[0]
        return x
    return Mapper(leaf, None, pre).t(t)


def flat_rounds(X):
    """the pieces of X with their stages, the rounds of a loop taken apart (order between rounds is lost)"""
    out = []
    for st, e in as_segs(X):
        if st and st[-1][0] == 'for' and st[-1][1] is e and st[-1][2].op == 'whole' and st[-1][2].a[0].op == 'seq':
            out += [(tuple(st[:-1]) + tuple(s2), e2) for s2, e2 in flat_rounds(st[-1][2].a[0])]
        else:
            out.append((tuple(st), e))
    return out


def noflush(X):
    out = []
    for st, e in as_segs(X):
        if e.op == 'flush':
            continue
        if st and st[-1][0] == 'for' and st[-1][1] is e and st[-1][2].op == 'whole' and st[-1][2].a[0].op == 'seq':
            for s2, e2 in as_segs(tm.together(noflush(st[-1][2].a[0]))):
                out.append((tuple(st[:-1]) + tuple(s2), e2))
        else:
            out.append((st, e))
    return mk_seq(out)


def unflush(t):
    """flushing the csv writer more often than at the end does not change what is written"""
    def pre(x):
        if x.op == 'csv':
            return mk('csv', noflush(x.a[0]))
        return x
    return Mapper(lambda x: None, None, pre).t(t)



UNKNOWN = {'loopval', 'mu', 'opaque', 'ext', 'badcmp', 'groupmore', 'mapmore', 'bottom', 'flip', 'joinkeys', 'then', 'revord', 'pull', 'drained', 'elemof', 'call'}
INTERPRETED = {'OpenOptions::open', 'OsStr::eq_ignore_ascii_case', 'str::find', 'str::rfind', 'str::starts_with', 'str::ends_with', 'str::contains', 'rustc_demangle::try_demangle', 'Symbol::new'}   # library functions the rules name


# text functions that never leave every text as it is: no rewriting of a rule's term can introduce them
INTERPRETED |= {'str::' + x for x in '''trim trim_start trim_end trim_left trim_right trim_matches trim_start_matches trim_end_matches
trim_left_matches trim_right_matches to_lowercase to_uppercase to_ascii_lowercase to_ascii_uppercase replace replacen repeat
eq_ignore_ascii_case escape_debug escape_default escape_unicode'''.split()}

# arithmetic that is never the identity
INTERPRETED |= {'f64::' + x for x in 'round floor ceil trunc fract sqrt mul_add powi max min clamp'.split()}
INTERPRETED |= {'num::' + x for x in 'signum leading_zeros trailing_zeros count_ones next_power_of_two is_power_of_two swap_bytes isqrt ilog2 ilog10 next_multiple_of div_ceil saturating_mul'.split()}


# where a rule only compares whole names and picks items by them, cutting a text up or picking a best match is never what it asks for
EXTRA = {'str::' + x for x in 'split rsplit splitn rsplitn split_once rsplit_once split_whitespace split_terminator rsplit_terminator matches'.split()}
EXTRA |= {'Iterator::' + x for x in 'max_by_key min_by_key max_by min_by'.split()}
WHOLE_NAMES = {'P10', 'P13', 'P14', 'P15', 'P16', 'P17', 'P18'}
rule = [None]


def unknowns(t):
    acc = set()
    more = EXTRA if rule[0] in WHOLE_NAMES else ()

    def f(x):
        if x.op in UNKNOWN and not (x.op == 'ext' and (x.a[0] in INTERPRETED or x.a[0] in more)):
            acc.add((x.op, x.a[0] if x.a and isinstance(x.a[0], str) else ''))
    walk(t, f)
    return acc


def differ(a, b, path='', out=None, depth=0):
    """smallest differing subterms of two terms"""
    if out is None:
        out = []
    if a is b or len(out) > 3 or (not isinstance(a, T) and a == b):
        return out
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and len(a.a) == len(b.a) and a.op not in ('b', 'lin', 'real', 'phi', 'lit'):
        n = len(out)
        for i, (x, y) in enumerate(zip(a.a, b.a)):
            differ(x, y, path, out, depth + 1)
        if len(out) > n:
            return out
    elif isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        n = len(out)
        for x, y in zip(a, b):
            if x is not y and x != y:
                differ(x, y, path, out, depth + 1)
        if len(out) > n:
            return out
    elif isinstance(a, tuple) and isinstance(b, tuple):
        i = 0
        while i < len(a) and i < len(b) and (a[i] is b[i] or a[i] == b[i]):
            i += 1
        j = 0
        while j < len(a) - i and j < len(b) - i and a[-1 - j] == b[-1 - j]:
            j += 1
        out.append((a[i:len(a) - j], b[i:len(b) - j]))
        return out
    out.append((a, b))
    return out


def gtz(x):
    return bnot(le(x, I(0)))


def rl_ext(n, *args):
    return tm.ext(n, *args)


def truth(x):
    return as_bool(x)


def pinned(x, lits):
    """x with the value of some literals given"""
    d = {}
    for l, val in lits:
        n = l.a[0]
        if n < 2 or {tm.BD.hi[n], tm.BD.lo[n]} != {0, 1}:
            continue
        d[tm.BD.atoms[tm.BD.var[n]]] = val if tm.BD.hi[n] == 1 else bnot(val)
    return Mapper(lambda y: d.get(y)).t(x)
