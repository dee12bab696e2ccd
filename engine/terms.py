"""Hash-consed value terms, canonical boolean conditions (BDDs over atoms) and normal forms.

Everything the value-flow analysis computes is one of these terms.  Two pieces of source that
compute the same thing through the constructs that are modelled get the *same* term, whatever
they were written like; nothing here executes the analysed program or asks a solver.
"""
import sys
from fractions import Fraction
sys.setrecursionlimit(20000)


class T:
    __slots__ = ('op', 'a', 'fv', 'i')

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]
EMPTY = frozenset()
ENUMS = {}      # adt path -> [variant names]
NONNEG = set()


def _fv_of(x):
    if isinstance(x, T):
        return x.fv
    if isinstance(x, tuple):
        r = EMPTY
        for y in x:
            if isinstance(y, (T, tuple)):
                f = _fv_of(y)
                if f:
                    r = r | f if r else f
        return r
    return EMPTY


def bound_vars(stages):
    return frozenset(s[1] for s in stages if s[0] == 'for')


def _fv_seg(stages, e):
    b = bound_vars(stages)
    r = _fv_of(e) if e is not None else EMPTY
    for s in stages:
        if s[0] == 'for':
            r = r | s[2].fv | (s[1].fv - {s[1]})
        else:
            r = r | _fv_of(s[1:])
    return r - b


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _cnt[0] += 1
        t.i = _cnt[0]
        if op == 'elem':
            t.fv = a[0].fv | {t}
        elif op == 'mu':
            t.fv = frozenset([t])
        elif op == 'seq' or op == 'cat':
            r = EMPTY
            for st, e in a[0]:
                r = r | _fv_seg(st, e)
            t.fv = r
        elif op in ('agg', 'first', 'last'):
            t.fv = _fv_seg(a[1], a[2])
        elif op == 'b':
            t.fv = BD.fv(a[0])
        elif op == 'group':           # kind, stages, key, value
            t.fv = _fv_seg(a[1], a[2]) | a[3].fv
        elif op == 'groupmore':       # init, stages, key, default, hole, step
            t.fv = a[0].fv | a[3].fv | (_fv_seg(a[1], mk('x', a[2], a[5])) - {a[4]})
        elif op == 'loopval':         # init, mu, next, stages
            lid = a[1].a[0] if a[1].op == 'mu' else None
            t.fv = a[0].fv | frozenset(v for v in _fv_seg(a[3], a[2]) if not (v.op == 'mu' and v.a[0] == lid))
        else:
            t.fv = _fv_of(a)
        _tab[k] = t
    return t


# ---------------------------------------------------------------- BDD
class Bdd:
    def __init__(s):
        s.var = [1 << 60, 1 << 60]
        s.lo = [0, 1]
        s.hi = [0, 1]
        s.u = {}
        s.memo = {}
        s.cm = {}
        s.atoms = []
        s.aidx = {}
        s._fv = {0: EMPTY, 1: EMPTY}

    def node(s, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = s.u.get(k)
        if n is None:
            n = len(s.var)
            s.var.append(v)
            s.lo.append(lo)
            s.hi.append(hi)
            s.u[k] = n
        return n

    def atom(s, t):
        v = s.aidx.get(t)
        if v is None:
            v = len(s.atoms)
            s.atoms.append(t)
            s.aidx[t] = v
        return s.node(v, 0, 1)

    def ite(s, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = s.memo.get(k)
        if r is None:
            v = min(s.var[f], s.var[g], s.var[h])

            def c(n, b):
                if s.var[n] != v:
                    return n
                return s.hi[n] if b else s.lo[n]
            r = s.node(v, s.ite(c(f, 0), c(g, 0), c(h, 0)), s.ite(c(f, 1), c(g, 1), c(h, 1)))
            s.memo[k] = r
        return r

    def constrain(s, f, c):
        if c == 1 or f < 2:
            return f
        if c == 0:
            return 0
        if f == c:
            return 1
        k = (f, c)
        r = s.cm.get(k)
        if r is None:
            v = min(s.var[f], s.var[c])
            f0, f1 = (s.lo[f], s.hi[f]) if s.var[f] == v else (f, f)
            c0, c1 = (s.lo[c], s.hi[c]) if s.var[c] == v else (c, c)
            if c1 == 0:
                r = s.constrain(f0, c0)
            elif c0 == 0:
                r = s.constrain(f1, c1)
            else:
                # restrict variant: do not introduce variables f does not mention
                if s.var[f] != v:
                    r = s.constrain(f, s.ite(c0, 1, c1))
                else:
                    r = s.node(v, s.constrain(f0, c0), s.constrain(f1, c1))
            s.cm[k] = r
        return r

    def fv(s, n):
        r = s._fv.get(n)
        if r is None:
            r = s.atoms[s.var[n]].fv | s.fv(s.lo[n]) | s.fv(s.hi[n])
            s._fv[n] = r
        return r

    def support(s, n, acc=None, seen=None):
        acc = set() if acc is None else acc
        seen = set() if seen is None else seen
        if n < 2 or n in seen:
            return acc
        seen.add(n)
        acc.add(s.atoms[s.var[n]])
        s.support(s.lo[n], acc, seen)
        s.support(s.hi[n], acc, seen)
        return acc


BD = Bdd()


def B(n):
    return mk('b', n)


TRUE = B(1)
FALSE = B(0)


def bnot(a):
    if a.op != 'b':
        a = as_bool(a)
    return B(BD.ite(a.a[0], 0, 1))


def band(*xs):
    r = 1
    for x in xs:
        r = BD.ite(r, as_bool(x).a[0], 0)
    return B(r)


def bor(*xs):
    r = 0
    for x in xs:
        r = BD.ite(r, 1, as_bool(x).a[0])
    return B(r)


def bite(c, a, b):
    return B(BD.ite(as_bool(c).a[0], as_bool(a).a[0], as_bool(b).a[0]))


def atom(t):
    return B(BD.atom(t))


def constrain(f, c):
    return B(BD.constrain(f.a[0], c.a[0]))


def feasible(*xs):
    return band(*xs) is not FALSE


def as_bool(t):
    if t.op == 'b':
        return t
    if t.op == 'phi':
        r = FALSE
        for g, v in t.a[0]:
            r = bor(r, band(g, as_bool(v)))
        return r
    if t.op == 'int':
        return TRUE if t.a[0] else FALSE
    return atom(mk('truth', t))


# ---------------------------------------------------------------- constructors
def I(n):
    return mk('int', n)


def S(s):
    return mk('cat', (((), mk('lit', s)),)) if s else mk('cat', ())


UNIT = mk('adt', '()', '()', ())


def tup(*xs):
    return mk('adt', 'tuple', 'tuple', tuple((str(i), x) for i, x in enumerate(xs)))


def adt(path, variant, fields):
    return mk('adt', path, variant, tuple(fields))


def Some(x):
    return adt('Option', 'Some', (('0', x),))


NONE = adt('Option', 'None', ())


def Ok(x):
    return adt('Result', 'Ok', (('0', x),))


def Err(x):
    return adt('Result', 'Err', (('0', x),))


ENUMS['Option'] = ['None', 'Some']
ENUMS['Result'] = ['Ok', 'Err']
ENUMS['Ordering'] = ['Less', 'Equal', 'Greater']
ENUMS['ControlFlow'] = ['Continue', 'Break']
ENUMS['BTreeEntry'] = ['Vacant', 'Occupied']
ENUMS['HashEntry'] = ['Occupied', 'Vacant']
ENUMS['Cow'] = ['Borrowed', 'Owned']


def ORD(v):
    return adt('Ordering', v, ())


def opaque(why, *args):
    return mk('opaque', why, tuple(args))


def ext(name, *args):
    return mk('ext', name, tuple(args))


# ---------------------------------------------------------------- linear integers
def lin(c, d):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        t, k = next(iter(d.items()))
        if k == 1:
            return t
    return mk('lin', c, tuple(sorted(((t, k) for t, k in d.items()), key=lambda x: x[0].i)))


def lparts(t):
    if t.op == 'int':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


PHI_LIMIT = 24


def phis(t):
    return t.a[0] if t.op == 'phi' else ((TRUE, t),)


def lift(f, *ts):
    """apply f to every combination of phi alternatives"""
    if not any(t.op == 'phi' for t in ts):
        return f(*ts)
    combos = [(TRUE, ())]
    for t in ts:
        nc = []
        for g, xs in combos:
            for h, v in phis(t):
                k = band(g, h)
                if k is not FALSE:
                    nc.append((k, xs + (v,)))
        combos = nc
        if len(combos) > 200:
            return None
    return mkphi([(g, f(*xs)) for g, xs in combos])


def add(a, b):
    if a.op == 'phi' or b.op == 'phi':
        r = lift(add, a, b)
        if r is not None:
            return r
    if is_real(a) or is_real(b):
        return radd(a, b)
    c1, d1 = lparts(a)
    c2, d2 = lparts(b)
    d = dict(d1)
    for t, k in d2.items():
        d[t] = d.get(t, 0) + k
    return lin(c1 + c2, d)


def mulc(k, a):
    if a.op == 'phi':
        return lift(lambda x: mulc(k, x), a)
    c, d = lparts(a)
    return lin(c * k, {t: k * v for t, v in d.items()})


def neg(a):
    if is_real(a):
        return rmul(real_const(-1), a)
    return mulc(-1, a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.op == 'phi' or b.op == 'phi':
        r = lift(mul, a, b)
        if r is not None:
            return r
    if is_real(a) or is_real(b):
        return rmul(a, b)
    if a.op == 'int':
        return mulc(a.a[0], b)
    if b.op == 'int':
        return mulc(b.a[0], a)
    ca, da = lparts(a)
    cb, db = lparts(b)
    acc = {}
    c = ca * cb

    def put(t, k):
        acc[t] = acc.get(t, 0) + k
    for t, k in da.items():
        if cb:
            put(t, k * cb)
        for u, l in db.items():
            put(mk('mul', tuple(sorted(_factors(t) + _factors(u), key=lambda x: x.i))), k * l)
    if ca:
        for u, l in db.items():
            put(u, l * ca)
    return lin(c, acc)


def _factors(t):
    return t.a[0] if t.op == 'mul' else (t,)


def idiv(a, b):
    if a.op == 'phi' or b.op == 'phi':
        r = lift(idiv, a, b)
        if r is not None:
            return r
    if a.op == 'int' and b.op == 'int' and b.a[0]:
        return I(int(Fraction(a.a[0], b.a[0])))
    if b is I(1):
        return a
    return mk('div', a, b)


def minmax(op, a, b):
    if a.op == 'phi' or b.op == 'phi':
        r = lift(lambda x, y: minmax(op, x, y), a, b)
        if r is not None:
            return r
    if a.op == 'int' and b.op == 'int':
        return I(max(a.a[0], b.a[0]) if op == 'max' else min(a.a[0], b.a[0]))
    xs = set()
    for t in (a, b):
        if t.op == 'lin' and len(t.a[1]) == 1 and t.a[1][0][1] == 1 and t.a[1][0][0].op == op:
            xs |= {add(x, I(t.a[0])) for x in t.a[1][0][0].a[0]}       # k + min(x, y) = min(k + x, k + y)
        else:
            xs |= set(t.a[0]) if t.op == op else {t}
    if len(xs) > 1:
        # x and x + k: the smaller / the larger one
        for x in list(xs):
            for y in list(xs):
                if x is not y and x in xs and y in xs and 'int' not in (x.op, y.op):
                    d = sub(y, x)
                    if d.op == 'int':
                        xs.discard((y if d.a[0] > 0 else x) if op == 'min' else (x if d.a[0] > 0 else y))
        cs = [x for x in xs if x.op == 'int']
        if len(cs) > 1:
            m = (max if op == 'max' else min)(c.a[0] for c in cs)
            xs = {x for x in xs if x.op != 'int'} | {I(m)}
        if I(0) in xs and len(xs) == 2:
            o = [x for x in xs if x is not I(0)][0]
            if nonneg(o):
                return o if op == 'max' else I(0)
    if len(xs) == 1:
        return next(iter(xs))
    return mk(op, tuple(sorted(xs, key=lambda t: t.i)))


def satsub(a, b):
    return sub(a, minmax('min', a, b))


def nonneg(t):
    if t in NONNEG:
        return True
    if t.op == 'int':
        return t.a[0] >= 0
    if t.op == 'agg':
        return t.a[0] == 'count' or (t.a[0] in ('sum', 'max', 'min') and nonneg(t.a[2]))
    if t.op in ('idx', 'len'):
        return True
    if t.op == 'lin':
        return t.a[0] >= 0 and all(k > 0 and nonneg(x) for x, k in t.a[1])
    if t.op == 'mul':
        return all(nonneg(x) for x in t.a[0])
    if t.op == 'div':
        return nonneg(t.a[0]) and nonneg(t.a[1])
    if t.op == 'max':
        return any(nonneg(x) for x in t.a[0])
    if t.op == 'min':
        return all(nonneg(x) for x in t.a[0])
    if t.op == 'phi':
        return all(nonneg(x) for _, x in t.a[0])
    if t.op == 'cast':
        return t.a[0].startswith('u')
    return False


def mark_unsigned(t):
    if t.op in ('int', 'lin', 'phi', 'b'):
        return
    NONNEG.add(t)


# ---------------------------------------------------------------- reals
def is_real(t):
    return t.op == 'real'


def real(d):
    d = {m: c for m, c in d.items() if c != 0}
    return mk('real', tuple(sorted(d.items(), key=lambda mc: [(t.i, e) for t, e in mc[0]])))


def real_const(c):
    return real({(): Fraction(c)})


def to_real(t):
    if t.op == 'phi':
        return lift(to_real, t)
    if is_real(t):
        return t
    c, d = lparts(t)
    r = {(): Fraction(c)} if c else {}
    for x, k in d.items():
        if x.op == 'mul':
            m = {}
            for f in x.a[0]:
                m[f] = m.get(f, 0) + 1
            key = tuple(sorted(m.items(), key=lambda p: p[0].i))
        else:
            key = ((x, 1),)
        r[key] = r.get(key, 0) + Fraction(k)
    return real(r)


def radd(a, b):
    if a.op == 'phi' or b.op == 'phi':
        return lift(radd, a, b)
    a, b = to_real(a), to_real(b)
    d = dict(a.a[0])
    for m, c in b.a[0]:
        d[m] = d.get(m, 0) + c
    return real(d)


def _mmul(m, n):
    d = dict(m)
    for t, e in n:
        d[t] = d.get(t, 0) + e
    return tuple(sorted(((t, e) for t, e in d.items() if e), key=lambda p: p[0].i))


def rmul(a, b):
    if a.op == 'phi' or b.op == 'phi':
        return lift(rmul, a, b)
    a, b = to_real(a), to_real(b)
    d = {}
    for m, c in a.a[0]:
        for n, e in b.a[0]:
            k = _mmul(m, n)
            d[k] = d.get(k, 0) + c * e
    return real(d)


def rdiv(a, b):
    if a.op == 'phi' or b.op == 'phi':
        return lift(rdiv, a, b)
    b = to_real(b)
    if len(b.a[0]) == 1:
        m, c = b.a[0][0]
        inv = real({tuple((t, -e) for t, e in m): 1 / Fraction(c)})
    else:
        inv = real({((b, -1),): Fraction(1)})
    return rmul(a, inv)


# ---------------------------------------------------------------- comparison
def le0(t):
    """condition  t <= 0"""
    if t.op == 'phi':
        return bor(*[band(g, le0(v)) for g, v in t.a[0]])
    if t.op == 'real':
        return atom(mk('rle0', t))
    c, d = lparts(t)
    if not d:
        return TRUE if c <= 0 else FALSE
    for x, k in d.items():
        if x.op in ('max', 'min') and k in (1, -1):
            rest = dict(d)
            del rest[x]
            r = lin(c, rest)
            parts = [le0(add(r, mulc(k, y))) for y in x.a[0]]
            return band(*parts) if (x.op == 'max') == (k == 1) else bor(*parts)
    if len(d) == 1:
        x, k = next(iter(d.items()))
        if k == 1 or k == -1:
            nn = nonneg(x)
            if nn and k == -1 and c <= 0:
                return TRUE
            if nn and k == 1 and c > 0:
                return FALSE
            if nn and k == 1 and c == 0:
                return iszero(x)
            if nn and k == -1 and c == 1:
                return bnot(iszero(x))
    elif all(k > 0 and nonneg(x) for x, k in d.items()) and c == 0:
        return band(*[iszero(x) for x in d])
    elif all(k < 0 and nonneg(x) for x, k in d.items()) and c <= 0:
        return TRUE
    elif all(k > 0 and nonneg(x) for x, k in d.items()) and c > 0:
        return FALSE
    for x, k in d.items():
        if k in (1, -1) and x.op == 'elem' and x.a[0].op == 'range':
            # a counter stays below its bound
            c2, d2 = lparts(add(t, mulc(k, sub(sub(x.a[0].a[1], I(1)), x))))
            if not d2 and k == 1 and c2 <= 0:
                return TRUE
            if not d2 and k == -1 and c2 > 0:
                return FALSE
    lead = min(d, key=lambda x: x.i)
    if d[lead] < 0:
        return bnot(le0(add(I(1), mulc(-1, t)))) if True else None
    return atom(mk('le0', lin(c, d)))


def iszero(x):
    if x.op == 'int':
        return TRUE if x.a[0] == 0 else FALSE
    if x.op == 'agg' and x.a[0] == 'count':
        return bnot(exists(x.a[1]))
    if x.op == 'mul':
        return bor(*[iszero(y) for y in x.a[0]])
    if x.op == 'len':
        return bnot(exists(as_segs(x.a[0])[0][0]))
    return atom(mk('le0', x))


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    if is_real(a) or is_real(b):
        return bnot(le0(sub(b, a)))
    return le0(add(I(1), sub(a, b)))


DOM = {}    # domain key -> ordered list of values


def chain(x, domkey, val, closed=None):
    """x == val over an exclusive finite/lazy domain."""
    order = DOM.setdefault(domkey, list(closed) if closed else [])
    for v in (closed or ()) if closed and len(order) < len(closed) else ():
        if v not in order:
            order.append(v)
    if val not in order:
        order.append(val)
    i = order.index(val)
    last = len(order) - 1 if closed else -1
    r = TRUE
    for j in range(i):
        r = band(r, bnot(atom(mk('ch', x, domkey, order[j]))))
    if i != last:
        r = band(r, atom(mk('ch', x, domkey, order[i])))
    return r


def is_variant(x, path, variant):
    if x.op == 'adt':
        return TRUE if x.a[1] == variant else FALSE
    if x.op == 'phi':
        return bor(*[band(g, is_variant(v, path, variant)) for g, v in x.a[0]])
    if x.op == 'b' or x.op == 'int':
        return FALSE
    names = ENUMS.get(path)
    if names and len(names) == 1:
        return TRUE
    key = path
    return chain(x, ('tag', key), variant, names if names and len(names) <= 12 else None)


def lit_of(t):
    """python str if t is a literal string term"""
    if t.op == 'cat':
        if all(st == () and e.op == 'lit' for st, e in t.a[0]):
            return ''.join(e.a[0] for _, e in t.a[0])
    return None


def eq(a, b):
    if a.op == 'int' and b.op == 'adt':
        a, b = b, a
    if b.op == 'int' and a.op == 'adt' and len(a.a[2]) == 1:
        return eq(a.a[2][0][1], b)
    if a is b:
        return TRUE
    if a.op == 'phi' or b.op == 'phi':
        r = lift(eq, a, b)
        if r is not None:
            return r
    if a.op == 'b' or b.op == 'b':
        a, b = as_bool(a), as_bool(b)
        return bite(a, b, bnot(b))
    if a.op == 'adt' and b.op == 'adt':
        if a.a[1] != b.a[1]:
            return FALSE
        if a.a[0] == b.a[0] and len(a.a[2]) == len(b.a[2]):
            return band(*[eq(x, y) for (_, x), (_, y) in zip(a.a[2], b.a[2])])
    if a.op == 'adt' or b.op == 'adt':
        if b.op == 'adt':
            a, b = b, a
        if a.a[0] in ENUMS:
            t = is_variant(b, a.a[0], a.a[1])
            for f, v in a.a[2]:
                t = band(t, eq(proj(b, f, a.a[1]), v))
            return t
    la, lb = lit_of(a), lit_of(b)
    if la is not None and lb is not None:
        return TRUE if la == lb else FALSE
    if la is not None or lb is not None:
        x, l = (b, la) if la is not None else (a, lb)
        if l == '':
            return iszero(mk('len', x))
        return chain(x, ('s',), l)
    num = {'int', 'lin', 'agg', 'idx', 'len', 'mul', 'div', 'cast', 'max', 'min'}
    if a.op in num or b.op in num or (nonneg(a) and nonneg(b)):
        d = sub(a, b)
        c, parts = lparts(d)
        if not parts:
            return TRUE if c == 0 else FALSE
        if len(parts) == 1:
            x, k = next(iter(parts.items()))
            if abs(k) == 1:
                v = -c * k
                if nonneg(x):
                    if v < 0:
                        return FALSE
                    if v == 0:
                        return iszero(x)
                return chain(x, ('n',), v)
        lead = min(parts, key=lambda x: x.i)
        if parts[lead] < 0:
            d = mulc(-1, d)
        return atom(mk('eq0', d))
    if a.i > b.i:
        a, b = b, a
    return atom(mk('eq', a, b))


# ---------------------------------------------------------------- phi
def mkphi(alts):
    out = []
    idx = {}
    for g, v in alts:
        g = as_bool(g)
        if g is FALSE:
            continue
        for h, w in phis(v):
            k = band(g, h)
            if k is FALSE:
                continue
            if w in idx:
                j = idx[w]
                out[j] = (bor(out[j][0], k), w)
            else:
                idx[w] = len(out)
                out.append((k, w))
    if not out:
        return opaque('nophi')
    if len(out) == 1:
        return out[0][1]
    vals = [v for _, v in out]
    if all(v.op == 'b' for v in vals):
        r = FALSE
        for g, v in out:
            r = bor(r, band(g, v))
        return r
    if all(v.op == 'adt' for v in vals):
        p0 = vals[0].a
        if all(v.a[0] == p0[0] and v.a[1] == p0[1] and [f for f, _ in v.a[2]] == [f for f, _ in p0[2]] for v in vals):
            return adt(p0[0], p0[1], [(f, mkphi([(g, v.a[2][i][1]) for g, v in out]))
                                      for i, (f, _) in enumerate(p0[2])])
    if all(v.op == 'adt' for v in vals) and len({v.a[1] for v in vals}) < len(vals):
        # merge alternatives of the same variant
        groups = {}
        for g, v in out:
            groups.setdefault((v.a[0], v.a[1], tuple(f for f, _ in v.a[2])), []).append((g, v))
        if len(groups) < len(out):
            res = []
            for k, gs in groups.items():
                G = bor(*[g for g, _ in gs])
                if len(gs) == 1:
                    res.append(gs[0])
                else:
                    fs = [(f, mkphi([(constrain(g, G), v.a[2][i][1]) for g, v in gs])) for i, f in enumerate(k[2])]
                    res.append((G, adt(k[0], k[1], fs)))
            out = res
            if len(out) == 1:
                return out[0][1]
            vals = [v for _, v in out]
    if all(v.op == 'seq' for v in vals):
        r = cut_seqs(out) or merge_seqs(out, 'seq')
        if r is not None:
            return r
    if all(v.op == 'cat' for v in vals):
        r = merge_seqs(out, 'cat')
        if r is not None:
            return r
    if len(out) == 2 and vals[0].op != 'adt' and vals[1].op != 'adt':
        (g, x), (_, y) = out
        r = as_minmax(g, x, y)
        if r is not None:
            return r
    out.sort(key=lambda gv: gv[1].i)
    return mk('phi', tuple(out))


def as_minmax(g, x, y):
    if x.op in ('real', 'seq', 'cat', 'ptr', 'clo') or y.op in ('real', 'seq', 'cat', 'ptr', 'clo'):
        return None
    if x.op == 'b' or y.op == 'b':
        return None
    s = BD.support(g.a[0])
    if len(s) != 1 or next(iter(s)).op != 'le0':
        return None
    # g: x<=y / x<y  -> min ; g: x>=y / x>y -> max
    if g is le(x, y) or g is lt(x, y):
        return minmax('min', x, y)
    if g is le(y, x) or g is lt(y, x):
        return minmax('max', x, y)
    return None


def cut_seqs(alts):
    """sequences cut only where they are longer: cut either way"""
    if len(alts) != 2:
        return None
    for (g, x), (h, y) in (alts, alts[::-1]):
        if len(x.a[0]) != 1 or len(y.a[0]) > 1:
            continue
        st, e = x.a[0][0]
        if not st or st[-1][0] not in ('take', 'skip'):
            continue
        if st[-1][0] == 'take' and not (y.a[0] and y.a[0][0] == (st[:-1], e)) or st[-1][0] == 'skip' and y.a[0]:
            continue
        n, c = st[-1][1], count(st[:-1])
        if g is lt(n, c) or g is le(n, c):
            return x
    return None


def merge_seqs(alts, op):
    """phi of sequences with a common prefix -> one sequence with conditional segments"""
    segss = [v.a[0] for _, v in alts]
    n = 0
    while all(len(s) > n for s in segss) and all(s[n] == segss[0][n] for s in segss):
        n += 1
    pre = segss[0][:n]
    tails = [(g, s[n:]) for (g, _), s in zip(alts, segss)]
    # common suffix
    m = 0
    while all(len(t) > m for _, t in tails) and all(t[len(t) - 1 - m] == tails[0][1][len(tails[0][1]) - 1 - m] for _, t in tails):
        m += 1
    suf = tails[0][1][len(tails[0][1]) - m:] if m else ()
    mids = [(g, t[:len(t) - m]) for g, t in tails]
    if op == 'cat' and not (pre or suf) and all(mids):
        nonempty = [1 for _, t in mids if t]
        if len(nonempty) > 1:
            return None
    if op == 'cat' and sum(1 for _, t in mids if t) > 1:
        return None
    res = list(pre)
    for g, t in mids:
        for st, e in t:
            if g is TRUE:
                res.append((st, e))
            elif st and st[0][0] == 'if':
                res.append(((('if', band(g, st[0][1])),) + st[1:], e))
            else:
                res.append(((('if', g),) + st, e))
    res += list(suf)
    return mk_seq(res) if op == 'seq' else mk_cat(res)


# ---------------------------------------------------------------- sequences
def positional(out, g):
    """a condition on how many elements came before is a cut: stages equivalent to ('if', g) after `out`"""
    if not out or g.op != 'b':
        return None
    ix = None
    for at in BD.support(g.a[0]):
        if at.op != 'le0':
            continue
        for x in lparts(at.a[0])[1]:
            if x.op == 'idx' and x.a[0] == tuple(out):
                ix = x
        if ix is not None:
            break
    if ix is None:
        return None
    c, d = lparts(at.a[0])
    A = atom(at)
    for neg_ in (False, True):
        V = bnot(A) if neg_ else A
        for k in (0, 1, -1):
            n = add(I(k), sub(ix, at.a[0]) if d[ix] == 1 else add(ix, at.a[0]))
            if n.op == 'int' or ix in n.fv or n.fv & bound_vars(out):
                continue
            if V is le(n, ix):
                on, off = (V, 'skip'), (bnot(V), 'take')
                for lit, w in (on, off):
                    if band(g, bnot(lit)) is FALSE:
                        rest = restrict(g, lit)
                        return ((w, n),) + ((('if', rest),) if rest is not TRUE else ())
                return None
    return None


def norm_stages(stages):
    out = []
    for pos, s in enumerate(stages):
        k = s[0]
        if k == 'if':
            if s[1] is TRUE:
                continue
            cut = positional(out, s[1])
            if cut is not None:
                return norm_stages(tuple(out) + cut + tuple(stages[pos + 1:]))
            i = len(out)
            while i and out[i - 1][0] in ('order', 'rev', 'hash'):      # filtering commutes with reordering
                i -= 1
            if i and out[i - 1][0] == 'if':
                out[i - 1] = ('if', band(out[i - 1][1], s[1]))
            else:
                out.insert(i, s)
            continue
        elif k == 'while':
            if s[1] is TRUE:
                continue
            cut = positional(out, s[1])
            if cut is not None and cut[0][0] == 'take':      # while fewer than n came before: the first n
                return norm_stages(tuple(out) + (cut[0],) + tuple(('while', x[1]) for x in cut[1:]) + tuple(stages[pos + 1:]))
        elif k == 'uniq' and len(s) == 1:
            i = len(out)
            while i and out[i - 1][0] in ('if', 'hash', 'order', 'rev'):
                i -= 1
            if i and out[i - 1] == ('uniq',):
                continue
        elif k == 'take' and s[1].op == 'phi' and any(v is I(0) for _, v in s[1].a[0]) and all(x[0] != 'order' or x[2] for x in out):
            G = bor(*[g for g, v in s[1].a[0] if v is not I(0)])
            n = mkphi([(constrain(g, G), v) for g, v in s[1].a[0] if v is not I(0)])
            if not (G.fv & bound_vars(out)):
                return norm_stages((('if', G),) + tuple(out) + (('take', n),) + tuple(stages[pos + 1:]))
        elif k == 'take' and out and out[-1][0] == 'take':
            out[-1] = ('take', minmax('min', out[-1][1], s[1]))
            continue
        elif k == 'skip':
            if s[1] is I(0):
                continue
            if out and out[-1][0] == 'skip':
                out[-1] = ('skip', add(out[-1][1], s[1]))
                continue
        elif k == 'rev':
            if out and out[-1][0] == 'rev':
                out.pop()
                continue
            if out and out[-1][0] == 'order':
                # reversing a sorted sequence (stability aside)
                o = out.pop()
                out.append(('order', flip_keys(o[1]), False))
                continue
        elif k == 'order':
            if tells_apart(out, s):         # what order they had before does not matter
                while out[-1][0] in ('order', 'rev', 'hash'):
                    out.pop()
            s = norm_order(out, s)
            if s is None:
                continue
            if out and out[-1][0] == 'order' and not s[2]:
                out.pop()
            elif out and out[-1][0] == 'order' and s[2]:
                o = out.pop()
                s = ('order', join_keys(s[1], o[1]), o[2])
        if k == 'take':
            # take(min(n, count(prefix))) == take(n)
            if s[1].op == 'min':
                pre = tuple(out)
                c = count(pre)
                xs = [x for x in s[1].a[0] if x is not c]
                if len(xs) < len(s[1].a[0]) and xs:
                    r = xs[0]
                    for x in xs[1:]:
                        r = minmax('min', r, x)
                    s = ('take', r)
            elif s[1] is count(tuple(out)):
                continue
        if k == 'skip' and s[1].op == 'min':
            c = count(tuple(out))
            xs = [x for x in s[1].a[0] if x is not c]
            if len(xs) < len(s[1].a[0]) and xs:
                r = xs[0]
                for x in xs[1:]:
                    r = minmax('min', r, x)
                s = ('skip', r)
        if k == 'if' and out:
            pass
        out.append(s)
    return tuple(out)


def tells_apart(out, s):
    """the sort keys include the key of the one map whose entries these are"""
    fs = [x for x in out if x[0] == 'for']
    if len(fs) != 1 or s[1].op != 'keys' or out[-1][0] not in ('order', 'rev', 'hash'):
        return False
    v, X = fs[0][1], fs[0][2]
    return (X in MAPS or X.op == 'group') and any(k is mk('key', v) for k, _ in s[1].a[0])


def norm_order(out, s):
    """sort keys that do not depend on the element are no keys; a final key that is the map key is the base order"""
    K = s[1]
    if K.op != 'keys':
        return s
    vs = {x[1] for x in out if x[0] == 'for'}
    if not vs:
        return s
    ks = [kd for kd in K.a[0] if kd[0].fv & vs]
    stable = s[2]
    for i, kd in enumerate(ks):
        if vs == {kd[0]}:       # ranked by the element itself: ties are the same value
            stable = True
            del ks[i + 1:]
            break
    fs = [x for x in out if x[0] != 'if']
    if len(fs) == 1 and fs[0][0] == 'for' and (fs[0][2] in MAPS or fs[0][2].op == 'group' and fs[0][2].a[0].startswith('BTree')):
        k = mk('key', fs[0][1])
        if ks and ks[-1][0] is k:
            stable = True
            if ks[-1][1] is ASC:
                ks.pop()
    if not ks and stable:
        return None
    return ('order', mk('keys', tuple(ks)), stable)


def flip_keys(K):
    if K.op == 'phi':
        return mkphi([(g, flip_keys(k)) for g, k in K.a[0]])
    if K.op != 'keys':
        return mk('flip', K)
    return mk('keys', tuple((t, flip(d)) for t, d in K.a[0]))


def flip(d):
    if d.op == 'phi':
        return mkphi([(g, flip(x)) for g, x in d.a[0]])
    return {'asc': DESC, 'desc': ASC}.get(d.op) or mk('flip', d)


ASC = mk('asc')
DESC = mk('desc')


def join_keys(a, b):
    if a.op == 'phi' or b.op == 'phi':
        return lift(join_keys, a, b)
    if a.op != 'keys' or b.op != 'keys':
        return mk('joinkeys', a, b)
    ks = list(a.a[0])
    for kd in b.a[0]:
        if all(kd[0] is not x[0] for x in ks):
            ks.append(kd)
    return mk('keys', tuple(ks))


def dead(stages):
    return any((s[0] == 'if' and s[1] is FALSE) or (s[0] == 'take' and s[1] is I(0)) for s in stages)


def mk_seq(segs):
    out = []
    for st, e in segs:
        st = norm_stages(st)
        if dead(st):
            continue
        if e.op == 'spread':          # splice
            st2 = st
            for s3, e3 in as_segs(e.a[0]):
                out.append((norm_stages(st2 + s3), e3))
            continue
        out.append((st, e))
    if len(out) == 1:
        st, e = out[0]
        if len(st) == 1 and st[0][0] == 'for' and (st[0][1] is e or (e.op == 'adt' and e is map_elem(st[0][1]))):
            return st[0][2]
        if st == () and e.op == 'rest':
            return e.a[0]
    return mk('seq', tuple(out))


SEQ0 = mk('seq', ())


def map_elem(v):
    return tup(mk('key', v), mk('val', v))


def elem(X, n=0):
    return mk('elem', X, n)


MAPS = set()    # uninterpreted terms known to be maps
SETS = set()    # … sorted sets
SORTED = set()  # … maps walked in the order of their keys
SETVALS = set()  # … maps whose values are sorted sets
IDKEYED = set()  # … maps whose values carry their key as `id`


def as_segs(X):
    if X.op == 'seq':
        return X.a[0]
    if X.op == 'phi':
        segs = []
        for g, v in X.a[0]:
            for st, e in as_segs(v):
                segs.append(((('if', g),) + st, e))
        return tuple(segs)
    if X.op == 'adt' and X.a[0] == 'Option':
        return (((), X.a[2][0][1]),) if X.a[1] == 'Some' else ()
    if X.op == 'map0':
        return ()
    if X.op == 'get':
        return (((('if', is_variant(X, 'Option', 'Some')),), proj(X, '0', 'Some')),)
    v = elem(X)
    if X.op == 'group':
        val = replace(X.a[3], GKEY, mk('key', v))
        st = (('for', v, X),)
        if X.a[0].startswith('Hash'):
            st += (('hash',),)
        return ((st, tup(mk('key', v), val)),)
    if X.op == 'mapof':
        out = []
        for st, e in as_segs(X.a[1]):
            k = proj(e, '0')
            st = st + ((('hash',),) if X.a[0].startswith('Hash') else (('order', mk('keys', ((k, ASC),)), False),)) + (('uniq', k),)
            out.append((st, e))
        return tuple(out)
    if X in MAPS:
        return (((('for', v, X),), map_elem(v)),)
    return (((('for', v, X),), v),)


GKEY = mk('gkey')


def replace(t, old, new):
    return Mapper(lambda x: new if x is old else None).t(t)


def concat(a, b):
    if a is SEQ0:
        return b
    if b is SEQ0:
        return a
    return mk_seq(as_segs(a) + as_segs(b))


def push(a, x):
    return mk_seq(as_segs(a) + (((), x),)) if a is not SEQ0 else mk_seq([((), x)])


def seq_map(X, f):
    return mk_seq([(st, f(e)) for st, e in as_segs(X)])


def add_stage(X, *stages):
    segs = as_segs(X)
    if len(segs) == 1:
        st, e = segs[0]
        return mk_seq([(st + tuple(stages), e)])
    if not segs:
        return SEQ0
    if all(s[0] == 'if' for s in stages):
        return mk_seq([(st + tuple(stages), e) for st, e in segs])
    # stage over a concatenation: one bound variable over the whole
    Y = mk('whole', X)
    v = elem(Y)
    return mk_seq([((('for', v, Y),) + tuple(subst_any(s, {X: v}) for s in stages), v)])


def together(X):
    """a concatenation as one piece, for use under a loop: its pieces stay together in each round"""
    if len(as_segs(X)) < 2:
        return X
    Y = mk('whole', X if X.op == 'seq' else mk('seq', tuple(as_segs(X))))
    v = elem(Y)
    return mk_seq([((('for', v, Y),), v)])


def strip_order(stages):
    """drop ordering stages that cannot matter for order-insensitive aggregates"""
    last = -1
    for i, s in enumerate(stages):
        if s[0] in ('take', 'skip', 'until', 'while', 'uniqadj'):
            last = i
    return tuple(s for i, s in enumerate(stages) if i <= last or s[0] not in ('order', 'rev', 'hash'))


def is_for(stages):
    return any(s[0] == 'for' for s in stages)


def guard_of(stages):
    r = TRUE
    for s in stages:
        if s[0] == 'if':
            r = band(r, s[1])
    return r


def count(stages):
    stages = strip_order(norm_stages(stages))
    if not is_for(stages):
        if any(s[0] not in ('if',) for s in stages):
            return mk('agg', 'count', stages, None)
        return mkphi([(guard_of(stages), I(1)), (bnot(guard_of(stages)), I(0))])
    if dead(stages):
        return I(0)
    if stages[-1][0] == 'take':
        return minmax('min', stages[-1][1], count(stages[:-1]))
    if stages[-1][0] == 'skip':
        return satsub(count(stages[:-1]), stages[-1][1])
    stages, pre = split_guard(stages)
    t = mk('agg', 'count', stages, None)
    if len(stages) == 1 and stages[0][0] == 'for' and stages[0][2].op == 'range':
        lo, hi = stages[0][2].a
        t = satsub(hi, lo)
    if pre is not TRUE:
        return mkphi([(pre, t), (bnot(pre), I(0))])
    return t


def split_guard(stages):
    """leading loop-invariant guards moved out"""
    pre = TRUE
    i = 0
    while i < len(stages) and stages[i][0] == 'if':
        pre = band(pre, stages[i][1])
        i += 1
    return stages[i:], pre


def exists(stages):
    stages = strip_order(norm_stages(stages))
    if dead(stages):
        return FALSE
    stages, pre = split_guard(stages)
    if not stages:
        return pre
    last = stages[-1]
    if last[0] == 'take':
        return band(pre, exists(stages[:-1]), lt(I(0), last[1]))
    if last[0] == 'skip':
        if skip_while(stages) is not None:
            return band(pre, exists(skip_while(stages)))
        return band(pre, lt(last[1], count(stages[:-1])))
    if len(stages) == 1 and last[0] == 'for' and last[2].op == 'range':
        return band(pre, lt(last[2].a[0], last[2].a[1]))
    if len(stages) == 2 and stages[0][0] == 'for' and last[0] == 'if' and last[1].op == 'b' and stages[0][2].op in ('param', 'proj'):
        # some element equals x: x is among them
        n, v = last[1].a[0], stages[0][1]
        if n > 1 and BD.lo[n] == 0 and BD.hi[n] == 1:
            q = BD.atoms[BD.var[n]]
            if q.op == 'eq' and v in q.a and q.a[0] is not q.a[1]:
                o = q.a[0] if q.a[1] is v else q.a[1]
                if v not in o.fv and stages[0][2] not in MAPS:
                    return band(pre, set_has(stages[0][2], o))
    x = mk('agg', 'exists', stages, None)
    for v in x.fv:
        # every key of a grouping has at least one element behind it
        if v.op == 'elem' and v.a[0].op == 'group':
            G = v.a[0]
            if stages == strip_order(norm_stages(G.a[1] + (('if', eq(G.a[2], mk('key', v))),))):
                return pre
    return band(pre, atom(x))


def length(X):
    if X.op == 'cat':
        l = lit_of(X)
        if l is not None:
            return I(len(l.encode()))
        return mk('len', X)
    if X.op == 'phi':
        return lift(length, X)
    r = I(0)
    for st, e in as_segs(X):
        r = add(r, count(st))
    if r.op == 'phi' and len(r.a[0]) == 2:
        # what decides the alternatives decides the minima in them
        import canon
        r = mkphi([(g, canon.settle(g, v)) for g, v in r.a[0]])
    return r


def nonempty(X):
    if X.op == 'cat':
        l = lit_of(X)
        if l is not None:
            return TRUE if l else FALSE
        return bnot(iszero(mk('len', X)))
    return bor(*[exists(st) for st, e in as_segs(X)]) if as_segs(X) else FALSE


def asum(stages, body):
    full = norm_stages(stages)
    stages = strip_order(full)
    if dead(stages):
        return I(0)
    if body.op == 'phi':
        r = None
        for g, v in body.a[0]:
            x = asum(full + (('if', g),), v)
            r = x if r is None else add(r, x)
        return r
    stages, pre = split_guard(stages)
    if pre is not TRUE:
        x = asum(stages, body)
        z = real_const(0) if is_real(body) else I(0)
        return mkphi([(pre, x), (bnot(pre), z)])
    if not stages:
        return body
    bv = bound_vars(stages)
    if is_real(body):
        r = real_const(0)
        for m, c in body.a[0]:
            inv = tuple((t, e) for t, e in m if not (t.fv & bv))
            dep = tuple((t, e) for t, e in m if t.fv & bv)
            if not dep:
                s = to_real(count(stages))
            elif len(dep) == 1 and dep[0][1] == 1:
                s = to_real(asum(stages, dep[0][0]))
            else:
                s = to_real(mk('agg', 'sum', stages, real({dep: Fraction(1)})))
            r = radd(r, rmul(real({inv: c}), s))
        return r
    if stages[-1][0] == 'skip':
        return sub(asum(stages[:-1], body), asum(stages[:-1] + (('take', stages[-1][1]),), body))
    c, d = lparts(body)
    if not d:
        return mulc(c, count(stages)) if c else I(0)
    r = mulc(c, count(stages)) if c else I(0)
    for t, k in d.items():
        if not (t.fv & bv):
            r = add(r, mulc(k, mul(t, count(stages))))
        else:
            r = add(r, mulc(k, mk('agg', 'sum', stages, t)))
    return r


def seq_sum(X, real_=False):
    r = real_const(0) if real_ else I(0)
    for st, e in as_segs(X):
        r = add(r, asum(st, e))
    return r


def agg_minmax(kind, stages, body):
    stages = strip_order(norm_stages(stages))
    return mk('agg', kind, stages, body)


def skip_while(stages):
    """what is left after leaving out the leading ones that meet c starts with the first that does not"""
    n = stages[-1][1]
    if n.op == 'agg' and n.a[0] == 'count' and n.a[1] and n.a[1][-1][0] == 'while' and n.a[1][:-1] == stages[:-1]:
        return stages[:-1] + (('if', bnot(n.a[1][-1][1])),)
    return None


def first(stages, e):
    stages = norm_stages(stages)
    if not stages:
        return e
    if all(s[0] == 'if' for s in stages):
        return e
    if e.op == 'adt':
        return adt(e.a[0], e.a[1], [(f, first(stages, x)) for f, x in e.a[2]])
    bv = bound_vars(stages)
    if not (e.fv & bv):
        return e
    if stages[-1][0] == 'skip' and skip_while(stages) is not None:
        return first(skip_while(stages), e)
    if stages[-1][0] == "order" and (nonneg(e) or e.op in ("int", "lin", "agg", "cast")):
        k, d = stages[-1][1].a[0][0]
        if k is e and d.op in ('asc', 'desc'):      # the first in order of what is asked for
            return agg_minmax('max' if d.op == 'desc' else 'min', stages[:-1], e)
    if e.op == 'proj':
        return proj(first(stages, e.a[0]), e.a[1], e.a[2])
    return mk('first', 'first', stages, e)


# ---------------------------------------------------------------- strings
def mk_cat(segs):
    out = []
    for st, e in segs:
        st = norm_stages(st)
        if dead(st):
            continue
        if e.op == 'cat':
            if st == ():
                for s2, e2 in e.a[0]:
                    _cat_push(out, s2, e2)
                continue
            if len(e.a[0]) == 1:
                s2, e2 = e.a[0][0]
                _cat_push(out, norm_stages(st + s2), e2)
                continue
            if not e.a[0]:
                continue
        if e.op == 'show' and e.a[0].op == 'cat' and e.a[1] == '{}':
            for s2, e2 in e.a[0].a[0]:
                _cat_push(out, norm_stages(st + s2), e2)
            continue
        _cat_push(out, st, e)
    if len(out) == 1 and out[0][0] == () and out[0][1].op == 'str':
        return out[0][1].a[0]
    return mk('cat', tuple(out))


def _cat_push(out, st, e):
    if e.op == 'lit' and st == ():
        if e.a[0] == '':
            return
        if out and out[-1][0] == () and out[-1][1].op == 'lit':
            out[-1] = ((), mk('lit', out[-1][1].a[0] + e.a[0]))
            return
    out.append((st, e))


def piece(t):
    """a string-valued term as a piece of a concatenation"""
    if t.op == 'cat':
        return t
    return mk('str', t)


def cat(*ts):
    return mk_cat([((), piece(t)) for t in ts])


def to_str(t, spec='{}'):
    """Display/Debug formatting of t"""
    if spec == '{}':
        if t.op == 'cat':
            return t
        if t.op == 'phi' and any(v.op == 'cat' for _, v in t.a[0]):
            return t
        if t.op == 'phi':
            return mkphi([(g, to_str(v, spec)) for g, v in t.a[0]])
        if t.op == 'int':
            return S(str(t.a[0]))
        if t.op == 'char':
            return S(t.a[0])
    return mk_cat([((), mk('show', t, spec))])


# ---------------------------------------------------------------- projections
def proj(t, f, variant=None):
    if t.op == 'entry':
        return t
    if t.op == 'adt':
        for n, x in t.a[2]:
            if n == f:
                if variant is None or t.a[1] == variant:
                    return x
        if variant is not None and t.a[1] != variant:
            return mk('bottom', t.a[1], f)
        return mk('proj', t, f, variant)
    if t.op == 'phi':
        alts = []
        for g, v in t.a[0]:
            if variant is not None and v.op == 'adt' and v.a[1] != variant:
                continue
            alts.append((g, proj(v, f, variant)))
        if not alts:
            return mk('bottom', 'phi', f)
        G = bor(*[g for g, _ in alts])
        return mkphi([(constrain(g, G), v) for g, v in alts])
    if t.op == 'opaque':
        return t
    if t.op == 'upd':
        for n, x in t.a[1]:
            if n == f:
                return x
        return proj(t.a[0], f, variant)
    if t.op == 'get' and f == '0' and variant == 'Some':
        return mk('at', t.a[0], t.a[1])
    if t.op == 'first' and t.a[2].op == 'x':
        return t
    return mk('proj', t, f, variant)


def with_field(t, f, variant, v):
    if t.op == 'adt':
        fs = list(t.a[2])
        for i, (n, x) in enumerate(fs):
            if n == f:
                fs[i] = (n, v)
                return adt(t.a[0], t.a[1], fs)
        return adt(t.a[0], t.a[1], fs + [(f, v)])
    if t.op == 'phi':
        return mkphi([(g, with_field(x, f, variant, v) if not (variant and x.op == 'adt' and x.a[1] != variant) else x)
                      for g, x in t.a[0]])
    if t.op == 'upd':
        base, fs = t.a
        d = dict(fs)
        d[f] = v
    else:
        base, d = t, {f: v}
    return mk('upd', base, tuple(sorted(d.items(), key=lambda p: str(p[0]))))


def proj_any(t, f, variant=None):
    if t.op == 'upd':
        for n, x in t.a[1]:
            if n == f:
                return x
        return proj_any(t.a[0], f, variant)
    return proj(t, f, variant)


def map_get(M, k):
    """Option: lookup of k in map M"""
    if M.op == 'phi':
        return mkphi([(g, map_get(v, k)) for g, v in M.a[0]])
    if M.op == 'map0':
        return NONE
    if M.op == 'mapput':
        c = eq(k, M.a[1])
        if c is TRUE:
            return Some(M.a[2])
        if c is FALSE:
            return map_get(M.a[0], k)
        return mkphi([(c, Some(M.a[2])), (bnot(c), map_get(M.a[0], k))])
    if k.op == 'key' and k.a[0].a[0] is M:
        return Some(mk('val', k.a[0]))
    if k.op == 'proj' and k.a[1] == 'id' and k.a[0].op == 'val' and k.a[0].a[0].op == 'elem' and k.a[0].a[0].a[0] is M:
        return Some(k.a[0])
    if k.op == 'phi':
        return mkphi([(g, map_get(M, v)) for g, v in k.a[0]])
    return mk('get', M, k)


def map_at(M, k):
    return proj(map_get(M, k), '0', 'Some')


def contains_key(M, k):
    return is_variant(map_get(M, k), 'Option', 'Some')


def set_has(X, x):
    """membership of x in the collection X"""
    if X.op == 'phi':
        return bor(*[band(g, set_has(v, x)) for g, v in X.a[0]])
    if X is SEQ0 or X.op == 'map0':
        return FALSE
    if X.op == 'seq' and all(not is_for(st) and all(s[0] == 'if' for s in st) for st, _ in X.a[0]):
        return bor(*[band(guard_of(st), eq(e, x)) for st, e in X.a[0]])
    if X.op == 'setput':
        return bor(eq(X.a[1], x), set_has(X.a[0], x))
    X = unorder(X)
    return atom(mk('has', X, x))


def unorder(X):
    if X.op == 'seq':
        segs = []
        for st, e in X.a[0]:
            st2 = tuple(s for s in strip_order(st) if s[0] != 'uniq' or True)
            while st2 and st2[-1][0] == 'uniq':
                st2 = st2[:-1]
            segs.append((st2, e))
        return mk_seq(segs)
    return X


def by_variant(X):
    """a sequence whose every part depends on which variant one and the same value is: the sequence of each variant"""
    segs = X.a[0]
    if len(segs) < 2 or not all(st and st[0][0] == 'if' for st, _ in segs):
        return None
    common = None
    for st, _ in segs:
        s = {a.a[:2] for a in BD.support(st[0][1].a[0]) if a.op == 'ch' and isinstance(a.a[1], tuple)}
        common = s if common is None else common & s
    for x, key in sorted(common, key=lambda c: c[0].i):
        if key[0] != 'tag' or key not in DOM:
            continue
        names = ENUMS.get(key[1])
        closed = names and len(names) <= 12
        alts, rest = [], TRUE
        for v in DOM[key]:
            c = is_variant(x, key[1], v)
            alts.append(c)
            rest = band(rest, bnot(c))
        if not closed:
            alts.append(rest)
        out = []
        for c in alts:
            part = []
            for st, e in segs:
                if band(st[0][1], c) is not FALSE:
                    g = constrain(st[0][1], c)
                    part.append((((('if', g),) if g is not TRUE else ()) + st[1:], e))
            out.append((c, mk_seq(part) if part else SEQ0))
        if all(len(s.a[0]) < len(segs) for _, s in out):
            return out
    return None


def index(X, i):
    if X.op == 'phi':
        return mkphi([(g, index(v, i)) for g, v in X.a[0]])
    if X.op == 'seq':
        alts = by_variant(X)
        if alts is not None:
            return mkphi([(g, index(v, i)) for g, v in alts])
    if i.op == 'phi':
        return mkphi([(g, index(X, v)) for g, v in i.a[0]])
    if X.op == 'seq':
        segs = X.a[0]
        if i.op == 'int' and all(st == () for st, _ in segs) and 0 <= i.a[0] < len(segs):
            return segs[i.a[0]][1]
        if len(segs) == 1 and i.op == 'idx' and len(i.a) == 1:
            st, e = segs[0]
            if i.a[0] == st:
                return e
        if len(segs) == 1 and i.op == 'elem' and i.a[0].op == 'range' and i.a[0].a[0] is I(0):
            # one element per round of a counted loop, asked for by a counter of the same length
            st, e = segs[0]
            if len(st) == 1 and st[0][0] == 'for' and st[0][2] is i.a[0]:
                return subst(e, {st[0][1]: i})
        if i is I(0) and len(segs) == 1:
            return first(segs[0][0], segs[0][1])
    if i.op == 'idx' and i.a[0] == ((('for', elem(X), X)),):
        return elem(X)
    if i.op == 'idx' and len(i.a[0]) == 1 and i.a[0][0][0] == 'for' and i.a[0][0][2] is X:
        return i.a[0][0][1]
    if i.op == 'idx' and X.op == 'seq':
        INDEX_LOG.append((X, i))
    return mk('index', X, i)


INDEX_LOG = []


# ---------------------------------------------------------------- generic rebuild / substitution
def rebuild(op, a):
    if op == 'lin':
        r = I(a[0])
        for t, k in a[1]:
            r = add(r, mulc(k, t))
        return r
    if op == 'real':
        r = real_const(0)
        for m, c in a[0]:
            x = real_const(c)
            for t, e in m:
                y = to_real(t)
                for _ in range(abs(e)):
                    x = rmul(x, y) if e > 0 else rdiv(x, y)
            r = radd(r, x)
        return r
    if op == 'phi':
        return mkphi(a[0])
    if op == 'cases':
        alts = tuple(p for p in a[0] if p[0] is not FALSE)
        return alts[0][1] if len(alts) == 1 and alts[0][0] is TRUE else mk('cases', alts)
    if op == 'mul':
        r = I(1)
        for x in a[0]:
            r = mul(r, x)
        return r
    if op == 'div':
        return idiv(*a)
    if op in ('max', 'min'):
        r = a[0][0]
        for x in a[0][1:]:
            r = minmax(op, r, x)
        return r
    if op == 'seq':
        return mk_seq(a[0])
    if op == 'cat':
        return mk_cat(a[0])
    if op == 'show':
        if a[1] == '{}' and a[0].op in ('cat', 'int', 'char'):
            return to_str(*a)
        return mk('show', *a)
    if op == 'str':
        return a[0] if a[0].op == 'cat' else mk('str', a[0])
    if op == 'agg':
        if a[0] == 'sum':
            return asum(a[1], a[2])
        if a[0] == 'count':
            return count(a[1])
        return mk('agg', *a)
    if op == 'first':
        return first(a[1], a[2])
    if op == 'proj':
        return proj_any(a[0], a[1], a[2])
    if op == 'get':
        return map_get(a[0], a[1])
    if op == 'at':
        return map_at(a[0], a[1])
    if op == 'index':
        return index(a[0], a[1])
    if op == 'len':
        return length(a[0])
    if op == 'key' or op == 'val':
        x = a[0]
        if x.op == 'adt' and x.a[0] == 'tuple':
            return x.a[2][0 if op == 'key' else 1][1]
        return mk(op, *a)
    return mk(op, *a)


def rebuild_atom(t):
    """condition for an atom term whose parts were rebuilt"""
    op, a = t.op, t.a
    if op == 'le0':
        return le0(a[0])
    if op == 'ch':
        x, key, val = a
        if key[0] == 'tag':
            return is_variant_raw(x, key, val)
        if key[0] == 's':
            return eq(x, S(val))
        return eq(x, I(val))
    if op == 'eq':
        return eq(a[0], a[1])
    if op == 'eq0':
        return eq(a[0], I(0))
    if op == 'truth':
        return as_bool(a[0])
    if op == 'has':
        return set_has(a[0], a[1])
    if op == 'agg' and a[0] == 'exists':
        return exists(a[1])
    return atom(t)


def is_variant_raw(x, key, val):
    if x.op == 'adt':
        return TRUE if x.a[1] == val else FALSE
    if x.op == 'phi':
        return bor(*[band(g, is_variant_raw(v, key, val)) for g, v in x.a[0]])
    return atom(mk('ch', x, key, val))


class Mapper:
    """bottom-up rewriting with memo; leaf(t) returns a replacement or None"""

    def __init__(s, leaf, need=None, pre=None):
        s.leaf = leaf
        s.need = need
        s.pre = pre
        s.memo = {}
        s.bm = {}

    def t(s, t):
        if s.need is not None and not s.need(t):
            return t
        r = s.memo.get(t)
        if r is not None:
            return r
        r = s.leaf(t)
        if r is None:
            if t.op == 'b':
                r = B(s.bdd(t.a[0]))
            elif t.op == 'adt':
                r = adt(t.a[0], t.a[1], [(f, s.t(x)) for f, x in t.a[2]])
            else:
                a = tuple(s.any(x) for x in t.a)
                r = t if a == t.a else rebuild(t.op, a)
            if s.pre is not None:
                r = s.pre(r)
        s.memo[t] = r
        return r

    def any(s, x):
        if isinstance(x, T):
            return s.t(x)
        if isinstance(x, tuple):
            return tuple(s.any(y) for y in x)
        return x

    def bdd(s, n):
        if n < 2:
            return n
        r = s.bm.get(n)
        if r is None:
            at = BD.atoms[BD.var[n]]
            if s.need is not None and not s.need(at):
                c = BD.node(BD.var[n], 0, 1)
            else:
                rep = s.leaf(at)
                if rep is not None:
                    c = as_bool(rep).a[0]
                else:
                    a = tuple(s.any(x) for x in at.a)
                    c = BD.node(BD.var[n], 0, 1) if a == at.a else rebuild_atom(mk(at.op, *a)).a[0]
            r = BD.ite(c, s.bdd(BD.hi[n]), s.bdd(BD.lo[n]))
            s.bm[n] = r
        return r


def subst(t, m):
    """capture-respecting substitution of variables (elem / mu terms)"""
    if not m:
        return t
    keys = frozenset(m)
    if not (t.fv & keys):
        return t

    def leaf(x):
        if x in m:
            return m[x]
        if x.op in ('seq', 'cat'):
            segs = tuple(_sub_seg(st, e, m) for st, e in x.a[0])
            return mk_seq(segs) if x.op == 'seq' else mk_cat(segs)
        if x.op in ('agg', 'first'):
            st, e = _sub_seg(x.a[1], x.a[2], m)
            return rebuild(x.op, (x.a[0], st, e))
        return None
    # atoms of kind agg are handled through rebuild_atom
    mp = Mapper(leaf, lambda x: bool(x.fv & keys))

    def bleaf(at):
        if at.op == 'agg':
            st, e = _sub_seg(at.a[1], at.a[2], m)
            return exists(st)
        return None
    old = mp.bdd

    def leaf2(x):
        if x.op == 'agg' and x.a[0] == 'exists':
            return bleaf(x)
        return leaf(x)
    mp.leaf = leaf2
    return mp.t(t)


def _sub_seg(stages, e, m):
    bv = bound_vars(stages)
    inner = {k: v for k, v in m.items() if k not in bv}
    if not inner:
        # only the sources can mention outer variables of the same name: none
        return stages, e
    out = []
    ren = dict(inner)
    for s in stages:
        if s[0] == 'for':
            src = subst(s[2], ren)
            var = s[1]
            if src is not s[2]:
                nv = mk('elem', src, var.a[1])
                if src.op in ('seq', 'adt', 'phi') or var.op != 'elem':
                    # source became known: open it
                    segs = as_segs(src)
                    if len(segs) == 1:
                        out.extend(segs[0][0])
                        if s[2] in MAPS:
                            ren[mk('key', var)] = proj(segs[0][1], '0')
                            ren[mk('val', var)] = proj(segs[0][1], '1')
                        ren[var] = segs[0][1]
                        continue
                if s[2] in MAPS:
                    MAPS.add(src)
                ren[var] = nv
                var = nv
            out.append(('for', var, src))
        else:
            out.append(subst_any(s, ren))
    return norm_stages(tuple(out)), (subst(e, ren) if e is not None else None)


def subst_any(x, m):
    if isinstance(x, T):
        return subst(x, m)
    if isinstance(x, tuple):
        return tuple(subst_any(y, m) for y in x)
    return x


def restrict(t, c):
    """simplify t under the assumption c (a condition without bound variables)"""
    if c is TRUE:
        return t
    memo = {}
    bmemo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == 'b':
            r = B(gob(constrain(x, c).a[0]))
        elif x.op == 'phi':
            alts = [(go(constrain(g, c)), go(v)) for g, v in x.a[0] if feasible(g, c)]
            r = mkphi(alts)
        elif x.op == 'adt':
            r = adt(x.a[0], x.a[1], [(f, go(y)) for f, y in x.a[2]])
        else:
            a = tuple(go(y) for y in x.a)
            r = x if a == x.a else rebuild(x.op, a)
        memo[x] = r
        return r

    def gob(n):
        if n < 2:
            return n
        r = bmemo.get(n)
        if r is None:
            at = BD.atoms[BD.var[n]]
            a = tuple(go(y) for y in at.a)
            k = BD.node(BD.var[n], 0, 1) if a == at.a else rebuild_atom(mk(at.op, *a)).a[0]
            r = BD.ite(k, gob(BD.hi[n]), gob(BD.lo[n]))
            bmemo[n] = r
        return r
    return go(t) if isinstance(t, T) else go(t)


def walk(t, f, seen=None):
    """visit every subterm (conditions included)"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        f(x)
        if x.op == 'b':
            st.extend(BD.support(x.a[0]))
        else:
            st.extend(x.a)


def contains_op(t, ops):
    hit = []

    def f(x):
        if x.op in ops:
            hit.append(x)
    walk(t, f)
    return hit


# ---------------------------------------------------------------- printing
def show(x, d=0):
    if isinstance(x, tuple):
        return '(' + ', '.join(show(y, d + 1) for y in x) + ')'
    if not isinstance(x, T):
        return str(x)
    if d > 40:
        return '…'
    op, a = x.op, x.a
    if op == 'int':
        return str(a[0])
    if op == 'b':
        return show_b(a[0], d)
    if op == 'lit':
        return repr(a[0])
    if op == 'lin':
        s = ' + '.join(('' if k == 1 else '%d*' % k) + show(t, d + 1) for t, k in a[1])
        return '(' + s + (' + %d' % a[0] if a[0] else '') + ')'
    if op == 'real':
        ms = []
        for m, c in a[0]:
            ms.append('*'.join([str(c)] * (c != 1 or not m) + [show(t, d + 1) + ('^%d' % e if e != 1 else '') for t, e in m]))
        return 'ℝ(' + (' + '.join(ms) or '0') + ')'
    if op == 'adt':
        nm = a[1] if a[0] != 'tuple' else ''
        return nm + '(' + ', '.join((f + '=' if not f.isdigit() else '') + show(v, d + 1) for f, v in a[2]) + ')'
    if op == 'phi':
        return 'φ{' + '; '.join(show(g, d + 1) + ' → ' + show(v, d + 1) for g, v in a[0]) + '}'
    if op in ('seq', 'cat'):
        return ('[' if op == 'seq' else '«') + ', '.join(show_seg(st, e, d) for st, e in a[0]) + (']' if op == 'seq' else '»')
    if op in ('agg', 'first'):
        return a[0] + '{' + show_seg(a[1], a[2], d) + '}'
    if op == 'elem':
        return '∈%s%s' % (show(a[0], d + 1), "'" * a[1]) if len(show(a[0])) < 60 else '∈#%d%s' % (a[0].i, "'" * a[1])
    if op == 'proj':
        return show(a[0], d + 1) + '.' + (a[2] + ':' if a[2] else '') + str(a[1])
    if op == 'param':
        return '$' + str(a[0])
    if op == 'ext':
        return a[0] + '(' + ', '.join(show(y, d + 1) for y in a[1]) + ')'
    if op == 'str':
        return show(a[0], d + 1)
    if op == 'show':
        return ('' if a[1] == '{}' else a[1]) + '‹' + show(a[0], d + 1) + '›'
    return op + '(' + ', '.join(show(y, d + 1) for y in a) + ')'


def show_seg(st, e, d=0):
    out = []
    for s in st:
        if s[0] == 'for':
            out.append('for ' + show(s[1], d + 1) + ('' if len(show(s[2])) < 60 else ' in ' + show(s[2], d + 1)))
        elif s[0] == 'order':
            out.append('order(' + show(s[1], d + 1) + (', stable' if s[2] else '') + ')')
        else:
            out.append(s[0] + ' ' + ' '.join(show(y, d + 1) for y in s[1:]))
    r = show(e, d + 1) if e is not None else ''
    return (' ⟩ '.join(out) + ' ⟩ ' if out else '') + r


def show_b(n, d=0):
    if n == 0:
        return '⊥'
    if n == 1:
        return '⊤'
    v, lo, hi = BD.var[n], BD.lo[n], BD.hi[n]
    at = BD.atoms[v]
    if at.op == 'ch':
        s = '%s≡%s' % (show(at.a[0], d + 1), at.a[2])
    elif at.op == 'le0':
        s = '%s≤0' % show(at.a[0], d + 1)
    else:
        s = show(at, d + 1)
    if hi == 1 and lo == 0:
        return s
    if hi == 0 and lo == 1:
        return '¬' + s
    if lo == 0:
        return s + '∧' + show_b(hi, d + 1)
    if hi == 0:
        return '¬' + s + '∧' + show_b(lo, d + 1)
    if hi == 1:
        return '(' + s + '∨' + show_b(lo, d + 1) + ')'
    return '(%s?%s:%s)' % (s, show_b(hi, d + 1), show_b(lo, d + 1))
