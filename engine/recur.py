"""Recursive helpers: the caller and the helper's body are summarised separately.

A call to the helper is one opaque step ("recnode" in documents, "recv" as a value) carrying the
arguments that vary along the recursion; the arguments every inner call passes on unchanged are
context and are replaced by the value the outermost call gives them."""
import re
import ev
import rl
from terms import *
import terms as tm


class Rec:
    pass


HANDLE_TY = re.compile(r'(Table|json::Object|json::Array|Writer|dyn std::io::Write)')


def is_handle(v):
    return v.op == 'handle' or v.op == 'param' and str(v.a[0]).startswith('@')


def rec_override(fid, log, keep=True):
    def f(s, args, info, t):
        vals = [s.deep(a) for a in args]
        s.effect('rec', mk('fnid', fid), *vals)
        log.append(vals)
        r = mk('recv', mk('fnid', fid), tuple(vals))
        b = s.w.bodies[fid]
        for i, a in enumerate(args):
            if a.op == 'ptr' and b.locals[i + 1].startswith('&') and re.match(r"&('\w+ )?mut", b.locals[i + 1]):
                old = s.load(a)
                if is_handle(old) or is_set(b.locals[i + 1]):
                    continue
                s.store(a, mk('after', mk('fnid', fid), I(i), tuple(vals)))
        return r
    return f


def is_set(ty):
    return re.search(r'(BTreeSet|HashSet|Vec)<', ty) is not None


def ids_of(sm):
    return list(dict.fromkeys(e.args[0].a[0] for e in sm.effects if e.kind == 'rec'))


def analyse(w, body, args, over, cells=()):
    """-> Rec with .top (summary with the helper kept opaque), .f (helper body or None), .body (its summary), .vary"""
    r = Rec()
    sm = rl.evaluate(w, body, args, over, cells=cells)
    fids = ids_of(sm)
    r.f = None
    r.top = sm
    if not fids:
        return r
    if len(fids) != 1:
        raise ev.Budget('several recursive helpers')
    fid = fids[0]
    b = w.bodies[fid]
    log = []
    over2 = dict(over)
    over2[fid] = rec_override(fid, log)
    r.top = rl.evaluate(w, body, args, over2, cells=cells)
    r.calls = log
    r.f = b
    # which parameters vary along the recursion?
    n = b.nargs
    syms = [symbol(b.locals[i + 1], i) for i in range(n)]

    def run(vals):
        lg = []
        o = dict(over)
        o[fid] = rec_override(fid, lg)
        muts = [i for i in range(n) if re.match(r"&('\w+ )?mut", b.locals[i + 1]) and not is_handle(vals[i])]
        s = rl.evaluate(w, b, vals, o, cells=muts)
        return s, lg
    s1, lg = run(syms)
    vary = [i for i in range(n) if any(c[i] is not syms[i] for c in lg) or not lg]
    top_vals = [log[0][i] for i in range(n)] if log else syms
    for i in range(n):
        if i not in vary and any(c[i] is not top_vals[i] for c in log):
            vary.append(i)
    vals = [syms[i] if i in vary or is_handle(syms[i]) else top_vals[i] for i in range(n)]
    r.body, r.inner = run(vals)
    r.syms = syms
    r.vary = sorted(vary)
    r.types = [b.locals[i + 1] for i in range(n)]
    return r


def symbol(ty, i):
    t = ev.strip_ty(ty)
    if HANDLE_TY.search(t) and re.match(r"&('\w+ )?mut", ty):
        return mk('param', '@h%d' % i)
    p = mk('param', 'r%d:%s' % (i, t.split('::')[-1].split('<')[0]))
    if t in ('u32', 'usize', 'u64'):
        tm.mark_unsigned(p)
    return p


def clean(t, r):
    """reduce recursion steps to the varying, non-handle arguments; loop-carried counters are named `loop`"""
    fid = r.f.id if r.f else None

    def pre(x):
        if x.op == 'recnode' and fid:
            return mk('recnode', *[count_arg(x.a[i]) for i in r.vary if x.a[i] is not mk('name', 'H')])
        if x.op == 'recv':
            return mk('recv', *[x.a[1][i] for i in r.vary if not is_handle(x.a[1][i])])
        return x

    return Mapper(lambda x: None, None, pre).t(t)


def count_arg(v):
    """an argument of a recursion step that is a loop-carried counter (plus a constant)"""
    c, d = lparts(v)
    if len(d) == 1:
        (m, k), = d.items()
        if m.op in ('mu', 'after') and k == 1:
            return add(I(c), mk('name', 'loop'))
    return v


def param(r, tyre):
    """the symbol of the varying parameter whose type matches"""
    hits = [r.syms[i] for i in r.vary if re.search(tyre, r.types[i]) and not is_handle(r.syms[i])]
    if len(hits) != 1:
        raise ev.Budget('parameter of type %s: %d' % (tyre, len(hits)))
    return hits[0]


def rewrite(t, m):
    return Mapper(lambda x: m.get(x)).t(t)


class NotStream(Exception):
    pass


def stream(segs_top, segs_body, w):
    """Helper that *returns* the rows instead of writing them: `for x in helper(..): row(g(x))` becomes one
    recursion step, and each value the helper yields is written as row(g(value))."""
    X = mk('name', 'yielded')
    gs = []

    def step(st, e):
        for k, s_ in enumerate(st):
            if s_[0] == 'for' and s_[2].op == 'recv':
                if k != len(st) - 1:
                    raise NotStream('stages after the helper call')
                return st[:k], s_[1], s_[2]
        return None

    def do(segs, yields):
        out = []
        for st, e in segs:
            h = step(st, e)
            if h is None:
                if contains_op(e, ('recv',)):
                    raise NotStream('helper value used otherwise')
                out.append((st, e, None))
            else:
                pre, x, rv = h
                if yields:
                    if e is not x:
                        raise NotStream('yielded values are changed on the way')
                else:
                    gs.append(rewrite(e, {x: X}))
                out.append((pre, mk('recnode', *rv.a), rv))
        return out
    top = do(segs_top, False)
    rows = [g for g in gs if g.op == 'row']
    if not rows or any(g is not rows[0] for g in rows) or any(g.op not in ('row', 'flush') for g in gs):
        raise NotStream('rows are made from the helper\'s values in several ways')
    # one recnode per row step; flush steps alongside
    tsegs, k = [], 0
    for st, e, rv in top:
        if rv is not None:
            g = gs[k]
            k += 1
            if g.op == 'flush':
                e = g
        tsegs.append((st, e))
    bsegs = []
    for st, e, rv in do(segs_body, True):
        if rv is None:
            e = row_of(w, rewrite(rows[0], {X: e}))
        bsegs.append((st, e))
    return tsegs, bsegs, bool([g for g in gs if g.op == 'flush'])


def row_of(w, r):
    """row(record) -> row(columns) through the record's Serialize impl"""
    v = r.a[0]
    if v.op == 'adt' and v.a[0] in w.adts:
        b = serialize_body(w, v.a[0])
        sm = rl.evaluate(w, b, [v, mk('param', 'serializer')], rl.fmt_contracts(w))
        return mk('row', mk('seq', tuple((e.stages, tup(e.args[0], e.args[1])) for e in sm.eff('serfield'))))
    return r


def serialize_body(w, path):
    for c, im in w.impls:
        if im['trait'] and im['trait'].split('::')[-1].split('<')[0] == 'Serialize' and c + '::' + ev.ty_head(im['self']) == path:
            for it in im['items']:
                if it[0] == 'serialize' and it[1] in w.bodies:
                    return w.bodies[it[1]]
    raise rl.Missing('Serialize for ' + path)
