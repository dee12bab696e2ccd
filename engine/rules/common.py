import re
import rl
import api
import docs
import recur
from rl import Missing, evaluate, impl_fn, ITEMS
from check import prop, loc, sh
from spec import *
from terms import *

FORMATS = ('text', 'json', 'csv')
ANALYZE = 'twiggy_analyze'


def overrides(w):
    if '_over' not in w.__dict__:
        w._over = {**api.ir_api(w), **api.opt_api(w), **rl.fmt_contracts(w)}
    return w._over


def entry(w, n):
    """the analysis entry point twiggy_analyze::<n> (resolved through its public name)"""
    bs = [b for b in w.bodies.values() if b.crate == ANALYZE and re.match(r'^(\w+::)*%s$' % n, b.path) and b.kind == 'fn'
          and b.nargs == (3 if n == 'diff' else 2) and 'twiggy_ir::Items' in b.locals[1] and 'twiggy_opt::' in b.locals[b.nargs]]
    if len(bs) != 1:
        raise Missing('twiggy_analyze::%s (%d found)' % (n, len(bs)))
    return bs[0]


def analyse(c, w, n, opts, items=None, over=None, assume=None):
    b = entry(w, n)
    sm = evaluate(w, b, (items or [ITEMS]) + [opts], over or overrides(w), assume=assume)
    c.seen(sm)
    if not (sm.ret.op == 'adt' and sm.ret.a[1] == 'Ok' and sm.ret.a[2][0][1].op == 'adt'):
        return sm, None
    return sm, sm.ret.a[2][0][1]


def emitter(w, v, fmt):
    """impl Emit for <type of v> :: emit_<fmt>"""
    for cr, im in w.impls:
        if im['trait'] and im['trait'].split('::')[-1].split('<')[0] == 'Emit':
            e = cr + '::' + rl.ev.ty_head(im['self'])
            if e == v.a[0]:
                for it in im['items']:
                    if it[0] == 'emit_' + fmt and it[1] in w.bodies:
                        return w.bodies[it[1]]
    raise Missing('Emit::emit_%s for %s' % (fmt, v.a[0]))


def emit(c, w, v, fmt, items=ITEMS, over=None):
    b = emitter(w, v, fmt)
    sm = evaluate(w, b, [v, items, docs.DEST], over or overrides(w))
    c.seen(sm)
    return sm


def check_doc(c, w, oid, v, fmt, want, over=None, pre=None):
    """the document written by emit_<fmt> is the required one, and Ok means it was written"""
    if v is None:
        return c.undecided(oid, 'analysis result', 'result is not a single value')

    def go():
        sm = emit(c, w, v, fmt, over=over)
        d = docs.doc(sm.effects)
        at = loc(w, sm.b)
        if fmt == 'csv':
            flushed(c, oid + '.flush', at, d)
            d = unflush(d)
        c.same(oid, at, pre(d) if pre else d, pre(want) if pre else want)
        return d
    return c.attempt(oid, 'emit_' + fmt, go)


def flushed(c, oid, at, d, rec_ok=False):
    """rows are not left in the csv writer: a flush follows the last row on every path that writes one"""
    segs = as_segs(d)
    if len(segs) != 1 or segs[0][1].op != 'csv':
        return c.undecided(oid, at, 'not one csv document')
    inner = flat_rounds(segs[0][1].a[0])
    rows = [i for i, (st, e) in enumerate(inner) if e.op == 'row' or (e.op == 'recnode' and not rec_ok)]
    ok = True
    for i in rows:
        st = inner[i][0]
        fl = [(s2, e2) for s2, e2 in inner[i + 1:] if e2.op in ('flush', 'recnode')]
        ok &= any(s2 == st or s2 == () or covers(s2, st) for s2, e2 in fl)
    # Dropping csv::Writer flushes too, but swallows the error
    c.true(oid, at, ok, 'rows written after the last flush: an error writing them would be dropped with the writer')


def covers(a, b):
    ga, gb = guard_of(a), guard_of(b)
    return not is_for(a) and band(gb, bnot(ga)) is FALSE


# ---------------------------------------------------------------- recursive emitters
def raw_unflush(t):
    """csv content of a helper: flushes dropped"""
    return noflush(unflush(t))


def perms(r, names):
    """assignments of the helper's varying parameters to the specified ones, by type"""
    import itertools
    vs = [i for i in r.vary if not recur.is_handle(r.syms[i])]
    if len(vs) != len(names):
        return []
    out = []
    for p in itertools.permutations(vs):
        if all(re.search(names[k][1], r.types[p[k]]) for k in range(len(names))):
            out.append(p)
    return out


LOOP = mk('name', 'loop')


def rec_doc(c, w, oid, v, fmt, names, top, body, over=None, ret=None):
    """emitter with one recursive helper: the document of the caller and of one helper call"""
    if v is None:
        return c.undecided(oid, 'analysis result', 'result is not a single value')

    def go():
        r = recur.analyse(w, emitter(w, v, fmt), [v, ITEMS, docs.DEST], over or overrides(w))
        c.seen(r.top)
        at = loc(w, r.top.b)
        td = recur.clean(docs.doc(r.top.effects), r)
        if r.f is None:
            if recur.ids_of(r.top) or unknowns(td):
                return c.undecided(oid, at, 'no recursive helper')
            return c.same(oid, at, td, top(lambda *a: mk('recnode', *a)))
        c.seen(r.body)
        if contains_op(td, ('recv',)):
            return stream_doc(c, w, oid, at, fmt, names, r, td, top, body)
        hd = docs.build(r.body.effects)
        if len(hd) > 1:
            return c.undecided(oid, at, 'helper writes to several places')
        bd = recur.clean(list(hd.values())[0] if hd else SEQ0, r)
        if fmt == 'csv':
            flushed(c, oid + '.flush', at, td, rec_ok=True)
            rawflushed(c, oid + '.rec.flush', loc(w, r.f), bd)
            td, bd = unflush(td), raw_unflush(bd)
        match(c, w, oid, at, names, r, td, bd, top, body)
    return c.attempt(oid, 'emit_' + fmt, go)


def match(c, w, oid, at, names, r, td, bd, top, body):
        ps = perms(r, names)
        if not ps:
            return c.undecided(oid, at, 'the recursion carries other state than specified: %s' % [r.types[i] for i in r.vary])
        wants = []
        vs = [i for i in r.vary if not recur.is_handle(r.syms[i])]
        for p in ps:
            R = lambda *a: mk('recnode', *[a[p.index(i)] for i in vs])
            wants.append((top(R), body(R, *[r.syms[i] for i in p])))
        good = [x for x in wants if plain(td) is plain(x[0]) and plain(bd) is plain(x[1])]
        pick = good[0] if good else sorted(wants, key=lambda x: (plain(td) is not plain(x[0]), plain(bd) is not plain(x[1])))[0]
        c.same(oid, at, td, pick[0])
        c.same(oid + '.rec', loc(w, r.f), bd, pick[1])


def stream_doc(c, w, oid, at, fmt, names, r, td, top, body):
    """the helper returns its rows"""
    segs = as_segs(td)
    if len(segs) != 1 or segs[0][1].op not in ('table', 'csv'):
        return c.undecided(oid, at, 'not one document')
    d = segs[0][1]
    k = 1 if d.op == 'table' else 0
    try:
        # a flush in each round may be taken out of the round; rows may not
        one = flat_rounds(d.a[k])
        if [e for _, e in one if e.op != 'flush'] != [e for _, e in as_segs(noflush(d.a[k]))]:
            one = as_segs(d.a[k])
        ts, bs, fl = recur.stream(one, as_segs(recur.clean(r.body.ret, r)), w)
    except recur.NotStream as e:
        return c.undecided(oid, at, str(e))
    if fmt == 'csv':
        c.true(oid + '.flush', at, fl or any(e.op == 'flush' and st == () for st, e in ts[-1:]),
               'rows are not followed by a flush: an error writing them would be dropped with the writer')
        ts = [(st, e) for st, e in ts if e.op != 'flush']
    a = list(d.a)
    a[k] = mk_seq(ts)
    match(c, w, oid, at, names, r, mk_seq([(segs[0][0], mk(d.op, *a))]), mk_seq(bs), top, body)


def rawflushed(c, oid, at, d):
    inner = flat_rounds(d)
    ok = True
    for i, (st, e) in enumerate(inner):
        if e.op == 'row':
            ok &= any((s2 == st or s2 == () or covers(s2, st)) for s2, e2 in inner[i + 1:] if e2.op == 'flush')
    c.true(oid, at, ok, 'rows written after the last flush: an error writing them would be dropped with the writer')
