"""What an emitter writes, as one term: effects on output handles folded into a document tree."""
from terms import *
import terms as tm

DEST = mk('param', '@dest')


def relative(pre, st):
    """stages of an inner event relative to the stages of the enclosing one"""
    pre, st = list(pre), list(st)
    i = 0
    while i < len(pre) and i < len(st) and pre[i] == st[i]:
        i += 1
    if i == len(pre):
        return tuple(st[i:])
    if i == len(pre) - 1 and pre[i][0] == 'if':
        if i < len(st) and st[i][0] == 'if':
            g = constrain(st[i][1], pre[i][1])
            return ((('if', g),) if g is not TRUE else ()) + tuple(st[i + 1:])
        if pre[i][1] is not TRUE:
            return tuple(st[i:])
    return tuple(st[i:])


def lit(t):
    return t


KINDS = ('jopen', 'jfield', 'jelem', 'topen', 'trow', 'csvopen', 'csvrow', 'csvflush', 'write', 'rec', 'flush', 'call')


def rounds(items):
    """[(stages, node, loops)] -> segments; what one round of a loop writes stays together"""
    out = []
    i = 0
    while i < len(items):
        st, n, ls = items[i]
        j = i + 1
        if ls:
            while j < len(items) and items[j][2] and items[j][2][0][1] == ls[0][1]:
                j += 1
        if j == i + 1:
            out.append((st, n))
            i = j
            continue
        g = items[i:j]
        k = ls[0][0]
        while all(len(x[0]) > k for x in g) and all(x[0][k] == st[k] for x in g) and st[k][0] in ('take', 'skip', 'while', 'until'):
            k += 1
        inner = rounds([(x[0][k:], x[1], tuple((p - k, i_) for p, i_ in x[2][1:])) for x in g])
        for s2, n2 in as_segs(tm.together(mk_seq(inner))):
            out.append((tuple(st[:k]) + tuple(s2), n2))
        i = j
    return out


def build(effects, rename=None):
    """-> list of (stages, node) written to each root, in order.

    node: obj(kind, key, children) / field(key, value) / row(columns) / text(term) / rec(args)"""
    kids = {}
    opens = {}
    roots = []
    seen_handles = set()

    def handles(t, acc):
        def f(x):
            if x.op == 'handle' or (x.op == 'param' and str(x.a[0]).startswith('@')):
                acc.append(x)
        walk(t, f)
        return acc

    for e in effects:
        if e.kind not in KINDS:
            continue
        if e.kind == 'jopen':
            h, key, parent = e.args
            opens[h] = e
            kids.setdefault(parent, []).append(('open', e, h))
        elif e.kind in ('topen', 'csvopen'):
            opens[e.args[0]] = e
            if e.kind == 'csvopen':
                kids.setdefault(e.args[1], []).append(('open', e, e.args[0]))
        elif e.kind == 'rec':
            hs = []
            for a in e.args[1:]:
                if a.op == 'handle' or (a.op == 'param' and str(a.a[0]).startswith('@')):
                    hs.append(a)
            for h in hs[:1] or [None]:
                kids.setdefault(h, []).append(('rec', e, None))
        elif e.kind == 'write':
            kids.setdefault(e.args[0], []).append(('write', e, None))
        else:
            kids.setdefault(e.args[0], []).append((e.kind, e, None))

    def table_in(t):
        hs = [h for h in handles(t, []) if h.op == 'handle' and h.a[0] == 'table']
        return hs[0] if hs else None

    def node(kind, e, h):
        if kind == 'open':
            if e.kind == 'jopen':
                key = e.args[1]
                return mk('jobj', h.a[0], key, content(h, e.stages))
            return mk('csv', content(h, e.stages))
        if kind == 'jfield':
            return mk('jf', e.args[1], e.args[2], e.args[3])
        if kind == 'jelem':
            return mk('je', e.args[1])
        if kind in ('csvrow', 'trow'):
            return mk('row', e.args[1])
        if kind == 'csvflush':
            return mk('flush')
        if kind == 'flush':
            return mk('flush')
        if kind == 'rec':
            return mk('recnode', *[mk('name', 'H') if (a.op == 'handle' or a.op == 'param' and str(a.a[0]).startswith('@')) else a for a in e.args[1:]])
        if kind == 'write':
            h2 = table_in(e.args[1])
            if h2 is not None:
                o = opens[h2]
                return mk('table', o.args[1], content(h2, o.stages), subst_term(e.args[1], {h2: mk('name', 'TABLE')}))
            return mk('text', e.args[1])
        raise AssertionError(kind)

    def content(h, pre):
        segs = []
        for k, e, h2 in kids.get(h, ()):
            n = node(k, e, h2)
            r = relative(pre, e.stages)
            off = len(e.stages) - len(r)
            segs.append((r, n, tuple((p - off, i) for p, i in e.loops if p > off)))
        return mk_seq(rounds(segs))

    res = {}
    for h in list(kids):
        if h is None or h.op == 'param':
            res[h] = content(h, ())
    # tables passed in as parameters
    return res


def subst_term(t, m):
    return Mapper(lambda x: m.get(x)).t(t)


def doc(effects, dest=DEST):
    return build(effects).get(dest, SEQ0)
