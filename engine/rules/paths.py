from .common import *
from .dominators import matches, by_exact_name

DESCEND = as_bool(proj(OPTS, 'descending'))
REGEXP = as_bool(proj(OPTS, 'using_regexps'))


def nbrs(i, kind):
    f = neighbors if kind == 'down' else preds
    X = f(i)
    x = elem(X)
    return mk('seq', (((('for', x, X),), x),))


def start():
    args = proj(OPTS, 'functions')
    a = elem(args)
    A = mk('seq', (((('for', a, args),), a),))
    given = some(A)
    item = lambda i: item_of(ITEMS, i)
    by_size = lambda X: order(X, lambda i: [(size(item(i)), DESC)])
    return chainseq(
        when(band(given, REGEXP), each(where(all_items(ITEMS), lambda it: matches(args, name(it))), id_of)),
        when(band(given, bnot(REGEXP)), by_exact_name(A)),
        when(band(bnot(given), DESCEND), by_size(nbrs(META, 'down'))),
        when(band(bnot(given), bnot(DESCEND)),
             each(order(where(all_items(ITEMS), lambda it: bnot(eq(META, id_of(it)))), lambda it: [(size(it), DESC)]), id_of)))


def walk_spec(R, i, seen):
    it = item_of(ITEMS, i)
    s2 = mk('setput', seen, i)
    kids = lambda kind: each(where(nbrs(i, kind), lambda k: band(bnot(set_has(s2, k)), bnot(eq(META, k)))), lambda k: R(k, s2))
    return dict(name=name(it), size=size(it), children=chainseq(when(DESCEND, kids('down')), when(bnot(DESCEND), kids('up'))))


PE = 'PathsEntry'
FIELDS = {'name', 'size', 'children'}


def entry_type(w):
    hits = [a for p, a in w.adts.items() if p.split('::')[-1] == PE and p.startswith('twiggy_analyze::')]
    if len(hits) != 1:
        return None
    fs = {f[0] if isinstance(f, (list, tuple)) else f['name'] for f in hits[0]['variants'][0]['fields']}
    return fs == FIELDS


def walk_rule(c, w):
    b = entry(w, 'paths')
    r = recur.analyse(w, b, [ITEMS, opts('Paths')], overrides(w))
    c.seen(r.top)
    at = loc(w, b)
    if r.f is None or not entry_type(w):
        c.undecided('paths.walk', at, 'no recursive walk over PathsEntry')
        return None
    c.seen(r.body)
    v = r.top.ret
    if not (v.op == 'adt' and v.a[1] == 'Ok'):
        c.undecided('paths.start', at, 'several results')
        return None
    v = v.a[2][0][1]
    fs = [(n, x) for n, x in v.a[2] if contains_op(x, ('recv',))]
    if len(fs) != 1 or not perms(r, [('id', r'Id$'), ('seen', r'BTreeSet|HashSet')]):
        c.undecided('paths.start', at, 'entries are not one list made by the walk')
        return None
    p = perms(r, [('id', r'Id$'), ('seen', r'BTreeSet|HashSet')])[0]
    R = lambda i, s_: mk('recv', *[(i, s_)[p.index(k)] for k in r.vary])
    got = recur.clean(fs[0][1], r)
    empties = {mk('map0', 'BTreeSet'): None}
    E = [x for x in contains_op(got, ('map0',))]
    c.same('paths.start', at, got, each(start(), lambda i: R(i, E[0] if E else SEQ0)), 'every walk must begin at its starting item with nothing visited')
    i, s_ = r.syms[p[0]], r.syms[p[1]]
    want = walk_spec(R, i, s_)
    bt = recur.clean(r.body.ret, r)
    lb = loc(w, r.f)
    for f in ('name', 'size', 'children'):
        c.same('paths.walk.' + f, lb, proj(bt, f, None), want[f])
    # the visited set is what it was when the call returns (the item was not in it: see the child filter)
    out = r.body.out[p[1]]
    c.true('paths.walk.restore', lb, out is s_ or out is mk('setdel', mk('setput', s_, i), i),
           'the set of items on the current path is not restored: %s' % sh(out))
    ent = mk('param', 'entries')
    return adt(v.a[0], v.a[1], [(n, ent if n == fs[0][0] else x) for n, x in v.a[2]]), ent


def emit_spec(fmt, ent):
    x = elem(ent)
    E = mk('seq', (((('for', x, ent),), x),))
    n = opt('max_paths')
    nm, sz = lambda e: proj(e, 'name'), lambda e: api.nn(proj(e, 'size'))

    def kids(e):
        C = proj(e, 'children')
        k = elem(C)
        return take(mk('seq', (((('for', k, C),), k),)), n)
    D = opt('max_depth')
    if fmt == 'json':
        def top(R):
            return jarray_top(each(E, lambda e: jobj(lst(R(e, I(0))))))

        def body(R, e, d):
            return chainseq(jfs(('name', nm(e), 's'), ('shallow_size', sz(e), 'n'), ('shallow_size_percent', pct(sz(e)), 'n')),
                            lst(jobj(when(lt(d, D), each(kids(e), lambda k: jobj(lst(R(k, add(d, I(1))))))), 'array', S('callers'))))
        return top, body

    def rows(cells):
        def body(R, e, d):
            return chainseq(when(le(d, D), lst(cells(e, d))), when(lt(d, D), each(kids(e), lambda k: R(k, add(d, I(1))))))
        return body
    if fmt == 'text':
        def cells(e, d):
            r_ = mk('range', I(1), d)
            z = le(d, I(0))
            arrow = cat(mk_cat([((('if', band(DESCEND, bnot(z))),), S('  ↳ '))]), mk_cat([((('if', band(bnot(DESCEND), bnot(z))),), S('  ⬑ '))]))
            lab = cat(mk_cat([((('for', elem(r_), r_),), S('    '))]), arrow, nm(e))
            blank = lambda t: mk_cat([((('if', z),), piece(t))])
            return row(blank(to_str(sz(e))), cat(blank(to_str(pct(sz(e)), '{:.2}')), blank(S('%'))), lab)
        return (lambda R: table([('Right', 'Shallow Bytes'), ('Right', 'Shallow %'), ('Left', 'Retaining Paths')], each(E, lambda e: R(e, I(0))))), rows(cells)

    def cells(e, d):
        C = proj(e, 'children')
        k = elem(C)
        CS = mk('seq', (((('for', k, C),), nm(k)),))
        some_ = exists((('for', k, C),))
        path = mkphi([(bnot(some_), NONE), (some_, Some(mk('join', chainseq(CS, lst(nm(e))), S(' -> '))))])
        return rec_([('Name', nm(e)), ('ShallowSize', sz(e)), ('ShallowSizePercent', pct(sz(e))), ('Path', path)])
    return (lambda R: csv(each(E, lambda e: R(e, I(0))))), rows(cells)


@prop('P16', 'paths walks predecessors (or successors) from the chosen items without revisiting an item on the current path or the meta root; limits, rows in every format')
def paths(c):
    w = c.world()
    r = c.attempt('paths.walk', 'twiggy_analyze::paths', lambda: walk_rule(c, w))
    if r is None:
        return
    v, ent = r
    NAMES = [('entry', PE), ('depth', r'u32$')]
    for fmt in FORMATS:
        t, b = emit_spec(fmt, ent)
        rec_doc(c, w, 'paths.' + fmt, v, fmt, NAMES, t, b)
