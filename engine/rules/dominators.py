from .common import *
from .garbage import unreachable


def domtree_children(i, f):
    """children of i in the dominator tree, by retained size descending"""
    D = api.pmap(ITEMS, 'domtree')
    kids = mk('at', D, i)
    x = elem(kids)
    return f(order(mk('seq', (((('for', x, kids),), x),)), lambda e: [(retained(e), DESC)]))


def start_ids(regexp):
    args = opt('items')
    a = elem(args)
    A = mk('seq', (((('for', a, args),), a),))
    none = bnot(some(A))
    if regexp:
        sel = order(where(all_items(ITEMS), lambda it: matches(args, name(it))), lambda it: [(retained(id_of(it)), DESC)])
        sel = each(sel, id_of)
    else:
        sel = by_exact_name(A)
    return chainseq(when(none, lst(META)), when(some(A), sel)), none


def matches(args, nm):
    rs = proj(rl_ext('RegexSet::new', args), '0', 'Ok')
    return truth(rl_ext('RegexSet::is_match', rs, nm))


def by_exact_name(A):
    out = []
    for st, a in as_segs(A):
        U = api.universe(ITEMS)
        v = elem(U)
        it = mk('val', v)
        fst = (('for', v, U), ('if', eq(proj(it, 'name'), a)))
        out.append((st + (('if', exists(fst)),), id_of(mk('first', 'first', fst, it))))
    return mk_seq(out)


def unreachable_line():
    X = unreachable()
    return gtz(total(X, size)), total(X, size), txt('[', num(X), ' Unreachable Items]')


def expected(fmt, regexp):
    ids, none = start_ids(regexp)
    g, sz, label = unreachable_line()
    g = band(none, g)
    D = api.pmap(ITEMS, 'domtree')
    has_kids = lambda i: contains_key(D, i)
    it = lambda i: item_of(ITEMS, i)
    if fmt == 'text':
        def top(R):
            rows = flat(ids, lambda i: lst(R(mkphi([(eq(META, i), I(0)), (bnot(eq(META, i)), I(1))]), LOOP, i)))
            segs = [(st, mk('recnode', *[I(0) if (a is LOOP and none_only(st, none)) else a for a in e.a])) for st, e in as_segs(rows)]
            return table([('Right', 'Retained Bytes'), ('Right', 'Retained %'), ('Left', 'Dominator Tree')],
                         chainseq(mk_seq(segs), when(g, lst(row(to_str(sz), pctcell(sz), label)))))

        def body(R, depth, rw, i):
            go = band(le(rw, opt('max_rows')), le(depth, opt('max_depth')))
            r = mk('range', I(2), depth)
            lab = cat(mk_cat([((('for', elem(r), r),), S('    '))]), mk_cat([((('if', bnot(eq(depth, I(1)))),), S('  ⤷ '))]), to_str(name(it(i))))
            return chainseq(when(band(go, gtz(depth)), lst(row(to_str(retained(i)), pctcell(retained(i)), lab))),
                            when(band(go, has_kids(i)), domtree_children(i, lambda K: each(K, lambda k: R(add(depth, I(1)), add(LOOP, I(1)), k)))))
        return top, body
    if fmt == 'json':
        def top(R):
            return jobject_top(chainseq(
                lst(jobj(each(ids, lambda i: jobj(lst(R(i)))), 'array', S('items'))),
                when(g, lst(jobj(lst(jobj(jfs(('name', label, 's'), ('retained_size', sz, 'n'), ('retained_size_percent', pct(sz), 'n')))), 'array', S('summary'))))))

        def body(R, i):
            return chainseq(jfs(('name', name(it(i)), 's'), ('shallow_size', size(it(i)), 'n'), ('shallow_size_percent', pct(size(it(i))), 'n'),
                                ('retained_size', retained(i), 'n'), ('retained_size_percent', pct(retained(i)), 'n')),
                            when(has_kids(i), lst(jobj(domtree_children(i, lambda K: each(K, lambda k: jobj(lst(R(k))))), 'array', S('children')))))
        return top, body

    def cols(i, nm, sz, rt, idom):
        return rec_([('Id', i), ('Name', nm), ('ShallowSize', sz), ('ShallowSizePercent', pct(sz)), ('RetainedSize', rt),
                     ('RetainedSizePercent', pct(rt)), ('ImmediateDominator', idom)])

    def top(R):
        return csv(chainseq(each(ids, lambda i: R(i)), when(g, lst(cols(NONE, label, sz, sz, NONE)))))

    def body(R, i):
        ID = api.pmap(ITEMS, 'idom')
        has = contains_key(ID, i)
        idom = mkphi([(has, serial(mk('at', ID, i))), (bnot(has), serial(i))])
        return chainseq(lst(cols(Some(serial(i)), name(it(i)), size(it(i)), retained(i), Some(idom))),
                        when(has_kids(i), domtree_children(i, lambda K: each(K, lambda k: R(k)))))
    return top, body


def none_only(st, none):
    return guard_of(st) is none and not is_for(st)


NAMES = {'text': [('depth', r'u32$'), ('row', r'u32$'), ('id', r'Id$')], 'json': [('id', r'Id$')], 'csv': [('id', r'Id$')]}


@prop('P15', 'dominators prints the chosen roots and, below each item, its dominator-tree children by retained size; limits, shares and the unreachable summary in every format')
def dominators(c):
    w = c.world()
    for regexp in (False, True):
        tag = 'regexps' if regexp else 'names'
        sm, v = analyse(c, w, 'dominators', opts('Dominators', using_regexps=TRUE if regexp else FALSE))
        for fmt in FORMATS:
            t, b = expected(fmt, regexp)
            rec_doc(c, w, 'dominators.%s.%s' % (fmt, tag), v, fmt, NAMES[fmt], t, b)
