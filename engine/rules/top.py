from .common import *


def expected(fmt, ret):
    U = where(all_items(ITEMS), lambda it: bnot(eq(META, id_of(it))))
    key = (lambda it: retained(id_of(it))) if ret else size
    X = order(U, lambda it: [(key(it), DESC)])
    n = opt('max_items')
    head, rest = take(X, n), skip(X, n)
    if fmt == 'text':
        cells = lambda a, b, nm: row(a, b, nm)
        what = 'Retained' if ret else 'Shallow'
        body = each(head, lambda it: row(to_str(key(it)), pctcell(key(it)), name(it)))
        more = lt(n, num(X))
        f = (lambda s_: (S('...'), S('...'))) if ret else (lambda s_: (to_str(s_), pctcell(s_)))
        body = chainseq(body,
                        when(more, lst(row(*f(total(rest, key)), txt('... and ', sub(num(X), num(head)), ' more.')))),
                        lst(row(*f(total(X, key)), txt('Σ [', num(X), ' Total Rows]'))))
        return table([('Right', what + ' Bytes'), ('Right', what + ' %'), ('Left', 'Item')], body)
    if fmt == 'json':
        def obj(it):
            fs = [('name', name(it), 's'), ('shallow_size', size(it), 'n'), ('shallow_size_percent', pct(size(it)), 'n')]
            if ret:
                fs += [('retained_size', key(it), 'n'), ('retained_size_percent', pct(key(it)), 'n')]
            return jobj(jfs(*fs))
        return jarray_top(each(head, obj))
    return csv(each(head, lambda it: rec_([('Name', name(it)), ('ShallowSize', size(it)), ('ShallowSizePercent', pct(size(it))),
                                           ('RetainedSize', Some(key(it)) if ret else NONE),
                                           ('RetainedSizePercent', Some(pct(key(it))) if ret else NONE)])))


def can_succeed(sm):
    return sm.ret.op != 'bottom' and not (sm.ret.op == 'adt' and sm.ret.a[1] == 'Err')


@prop('P14', 'top lists every item but the meta root once, by the chosen size, largest first, cut at the limit, with remainder and totals')
def top(c):
    w = c.world()
    for ret in (False, True):
        tag = 'retained' if ret else 'shallow'
        sm, v = analyse(c, w, 'top', opts('Top', retained=TRUE if ret else FALSE, retaining_paths=FALSE))
        for fmt in FORMATS:
            check_doc(c, w, 'top.%s.%s' % (fmt, tag), v, fmt, expected(fmt, ret))
    # the one switch that is not supported is refused
    sm, _ = analyse(c, w, 'top', opts('Top', retaining_paths=TRUE))
    bad = bor(FALSE, *[g for _, _, g, _ in sm.errexits])
    c.true('top.retaining_paths', loc(w, sm.b), bad is TRUE or sm.ret.op == 'adt' and sm.ret.a[1] == 'Err' or not can_succeed(sm), 'asking for retaining paths is not refused')
