from .common import *


def reach():
    return mk('dfs', ITEMS, META)


def unreachable():
    X = where(all_items(ITEMS), lambda it: bnot(set_has(reach(), id_of(it))))
    return X


def rows_of(sds):
    X = unreachable()
    by_size = lambda X: order(X, lambda it: [(size(it), DESC)])
    S_ = by_size(X)
    shown = S_ if sds else where(S_, lambda it: bnot(is_data(it)))
    data = SEQ0 if sds else where(S_, is_data)
    return shown, data


def expected(fmt, sds):
    shown, data = rows_of(sds)
    n = opt('max_items')
    head = take(shown, n)
    rest = skip(shown, n)
    lines = []      # (sequence-or-None, condition, name, size)
    restsz = sub(total(shown, size), total(head, size))
    restn = sub(num(shown), num(head))
    more = band(lt(n, num(shown)))
    summary = [(more, txt('... and ', restn, ' more'), restsz),
               (TRUE, txt('Σ [', num(shown), ' Total Rows]'), total(shown, size))]
    if not sds:
        summary.append((some(data), txt(num(data), ' potential false-positive data segments'), total(data, size)))
    if fmt == 'text':
        cells = lambda nm, sz: row(to_str(sz), pctcell(sz), nm)
    elif fmt == 'json':
        cells = lambda nm, sz: jobj(jfs(('name', nm, 's'), ('bytes', sz, 'n'), ('size_percent', pct(sz), 'n')))
    else:
        cells = lambda nm, sz: rec_([('Name', nm), ('Bytes', sz), ('SizePercent', pct(sz))])
    body = chainseq(each(head, lambda it: cells(name(it), size(it))), *[when(g, lst(cells(nm, sz))) for g, nm, sz in summary])
    if fmt == 'text':
        return table([('Right', 'Bytes'), ('Right', 'Size %'), ('Left', 'Garbage Item')], body)
    return jarray_top(body) if fmt == 'json' else csv(body)


@prop('P13', 'garbage = items not in the graph search from the meta root, by size descending; data split, limit and totals in every format')
def garbage(c):
    w = c.world()
    for sds in (False, True):
        tag = 'segments-shown' if sds else 'segments-summarised'
        sm, v = analyse(c, w, 'garbage', opts('Garbage', show_data_segments=TRUE if sds else FALSE))
        for fmt in FORMATS:
            check_doc(c, w, 'garbage.%s.%s' % (fmt, tag), v, fmt, expected(fmt, sds))
