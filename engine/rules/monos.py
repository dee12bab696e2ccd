from .common import *
from .dominators import matches


def group_by(X, key, val):
    """map key -> values in order of appearance, as the group term the engine folds entry().or_insert().push() to"""
    (st, it), = as_segs(X)
    k = key(it)
    stages = st
    vst = tm.norm_stages(st + (('if', eq(tm.GKEY, k)),))
    return mk('group', 'BTreeMap', tm.norm_stages(stages), k, val(mk('seq', ((vst, it),))))


def entries(regexp, only_generics):
    args = proj(OPTS, 'functions')
    a = elem(args)
    A = mk('seq', (((('for', a, args),), a),))
    given = some(A)

    def sel(it):
        g = generic(it)
        f = matches(args, g) if regexp else some(where(A, lambda n: eq(n, g)))
        return band(has_mono(it), bor(bnot(given), f))
    X = where(all_items(ITEMS), sel)
    pair = lambda it: tup(to_str(name(it)), size(it))
    G = group_by(X, generic, lambda V: each(order(V, lambda it: [(size(it), DESC), (to_str(name(it)), ASC)]), pair))
    (gst, kv), = as_segs(G)
    K, V = proj(kv, '0'), proj(kv, '1')
    sz = lambda p: proj(p, '1')
    tot = total(V, sz)
    n = num(V)
    mx = agg_minmax('max', as_segs(V)[0][0], sz(as_segs(V)[0][1]))
    per = idiv(tot, n)
    bloat = minmax('min', mul(per, sub(n, I(1))), sub(tot, mx))
    if only_generics:
        insts = SEQ0
    else:
        m = opt('max_monos')
        cut = take(V, m)
        insts = chainseq(cut, when(lt(m, n), lst(tup(txt('... and ', sub(n, num(cut)), ' more.'), sub(tot, total(cut, sz))))))
    rows = add(I(1), num(insts))
    gs = mk('seq', ((gst, kv),))
    gs = order(gs, lambda _: [(bloat, DESC), (tot, DESC), (insts, ASC), (to_str(K), ASC)])
    mg = opt('max_generics')
    head, rest = take(gs, mg), skip(gs, mg)
    N = num(gs)
    f = lambda X, t: total(X, lambda _: t)
    es = [(as_segs(head)[0][0], dict(name=to_str(K), insts=insts, size=tot, bloat=bloat)),
          ((('if', lt(mg, N)),), dict(name=txt('... and ', f(rest, rows), ' more.'), insts=SEQ0,
                                      size=sub(f(gs, tot), f(head, tot)), bloat=sub(f(gs, bloat), f(head, bloat)))),
          ((), dict(name=txt('Σ [', f(gs, rows), ' Total Rows]'), insts=SEQ0, size=f(gs, tot), bloat=f(gs, bloat)))]
    return es


def expected(fmt, es):
    out = []
    for st, e in es:
        nm, sz, bl = e['name'], e['size'], e['bloat']
        inst = lambda g: each(e['insts'], lambda p: g(proj(p, '0'), proj(p, '1')))
        if fmt == 'text':
            rs = chainseq(lst(row(to_str(bl), pctcell(bl), to_str(sz), pctcell(sz), nm)),
                          inst(lambda n_, s_: row(S(''), S(''), to_str(s_), pctcell(s_), cat(S('    '), to_str(n_)))))
        elif fmt == 'json':
            rs = lst(jobj(chainseq(
                jfs(('generic', nm, 's'), ('approximate_monomorphization_bloat_bytes', bl, 'n'),
                    ('approximate_monomorphization_bloat_percent', pct(bl), 'n'), ('total_size', sz, 'n'), ('total_size_percent', pct(sz), 'n')),
                lst(jobj(inst(lambda n_, s_: jobj(jfs(('name', n_, 's'), ('shallow_size', s_, 'n'), ('shallow_size_percent', pct(s_), 'n')))),
                         'array', S('monomorphizations'))))))
        else:
            names = inst(lambda n_, s_: n_)
            rs = lst(rec_([('Generic', Some(nm)), ('ApproximateMonomorphizationBloatBytes', Some(bl)),
                           ('ApproximateMonomorphizationBloatPercent', Some(pct(bl))), ('TotalSize', Some(sz)),
                           ('TotalSizePercent', Some(pct(sz))), ('Monomorphizations', Some(joined(names)))]))
        for s2, r in as_segs(tm.together(rs) if is_for(st) else rs):
            out.append((st + s2, r))
    body = mk_seq(out)
    if fmt == 'text':
        return table([('Right', 'Apprx. Bloat Bytes'), ('Right', 'Apprx. Bloat %'), ('Right', 'Bytes'), ('Right', '%'), ('Left', 'Monomorphizations')], body)
    return jarray_top(body) if fmt == 'json' else csv(body)


def joined(X):
    return mk('join', X, S(', ')) if X is not SEQ0 else S('')


@prop('P17', 'monos groups every monomorphization by its generic name; sizes, bloat estimate, limits, remainders and totals in every format')
def monos(c):
    w = c.world()
    for regexp in (False, True):
        for og in (False, True):
            tag = ('regexps' if regexp else 'names') + ('.generics' if og else '')
            sm, v = analyse(c, w, 'monos', opts('Monos', using_regexps=TRUE if regexp else FALSE, only_generics=TRUE if og else FALSE))
            es = entries(regexp, og)
            for fmt in FORMATS:
                check_doc(c, w, 'monos.%s.%s' % (fmt, tag), v, fmt, expected(fmt, es))
