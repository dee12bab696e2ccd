"""The item graph itself: what the builder records, what the views return, what the computed tables hold."""
import re
import rl
import ev
import facts
from check import prop, loc
from spec import *
from terms import *
import terms as tm
from rl import Missing

IR = 'twiggy_ir'
MAX = 0xFFFFFFFF
ROOT = None


def P(n):
    return mk('param', n)


def m_(w, ty, name):
    return rl.method(w, IR, ty, name)


def builder(w):
    return rl.sym(w, IR + '::ItemsBuilder', P('b'))


def items(w, **over):
    tm.MAPS.add(proj(P('g'), 'items'))
    tm.MAPS.add(proj(P('g'), 'edges'))
    tm.IDKEYED.add(proj(P('g'), 'items'))     # builder rule: an item is stored under its id
    tm.SETVALS.add(proj(P('g'), 'edges'))     # … and targets are kept in a set until `finish`
    return rl.sym(w, IR + '::Items', P('g'), over)


def run(c, w, ty, name, args, cells=(), over=None):
    b = m_(w, ty, name)
    sm = rl.evaluate(w, b, args, over, cells=cells)
    c.seen(sm)
    sm.at = loc(w, b)
    return sm


def field(v, f):
    if v.op == 'adt' and f not in [x[0] for x in v.a[2]]:
        raise Missing('field ' + f)
    return proj(v, f)


def keep(c, oid, sm, before, fields):
    """these parts of the state are left alone"""
    for f in fields:
        c.same('%s.%s' % (oid, f), sm.at, field(sm.out[0], f), field(before, f))


def exit_cond(sm):
    """when the function panics or bails out"""
    r = FALSE
    for b, ctx, cond, tgt in sm.errexits:
        if any(sg[0] == 'for' for sg in ctx):
            return None
        r = bor(r, band(cond, *[sg[1] for sg in ctx if sg[0] == 'if']))
    return r


def empty(x):
    return x.op == 'map0' or x is SEQ0


def put(m, k, v):
    return mk('mapput', m, k, v)


def setput(m, k):
    return mk('setput', m, k)


@prop('P02', 'the graph under construction after each builder call, and the finished graph')
def builder_rules(c):
    w = c.world()
    b = builder(w)
    id_, it, a, z = proj(P('item'), 'id'), P('item'), P('from'), P('to')
    item = rl.sym(w, IR + '::Item', it)

    def new():
        sm = run(c, w, 'ItemsBuilder', 'new', [P('size')])
        c.same('new.size', sm.at, field(sm.ret, 'size'), P('size'))
        c.same('new.size_added', sm.at, field(sm.ret, 'size_added'), I(0))
        for f in ('items', 'edges', 'roots', 'data'):
            c.true('new.' + f, sm.at, empty(field(sm.ret, f)), 'not empty: %s' % show(field(sm.ret, f))[:200])

    def add(name):
        sm = run(c, w, 'ItemsBuilder', name, [b, item], cells=(0,))
        o = sm.out[0]
        c.same(name + '.items', sm.at, field(o, 'items'), put(proj(P('b'), 'items'), id_, item))
        c.same(name + '.size_added', sm.at, field(o, 'size_added'), tm.add(proj(P('b'), 'size_added'), proj(it, 'size')))
        c.same(name + '.roots', sm.at, field(o, 'roots'), setput(proj(P('b'), 'roots'), id_) if name == 'add_root' else proj(P('b'), 'roots'))
        c.same(name + '.id', sm.at, sm.ret, id_)
        keep(c, name, sm, b, ['size', 'edges', 'data'])
        x = exit_cond(sm)
        wants = [contains_key(proj(P('b'), 'items'), id_)]
        if 'parsed' in [f for f, _ in b.a[2]]:
            wants.append(set_has(proj(P('b'), 'parsed'), id_))
            c.same(name + '.parsed', sm.at, field(o, 'parsed'), setput(proj(P('b'), 'parsed'), id_))
        if x is None:
            c.undecided(name + '.duplicate', sm.at, 'exit inside a loop')
        else:
            c.among(name + '.duplicate', sm.at, x, wants, 'an item whose id was already added must be refused, and no other')

    def edge():
        sm = run(c, w, 'ItemsBuilder', 'add_edge', [b, a, z], cells=(0,))
        E = proj(P('b'), 'edges')
        c.same('add_edge.edges', sm.at, field(sm.out[0], 'edges'), put(E, a, setput(mk('getor', E, a, mk('map0', 'BTreeSet')), z)))
        keep(c, 'add_edge', sm, b, ['size', 'size_added', 'items', 'roots', 'data'])

    def added():
        sm = run(c, w, 'ItemsBuilder', 'size_added', [b])
        c.same('size_added', sm.at, sm.ret, proj(P('b'), 'size_added'))

    def finish():
        rt = run(c, w, 'Id', 'root', []).ret
        sm = run(c, w, 'ItemsBuilder', 'finish', [b])
        r = sm.ret
        c.same('finish.size', sm.at, field(r, 'size'), proj(P('b'), 'size'))
        c.same('finish.meta_root', sm.at, field(r, 'meta_root'), rt)
        c.same('finish.roots', sm.at, field(r, 'roots'), proj(P('b'), 'roots'))
        I_ = field(r, 'items')
        g = map_at(I_, rt)
        c.same('finish.root.id', sm.at, field(g, 'id'), rt)
        c.same('finish.root.size', sm.at, field(g, 'size'), I(0))
        c.same('finish.root.name', sm.at, field(g, 'name'), S('<meta root>'))
        c.same('finish.items', sm.at, I_, put(proj(P('b'), 'items'), rt, g))
        c.same('finish.edges', sm.at, field(r, 'edges'), mk('mapof', 'BTreeMap', put(proj(P('b'), 'edges'), rt, proj(P('b'), 'roots'))))
        for f in ('dominator_tree', 'immediate_dominators', 'retained_sizes', 'predecessors'):
            c.same('finish.' + f, sm.at, field(r, f), NONE)

    def ids():
        s = run(c, w, 'Id', 'section', [P('i')])
        e = run(c, w, 'Id', 'entry', [P('i'), P('j')])
        r = run(c, w, 'Id', 'root', [])
        i, j = mk('cast', 'u32', P('i')), mk('cast', 'u32', P('j'))
        mkid = lambda x, y: adt(IR + '::Id', 'Id', [('0', x), ('1', y)])
        c.same('id.section', s.at, s.ret, mkid(i, I(MAX)))
        c.same('id.entry', e.at, e.ret, mkid(i, j))
        c.same('id.root', r.at, r.ret, mkid(I(MAX), I(MAX)))
        lim = lambda x: bnot(le(x, I(MAX - 1)))
        c.same('id.section.range', s.at, exit_cond(s), lim(P('i')))
        c.same('id.entry.range', e.at, exit_cond(e), bor(lim(P('i')), lim(P('j'))))
        z_ = run(c, w, 'Id', 'serializable', [P('id')])
        hi, lo = proj(P('id'), '0'), proj(P('id'), '1')
        up = [mk('bin', 'Shl', hi, I(32)), mulc(1 << 32, hi)]
        c.among('id.serializable', z_.at, z_.ret, [q for u in up for q in (mk('bin', 'BitOr', u, lo), mk('bin', 'BitOr', lo, u), tm.add(u, lo))])

    def item_():
        n = run(c, w, 'Item', 'new', [P('i'), P('n'), P('s'), P('k')])
        for f, x in (('id', 'i'), ('name', 'n'), ('size', 's'), ('kind', 'k')):
            c.same('item.new.' + f, n.at, field(n.ret, f), P(x))
        for f in ('id', 'size', 'kind'):
            g = run(c, w, 'Item', f, [item])
            c.same('item.' + f, g.at, g.ret, proj(it, f))

    for n, f in (('new', new), ('add_item', lambda: add('add_item')), ('add_root', lambda: add('add_root')), ('add_edge', edge), ('size_added', added),
                 ('finish', finish), ('id', ids), ('item', item_)):
        c.attempt(n, 'ir/ir.rs', f)


# ---------------------------------------------------------------- data segments
def data_rules(c):
    w = c.world()
    b = builder(w)
    D = proj(P('b'), 'data')
    tm.MAPS.add(D)
    for x in ('len', 'addr'):
        tm.NONNEG.add(P(x))

    def link():
        sm = run(c, w, 'ItemsBuilder', 'link_data', [b, P('off'), P('len'), P('id')], cells=(0,))
        off = P('off')
        ok = band(le(I(0), off), le(off, I(MAX)), lt(tm.add(mk('cast', 'usize', off), P('len')), I(MAX)))
        # inside the accepted range the address has the same value in either type
        got = tm.replace(field(sm.out[0], 'data'), mk('cast', 'u64', off), mk('cast', 'usize', off))
        c.same('link.data', sm.at, got, mkphi([(ok, put(D, mk('cast', 'usize', off), tup(P('id'), P('len')))), (bnot(ok), D)]))
        keep(c, 'link', sm, b, ['size', 'size_added', 'items', 'edges', 'roots'])

    def get():
        sm = run(c, w, 'ItemsBuilder', 'get_data', [b, P('addr')])
        v = elem(D)
        st = (('for', v, D), ('if', le(mk('key', v), P('addr'))))
        lst_ = st + (('rev',),)
        k, x = first(lst_, mk('key', v)), first(lst_, mk('val', v))
        hit = band(exists(st), lt(P('addr'), tm.add(k, proj(x, '1'))))
        c.same('lookup', sm.at, sm.ret, mkphi([(hit, Some(proj(x, '0'))), (bnot(hit), NONE)]),
               'the segment that contains an address is the last one starting at or before it')
    c.attempt('link', 'ir/ir.rs', link)
    c.attempt('lookup', 'ir/ir.rs', get)


# ---------------------------------------------------------------- views
def drained(sm, v):
    """everything an iterator returned by the code yields"""
    r = sm.e.to_iter(v)
    return r if r is not None else opaque('iterator')


def trait_method(w, trait, name):
    hits = [b for b in w.bodies.values() if b.crate == IR and re.search(r'(^|[ :<])%s(<[^>]*>)? for &?(\'\w+ )?Items>::%s$' % (trait, name), b.path)
            or b.crate == IR and re.search(r'<&?(\'\w+ )?Items as [\w:]*%s(<[^>]*>)?>::%s$' % (trait, name), b.path)]
    if len(hits) != 1:
        raise Missing('%s::%s for Items (%d found)' % (trait, name, len(hits)))
    return hits[0]


def table(m, k):
    n = is_variant(map_get(m, k), 'Option', 'None')
    return mkphi([(n, SEQ0), (bnot(n), map_at(m, k))])


MUT = ['compute_predecessors', 'compute_dominators', 'compute_dominator_tree', 'compute_retained_sizes']


@prop('P10', 'what the views of the finished graph return')
def views(c):
    w = c.world()
    g = items(w)
    A, E = proj(P('g'), 'items'), proj(P('g'), 'edges')

    def it():
        sm = run(c, w, 'Items', 'iter', [g])
        v = elem(A)
        c.same('iter', sm.at, drained(sm, sm.ret), mk_seq([((('for', v, A),), mk('val', v))]))

    def idx():
        hits = [b for b in w.bodies.values() if b.crate == IR and re.search(r'Items as [\w:]*Index<[\w:]*Id>>::index$', b.path)]
        if len(hits) != 1:
            raise Missing('Index for Items')
        sm = c.seen(rl.evaluate(w, hits[0], [g, P('id')]))
        c.same('index', loc(w, hits[0]), sm.ret, map_at(A, P('id')))

    def nb():
        sm = run(c, w, 'Items', 'neighbors', [g, P('id')])
        c.same('neighbors', sm.at, drained(sm, sm.ret), mk_seq(as_segs(table(E, P('id')))))
        b = trait_method(w, 'IntoNeighbors', 'neighbors')
        s2 = c.seen(rl.evaluate(w, b, [g, P('id')]))
        c.same('graph.neighbors', loc(w, b), drained(s2, s2.ret), mk_seq(as_segs(table(E, P('id')))))

    def pr():
        T_ = mapparam('PRED')
        sm = run(c, w, 'Items', 'predecessors', [items(w, predecessors=Some(T_)), P('id')])
        c.same('predecessors', sm.at, drained(sm, sm.ret), mk_seq(as_segs(table(T_, P('id')))))

    def small():
        for n in ('size', 'meta_root'):
            sm = run(c, w, 'Items', n, [g])
            c.same(n, sm.at, sm.ret, proj(P('g'), n))
        for n, f in (('immediate_dominators', 'immediate_dominators'), ('dominator_tree', 'dominator_tree')):
            T_ = mapparam(n)
            sm = run(c, w, 'Items', n, [items(w, **{f: Some(T_)})])
            c.same(n, sm.at, sm.ret, T_)
        T_ = mapparam('RET')
        sm = run(c, w, 'Items', 'retained_size', [items(w, retained_sizes=Some(T_)), P('id')])
        c.same('retained_size', sm.at, sm.ret, map_at(T_, P('id')))

    def byname():
        sm = run(c, w, 'Items', 'get_item_by_name', [g, P('n')])
        v = elem(A)
        k = mk('val', v)
        nm = rl.evaluate(w, m_(w, 'Item', 'name'), [k]).ret
        st = (('for', v, A), ('if', eq(nm, P('n'))))
        h = exists(st)
        c.same('get_item_by_name', sm.at, sm.ret, mkphi([(h, Some(first(st, k))), (bnot(h), NONE)]))

    def pg():
        b = trait_method(w, 'NodeCount', 'node_count')
        sm = c.seen(rl.evaluate(w, b, [g]))
        c.same('graph.node_count', loc(w, b), sm.ret, length(A))
        b = trait_method(w, 'Visitable', 'visit_map')
        sm = c.seen(rl.evaluate(w, b, [g]))
        c.true('graph.visit_map', loc(w, b), empty(sm.ret), 'a fresh visit map must be empty')
        b = trait_method(w, 'Visitable', 'reset_map')
        sm = c.seen(rl.evaluate(w, b, [g, mapparam('M')], cells=(1,)))
        c.true('graph.reset_map', loc(w, b), empty(sm.out[1]), 'a reset visit map must be empty')

    def preds():
        sm = run(c, w, 'Items', 'compute_predecessors', [g], cells=(0,))
        v = elem(E)
        t = elem(mk('val', v))
        st = (('for', v, E), ('for', t, mk('val', v)))
        k = mk('key', v)
        val = mk_seq([(st + (('if', eq(mk('gkey'), t)), ('uniq',), ('order', mk('keys', ((k, ASC),)), False)), k)])
        want = mk('group', 'BTreeMap', st, t, val)
        was = proj(P('g'), 'predecessors')
        # or by going over the items and their neighbors: every edge starts at an item
        v2 = elem(A)
        i2 = proj(mk('val', v2), 'id')
        t2 = elem(map_at(E, i2))
        st2 = (('for', v2, A), ('if', bnot(is_variant(mk('get', E, i2), 'Option', 'None'))), ('for', t2, map_at(E, i2)))
        val2 = mk_seq([(st2 + (('if', eq(mk('gkey'), t2)), ('uniq',), ('order', mk('keys', ((i2, ASC),)), False)), i2)])
        cached(c, sm, 'predecessors', want, mk('group', 'BTreeMap', st2, t2, val2))

    for n, f in (('iter', it), ('index', idx), ('neighbors', nb), ('predecessors', pr), ('small', small), ('byname', byname), ('graph', pg), ('preds', preds)):
        c.attempt(n, 'ir/ir.rs', f)
    for n in MUT:
        def one():
            sm = run(c, w, 'Items', n, [g], cells=(0,), over=memo(w))
            keep(c, n + '.keeps', sm, g, ['size', 'items', 'edges', 'roots', 'meta_root'])
        c.attempt(n + '.keeps', 'ir/ir.rs', one)


def cached(c, sm, f, *wants):
    """computed on first use, the same value afterwards"""
    was = proj(P('g'), f)
    got = field(sm.out[0], f)
    none = is_variant(was, 'Option', 'None')
    c.among('compute.' + f, sm.at, got, [mkphi([(none, Some(want)), (bnot(none), was)]) for want in wants])


def mapparam(n):
    return rl.mapparam(n)


# ---------------------------------------------------------------- dominators and retained sizes
def tree_term(w, g):
    A = proj(P('g'), 'items')
    v = elem(A)
    i = proj(mk('val', v), 'id')
    d = mk('idom', mk('dominators', mk('graph', proj(P('g'), 'edges'), A), proj(P('g'), 'meta_root')), i)
    some_ = bnot(is_variant(d, 'Option', 'None'))
    return A, v, i, d, some_


def recursive(w):
    """functions of the ir crate that call themselves"""
    out = []
    for b in w.bodies.values():
        if b.crate != IR or b.kind != 'fn':
            continue
        inner = [x for x in w.bodies.values() if x is b or x.crate == IR and x.kind == 'closure' and x.path.startswith(b.path + '::{')]
        for bl in [bl for x in inner for bl in x.blocks]:
            t = bl['t']
            if isinstance(t, dict) and 'f' in t:
                k = t['f'][1] if isinstance(t['f'], (list, tuple)) and len(t['f']) > 1 and isinstance(t['f'][1], dict) else {}
                fn_ = k.get('fn') or {}
                if b.id in (fn_.get('id'), (fn_.get('res') or {}).get('id')):
                    out.append(b)
                    break
    return out


def argpos(b):
    """positions of the memo table, the items, the item and the tree among the arguments"""
    pos = {}
    for i in range(b.nargs):
        ty = str(b.locals[i + 1])
        if 'BTreeMap' in ty and 'Vec' in ty:
            pos['tree'] = i
        elif 'BTreeMap' in ty:
            pos['memo'] = i
        elif re.search(r'\bItems\b', ty):
            pos['items'] = i
        elif re.search(r'\bItem\b', ty):
            pos['item'] = i
        elif re.search(r'\bId\b', ty):
            pos['id'] = i
    return pos


def R(i):
    return mk('api', 'R', i)


def memo(w, store=True):
    """inductive hypothesis: the recursive helper returns the retained size and stores it"""
    o = {}
    for b in recursive(w):
        pos = argpos(b)
        if not ({'memo', 'tree'} <= set(pos)) or not ({'item', 'id'} & set(pos)):
            continue

        def f(s, args, info, t, pos=pos):
            i = s.deep(args[pos['id']]) if 'id' in pos else proj(s.deep(args[pos['item']]), 'id')
            s.effect('tree', s.deep(args[pos['tree']]))
            if store:
                p = args[pos['memo']]
                s.store(p, mk('mapput', s.load(p), i, R(i)))
            return R(i)
        o[b.id] = f
    return o


@prop('P11', 'dominator tables and retained sizes')
def dom(c):
    w = c.world()
    g = items(w)
    A, v, i, d, some_ = tree_term(w, g)
    st = (('for', v, A), ('if', some_))
    p = proj(d, '0', 'Some')
    val = mk_seq([(st + (('if', eq(mk('gkey'), p)), ('uniq',), ('order', mk('keys', ((i, ASC),)), False)), i)])
    tree = mk('group', 'BTreeMap', st, p, val)

    def idoms():
        sm = run(c, w, 'Items', 'compute_dominators', [g], cells=(0,))
        cached(c, sm, 'immediate_dominators', mk('mapof', 'BTreeMap', mk_seq([(st, tup(i, p))])))

    def trees():
        sm = run(c, w, 'Items', 'compute_dominator_tree', [g], cells=(0,))
        cached(c, sm, 'dominator_tree', tree)

    def rets():
        T_ = mapparam('TREE')
        sm = run(c, w, 'Items', 'compute_retained_sizes', [items(w, dominator_tree=Some(T_))], cells=(0,), over=memo(w))
        cached(c, sm, 'retained_sizes', mk('mapof', 'BTreeMap', mk_seq([((('for', v, A),), tup(i, R(i)))])))
        tr = [x for x in sm.effects if x.kind == 'tree']
        if not tr:
            c.undecided('compute.retained_sizes.tree', sm.at, 'no recursive helper over the tree')
        c.true('compute.retained_sizes.tree', sm.at, all(x.args[0] is T_ for x in tr), 'retained sizes must be taken over the dominator tree')
        c.same('compute.retained_sizes.keeps-tree', sm.at, field(sm.out[0], 'dominator_tree'), Some(T_))
        s2 = run(c, w, 'Items', 'compute_retained_sizes', [items(w, retained_sizes=NONE, dominator_tree=NONE)], cells=(0,), over=memo(w))
        c.same('compute.retained_sizes.computes-tree', s2.at, field(s2.out[0], 'dominator_tree'), Some(tree))

    def step():
        bs = [b for b in recursive(w) if b.id in memo(w)]
        if len(bs) != 1:
            return c.undecided('retained.step', 'ir/ir.rs', 'no recursive helper found')
        b = bs[0]
        pos = argpos(b)
        M_, T_ = mapparam('MEMO'), mapparam('TREE')
        it = P('it')
        args = [None] * b.nargs
        args[pos['memo']] = M_
        args[pos['tree']] = T_
        if 'items' in pos:
            args[pos['items']] = g
        iid = P('iid')
        if 'item' in pos:
            args[pos['item']] = rl.sym(w, IR + '::Item', it)
            iid, sz = proj(it, 'id'), proj(it, 'size')
        else:
            args[pos['id']] = iid
            sz = proj(map_at(A, iid), 'size')
        if None in args:
            return c.undecided('retained.step', loc(w, b), 'arguments of the recursive helper')
        sm = c.seen(rl.evaluate(w, b, args, memo(w, False), cells=(pos['memo'],)))
        kids = table(T_, iid)
        ch = [(s_, e) for s_, e in as_segs(kids)]
        tot = sz
        for s_, e in ch:
            x = map_at(A, e)
            tot = tm.add(tot, asum(s_, R(e)))
        known = contains_key(M_, iid)
        known = contains_key(M_, iid)
        idsub = {proj(map_at(A, e), 'id'): e for s_, e in ch}   # the item stored under an id has that id
        # the item stored under an id has that id (builder rule)
        own = lambda x: x.a[0].a[1] if x.op == 'proj' and x.a[1] == 'id' and x.a[0].op == 'at' and x.a[0].a[0] is A else x
        rep = lambda t: Mapper(lambda x: None, None, own).t(t)
        c.same('retained.step', loc(w, b), rep(sm.ret), mkphi([(known, map_at(M_, iid)), (bnot(known), tot)]))
        c.same('retained.memo', loc(w, b), rep(sm.out[pos['memo']]), mkphi([(known, M_), (bnot(known), put(M_, iid, tot))]))

    for n, f in (('idoms', idoms), ('tree', trees), ('retained', rets), ('step', step)):
        c.attempt(n, 'ir/ir.rs', f)


# ---------------------------------------------------------------- names of functions
def starts(x, p):
    return as_bool(tm.ext('str::starts_with', x, S(p)))


def index_of(x, ch, last=False):
    v = elem(mk('charindices', x))
    st = (('for', v, mk('charindices', x)), ('if', eq(mk('char', ch), proj(v, '1'))))
    return exists(st), proj(first(st + ((('rev',),) if last else ()), v), '0')


def upto(x, n):
    return tm.ext('slice', x, n)


def assuming(hs, x, lits):
    """x, where under hs some literals are known"""
    return mkphi([(hs, pinned(x, lits)), (bnot(hs), x)])


def opt_text(x):
    n = is_variant(x, 'Option', 'None')
    return mkphi([(n, NONE), (bnot(n), Some(proj(x, '0', 'Some')))])


@prop('P09', 'how function symbols are demangled and which generic function they are taken to instantiate')
def demangling(c):
    w = c.world()
    n = P('name')

    def dem():
        try:
            over = {m_(w, 'Code', 'extract_generic_function').id: lambda s, a, info, t: mk('api', 'generic', s.deep(a[0]))}
        except Missing:
            over = None
        sm = run(c, w, 'Code', 'new', [n], over=over)
        ru = tm.ext('rustc_demangle::try_demangle', n)
        cp = tm.ext('Symbol::new', n)
        isr, isc = is_variant(ru, 'Result', 'Ok'), is_variant(cp, 'Result', 'Ok')
        mangled = bor(*[starts(n, p) for p in ('_Z', '__Z', '_GLOBAL_')])
        want = mkphi([(isr, Some(cat(proj(ru, '0', 'Ok')))),
                      (band(bnot(isr), bnot(mangled)), Some(cat(n))),
                      (band(bnot(isr), mangled, isc), Some(cat(proj(cp, '0', 'Ok')))),
                      (band(bnot(isr), mangled, bnot(isc)), NONE)])
        got = field(sm.ret, 'demangled')
        c.same('demangled', sm.at, got, want)
        # the generic is derived from the readable name
        none = is_variant(got, 'Option', 'None')
        shown = mkphi([(none, n), (bnot(none), proj(got, '0', 'Some'))])
        if not over:
            raise Missing('extract_generic_function')
        c.same('generic.source', sm.at, field(sm.ret, 'monomorphization_of'), mk('api', 'generic', shown))

    def gen():
        b = m_(w, 'Code', 'extract_generic_function')
        sm = c.seen(rl.evaluate(w, b, [P('sym')]))
        x = P('sym')
        h = tm.ext('str::rfind', x, S('::h'))
        l = tm.ext('str::rfind', x, S('::'))
        hs = bnot(is_variant(h, 'Option', 'None'))
        hi, li = proj(h, '0', 'Some'), proj(l, '0', 'Some')
        hash_ = band(hs, eq(hi, li))
        # every "::h" is also a "::"
        facts_ = [(is_variant(l, 'Option', 'None'), FALSE), (le0(tm.sub(hi, li)), TRUE), (le0(tm.sub(li, hi)), eq(hi, li))]
        ho, io = index_of(x, '<')
        hc, ic = index_of(x, '>', True)
        inst = band(ho, hc, le(io, ic), bnot(eq(io, I(0))))
        # two different characters are not found in one place
        apart = [(le0(tm.sub(io, ic)), lt(io, ic)), (eq(io, ic), FALSE)]

        def known_(x):
            return assuming(band(ho, hc), assuming(hs, plain(x), facts_), apart)
        c.same('generic', loc(w, b), known_(sm.ret), known_(mkphi([(hash_, Some(cut(x, hi))), (band(bnot(hash_), inst), Some(cut(x, io))), (band(bnot(hash_), bnot(inst)), NONE)])))

    def getters():
        for f in ('demangled', 'monomorphization_of'):
            sm = run(c, w, 'Code', f, [rl.sym(w, IR + '::Code', P('code'))])
            c.same('code.' + f, sm.at, sm.ret, opt_text(proj(P('code'), f)))
        k = proj(P('it'), 'kind')
        isc = is_variant(k, IR + '::ItemKind', 'Code')
        d, m = [proj(proj(k, '0', 'Code'), f) for f in ('demangled', 'monomorphization_of')]
        it = rl.sym(w, IR + '::Item', P('it'))
        sm = run(c, w, 'Item', 'name', [it])
        has = band(isc, bnot(is_variant(d, 'Option', 'None')))
        c.same('item.name', sm.at, sm.ret, mkphi([(has, proj(d, '0', 'Some')), (bnot(has), proj(P('it'), 'name'))]))
        sm = run(c, w, 'Item', 'monomorphization_of', [it])
        has = band(isc, bnot(is_variant(m, 'Option', 'None')))
        c.same('item.generic', sm.at, sm.ret, mkphi([(has, Some(proj(m, '0', 'Some'))), (bnot(has), NONE)]))
    c.attempt('demangled', 'ir/ir.rs', dem)
    c.attempt('generic', 'ir/ir.rs', gen)
    c.attempt('getters', 'ir/ir.rs', getters)


def cut(x, n):
    return mk('substr', x, adt('RangeTo', 'RangeTo', [('end', n)]))


def kinds(c):
    """which kind of item each kind of content makes"""
    w = c.world()
    for k, v in (('Code', 'Code'), ('Data', 'Data'), ('DebugInfo', 'Debug'), ('Misc', 'Misc')):
        def one():
            hits = [b for b in w.bodies.values() if b.crate == IR and re.search(r'<[\w:]*ItemKind as [\w:]*From<[\w:]*%s>>::from$' % k, b.path)]
            if len(hits) != 1:
                raise Missing('ItemKind from ' + k)
            sm = c.seen(rl.evaluate(w, hits[0], [P('x')]))
            c.same('kind.' + k, loc(w, hits[0]), sm.ret, adt(IR + '::ItemKind', v, [('0', P('x'))]))
        c.attempt('kind.' + k, 'ir/ir.rs', one)

    def isdata():
        sm = run(c, w, 'ItemKind', 'is_data', [P('k')])
        c.same('kind.is_data', sm.at, sm.ret, is_variant(P('k'), IR + '::ItemKind', 'Data'))
        sm = run(c, w, 'Data', 'new', [P('ty')])
        c.same('kind.data-type', sm.at, field(sm.ret, 'ty'), P('ty'))
    c.attempt('kind.is_data', 'ir/ir.rs', isdata)
