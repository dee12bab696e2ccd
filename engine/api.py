"""Contracts of the crate-public interfaces, used when a *client* of that interface is analysed.

The crate boundary is the unit of modularity: `twiggy_analyze` can only reach items, edges, sizes
and options through the public methods of `twiggy_ir` and `twiggy_opt` (their fields are private,
so rustc itself enforces that no client bypasses them).  Clients are therefore summarised over the
methods' contracts, and the methods are checked against the same contracts by their own rules.
"""
import re
import ev
import rl
from rl import Missing, mapparam
from terms import *
import terms as tm


def api(name, *args):
    return mk('api', name, *args)


def universe(items):
    p = proj(items, 'all')
    tm.MAPS.add(p)
    return p


def pmap(items, n):
    p = proj(items, n)
    tm.MAPS.add(p)
    return p


def item_of(items, i):
    """items[id]"""
    if i.op == 'phi':
        return mkphi([(g, item_of(items, x)) for g, x in i.a[0]])
    if i.op == 'idof':
        return i.a[0]
    U = universe(items)
    if i.op == 'key' and i.a[0].a[0] is U:
        return mk('val', i.a[0])
    return mk('at', U, i)


def id_of(it):
    if it.op == 'phi':
        return mkphi([(g, id_of(x)) for g, x in it.a[0]])
    if it.op == 'val':
        return mk('key', it.a[0])
    if it.op == 'at':
        return it.a[1]
    return mk('idof', it)


def all_items(items):
    U = universe(items)
    v = elem(U)
    return mk('seq', (((('for', v, U),), mk('val', v)),))


def M(f):
    """contract over deep argument values"""
    def g(s, args, info, t):
        return f(s, [s.deep(a) for a in args])
    return g


def c_iter(s, a):
    return all_items(a[0])


def c_use(kind):
    def f(s, a):
        s.effect('uses', mk('name', kind), a[0])
        return pmap(a[0], kind)
    return f


def c_pred(s, a):
    s.effect('uses', mk('name', 'pred'), a[0])
    return api('predecessors', a[0], a[1])


def c_ret(s, a):
    s.effect('uses', mk('name', 'ret'), a[0])
    return nn(api('retained_size', a[0], a[1]))


def c_compute(*kinds):
    def f(s, a):
        for k in kinds:
            s.effect('computed', mk('name', k), a[0])
        return UNIT
    return f


def nn(t):
    tm.mark_unsigned(t)
    return t


def c_byname(s, a):
    U = universe(a[0])
    v = elem(U)
    it = mk('val', v)
    st = (('for', v, U), ('if', eq(proj(it, 'name'), a[1])))
    c = exists(st)
    return mkphi([(c, Some(mk('first', 'first', st, it))), (bnot(c), NONE)])


IR = {
    'Items::iter': c_iter,
    'Items::neighbors': lambda s, a: api('neighbors', a[0], a[1]),
    'Items::predecessors': c_pred,
    'Items::size': lambda s, a: nn(proj(a[0], 'size')),
    'Items::meta_root': lambda s, a: proj(a[0], 'meta_root'),
    'Items::compute_predecessors': c_compute('pred'),
    'Items::compute_dominators': c_compute('idom'),
    'Items::compute_dominator_tree': c_compute('domtree'),
    'Items::compute_retained_sizes': c_compute('domtree', 'ret'),
    'Items::immediate_dominators': c_use('idom'),
    'Items::dominator_tree': c_use('domtree'),
    'Items::retained_size': c_ret,
    'Items::get_item_by_name': c_byname,
    'Item::id': lambda s, a: id_of(a[0]),
    'Item::size': lambda s, a: nn(proj(a[0], 'size')),
    'Item::name': lambda s, a: proj(a[0], 'name'),
    'Item::kind': lambda s, a: proj(a[0], 'kind'),
    'Item::monomorphization_of': lambda s, a: proj(a[0], 'monomorphization_of'),
    'ItemKind::is_data': lambda s, a: is_variant(a[0], 'twiggy_ir::ItemKind', 'Data'),
    'Id::serializable': lambda s, a: nn(api('serializable', a[0])),
}


def ir_api(w):
    o = {}
    seen = set()
    for b in w.bodies.values():
        if b.crate != 'twiggy_ir':
            continue
        p = re.sub(r"::<'[^>]*>", '', b.path)
        if p in IR:
            o[b.id] = M(IR[p])
            seen.add(p)
        elif b.kind in ('fn', 'Fn', 'AssocFn') or True:
            m = re.match(r'^<(?:twiggy_ir::)?Items as (?:std::)?ops::Index<.*>>::index$', b.path)
            if m:
                o[b.id] = M(lambda s, a: item_of(a[0], a[1]))
                seen.add('index')
    miss = [k for k in list(IR) + ['index'] if k not in seen]
    if miss:
        raise Missing('public interface of twiggy_ir: ' + ', '.join(miss))
    return o


GETTERS = {'Top': ['max_items', 'retaining_paths', 'retained'],
           'Dominators': ['items', 'max_depth', 'max_rows', 'using_regexps'],
           'Paths': ['functions', 'max_depth', 'max_paths', 'descending', 'using_regexps'],
           'Monos': ['functions', 'only_generics', 'max_generics', 'max_monos', 'using_regexps'],
           'Diff': ['items', 'max_items', 'using_regexps'],
           'Garbage': ['max_items', 'show_data_segments']}


def opt_api(w):
    o = {}
    seen = set()
    for b in w.bodies.values():
        if b.crate != 'twiggy_opt':
            continue
        segs = re.sub(r"::<'[^>]*>", '', b.path).split('::')
        if len(segs) < 2:
            continue
        ty, m = segs[-2], segs[-1]
        if m in GETTERS.get(ty, ()):
            def f(s, a, m=m):
                v = a[0]
                r = proj(v, m)
                return nn(r) if m.startswith('max_') else (as_bool(r) if m in ('retaining_paths', 'retained', 'using_regexps', 'descending', 'only_generics', 'show_data_segments') else r)
            o[b.id] = M(f)
            seen.add((ty, m))
    miss = ['%s::%s' % (t, m) for t in GETTERS for m in GETTERS[t] if (t, m) not in seen]
    if miss:
        raise Missing('public interface of twiggy_opt: ' + ', '.join(miss))
    return o
