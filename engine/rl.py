"""Rule library: symbolic inputs, contracts between modules, and finding public entry points."""
import re
import sys
import facts
import ev
import models
from terms import *
import terms as tm

sys.setrecursionlimit(100000)


class Missing(Exception):
    """an anchor (public function, trait impl, type) the rules are about does not exist any more"""


# ---------------------------------------------------------------- contracts used instead of bodies
COMPUTED = {'compute_predecessors': ('predecessors', 'PRED'),
            'compute_dominators': ('immediate_dominators', 'IDOM'),
            'compute_dominator_tree': ('dominator_tree', 'DOMTREE'),
            'compute_retained_sizes': ('retained_sizes', 'RETAINED')}


def mapparam(n):
    p = mk('param', n)
    tm.MAPS.add(p)
    return p


def contract_compute(field, name):
    def f(s, args, info, t):
        c = args[0]
        v = s.load(c)
        if v.op == 'adt':
            s.store(c, with_field(v, field, None, Some(mapparam(name))))
            s.effect('computed', mk('name', field))
            return UNIT
        return s.inline(s.w.bodies[(info.get('res') or info)['id']], args, {})
    return f


_h = [0]


def new_handle(s, kind, parent, name=None):
    _h[0] += 1
    h = mk('handle', kind, _h[0])
    return h


def j_open(kind):
    def f(s, args, info, t):
        h = new_handle(s, kind, None)
        s.effect('jopen', h, mk('name', 'top'), s.deep(args[0]))
        return Ok(h)
    return f


def j_child(kind, named):
    def f(s, args, info, t):
        h = new_handle(s, kind, None)
        p = s.deep(args[0])
        s.effect('jopen', h, s.deep(args[1]) if named else mk('name', 'elem'), p)
        return Ok(h)
    return f


def json_type(ty):
    ty = ev.strip_ty(ty)
    if ty in ('str', 'std::string::String'):
        return 'string'
    if ty in ev.WIDTH and ty not in ('char', 'bool') or ty in ('f32', 'f64'):
        return 'number'
    return ty


def j_field(s, args, info, t):
    ty = ((t or {}).get('at') or ['', '', ''])[2]
    s.effect('jfield', s.deep(args[0]), s.deep(args[1]), s.deep(args[2]), mk('name', json_type(ty)))
    return Ok(UNIT)


def j_elem(s, args, info, t):
    s.effect('jelem', s.deep(args[0]), s.deep(args[1]))
    return Ok(UNIT)


def csv_writer(s, args, info, t):
    h = new_handle(s, 'csv', None)
    s.effect('csvopen', h, s.deep(args[0]))
    return h


def csv_serialize(s, args, info, t):
    r = s.deep(args[1])
    s.effect('csvrow', s.deep(args[0]), columns(s, r))
    return Ok(UNIT)


def csv_flush(s, args, info, t):
    s.effect('csvflush', s.deep(args[0]))
    return Ok(UNIT)


def columns(s, r):
    """record as the list of (column, value) its Serialize impl writes"""
    if r.op == 'phi':
        return mkphi([(g, columns(s, x)) for g, x in r.a[0]])
    if r.op == 'adt':
        im = s.find_impl('Serialize', r, 'serialize')
        if im is not None and im.id not in s.stack:
            ne = len(s.effects)
            nx = len(s.errexits)
            ctx, cond = s.ctx, s.cond
            s.inline(im, [r, mk('param', 'serializer')], {})
            cols = [e for e in s.effects[ne:] if e.kind == 'serfield']
            del s.effects[ne:]
            del s.errexits[nx:]
            return mk('seq', tuple((ctxrel(ctx, cond, e.stages), tup(e.args[0], e.args[1])) for e in cols))
    return r


def ctxrel(ctx, cond, st):
    import docs
    return docs.relative(ctx + ((('if', cond),) if cond is not TRUE else ()), st)


def ser_struct(s, args, info, t):
    return Ok(mk('param', '@serstruct'))


def ser_field(s, args, info, t):
    s.effect('serfield', s.deep(args[1]), s.deep(args[2]))
    return Ok(UNIT)


def ser_end(s, args, info, t):
    return Ok(UNIT)


def t_open(s, args, info, t):
    h = new_handle(s, 'table', None)
    s.effect('topen', h, s.deep(args[0]))
    return h


def t_row(s, args, info, t):
    s.effect('trow', s.deep(args[0]), s.deep(args[1]))
    return UNIT


def fmt_contracts(w):
    """overrides for the crate-private output helpers, keyed by resolved body"""
    o = {}
    for b in w.bodies.values():
        p = b.path
        if b.crate != 'twiggy_analyze':
            continue
        if p == 'formats::json::array':
            o[b.id] = j_open('array')
        elif p == 'formats::json::object':
            o[b.id] = j_open('object')
        elif re.match(r"^formats::json::Array::<'\w+>::(object|array)$", p):
            o[b.id] = j_child(p.split('::')[-1], False)
        elif re.match(r"^formats::json::Object::<'\w+>::(object|array)$", p):
            o[b.id] = j_child(p.split('::')[-1], True)
        elif re.match(r"^formats::json::Array::<'\w+>::elem$", p):
            o[b.id] = j_elem
        elif re.match(r"^formats::json::Object::<'\w+>::field$", p):
            o[b.id] = j_field
        elif p == 'formats::table::Table::with_header':
            o[b.id] = t_open
        elif p == 'formats::table::Table::add_row':
            o[b.id] = t_row
    o['Writer::from_writer'] = csv_writer
    o['Writer::serialize'] = csv_serialize
    o['Writer::flush'] = csv_flush
    o['Serializer::serialize_struct'] = ser_struct
    o['SerializeStruct::serialize_field'] = ser_field
    o['SerializeStruct::end'] = ser_end
    return o


def ir_contracts(w):
    o = {}
    for b in w.bodies.values():
        if b.crate == 'twiggy_ir':
            m = b.path.split('::')[-1]
            if m in COMPUTED and b.path.startswith('Items::'):
                o[b.id] = contract_compute(*COMPUTED[m])
    return o


# ---------------------------------------------------------------- symbolic inputs
def sym(w, path, base, over=None):
    """eta-expanded struct value: every field is a projection of `base`"""
    a = w.adts.get(path)
    if a is None or a['kind'] != 'struct':
        raise Missing('type ' + path)
    v = a['variants'][0]
    over = over or {}
    fs = []
    for f in v['fields']:
        n = f[0] if isinstance(f, (list, tuple)) else f['name']
        x = over[n] if n in over else proj(base, n)
        ty = str(f[1] if isinstance(f, (list, tuple)) else f.get('ty'))
        if n not in over and re.match(r'([\w:]*Frozen<)?[\w:]*BTreeSet<', ty):
            tm.SETS.add(x)
        elif n not in over and re.match(r'([\w:]*Frozen<)?[\w:]*BTreeMap<', ty):
            tm.SORTED.add(x)
            if re.search(r'BTreeSet<[^<>]*>>+$', ty):
                tm.SETVALS.add(x)
        fs.append((n, x))
    for n in over:
        if n not in [f for f, _ in fs]:
            raise Missing('field %s of %s' % (n, path))
    return adt(path, path.split('::')[-1], fs)


ITEMS = mk('param', 'items')


def sym_items(w, base=None, computed=()):
    base = base or ITEMS
    over = {}
    for m, (f, n) in COMPUTED.items():
        over[f] = Some(mapparam(n)) if m in computed else NONE
    r = sym(w, 'twiggy_ir::Items', base, over)
    for f in ('items', 'edges'):
        tm.MAPS.add(proj(base, f))
    tm.NONNEG.add(proj(base, 'size'))
    return r


class Summary:
    def __init__(s, e, b, ret, args, out):
        s.e, s.b, s.ret, s.args, s.out = e, b, ret, args, out
        s.effects = e.effects
        s.errexits = e.errexits

    def eff(s, *kinds):
        return [x for x in s.effects if x.kind in kinds]


def evaluate(w, b, args, over=None, gen=None, cells=(), assume=None, lossy=False):
    """value-flow summary of body b; args in `cells` positions are passed by mutable reference"""
    e = ev.Ev(w, models.M, over or {})
    e.drivers = {}
    e.lossy = lossy
    if assume is not None:
        e.assume = assume
    a2 = []
    for i, a in enumerate(args):
        a2.append(e.newcell(a) if i in cells else a)
    r = e.eval_body(b, a2, gen)
    out = [e.deep(a) for a in a2]
    return Summary(e, b, e.deep(r), a2, out)


def impl_fn(w, trait, ty, method):
    """body of `method` in `impl trait for ty` (last path segments)"""
    hits = []
    for c, im in w.impls:
        if im['trait'] and im['trait'].split('::')[-1].split('<')[0] == trait:
            h = ev.ty_head(im['self']).split('::')[-1]
            if h == ty:
                for it in im['items']:
                    if it[0] == method and it[1] in w.bodies:
                        hits.append(w.bodies[it[1]])
    if len(hits) != 1:
        raise Missing('impl %s for %s :: %s (%d found)' % (trait, ty, method, len(hits)))
    return hits[0]


def fn(w, path, crate):
    """body with exactly this path in this crate"""
    hits = [b for b in w.bodies.values() if b.crate == crate and b.path == path]
    if len(hits) != 1:
        raise Missing('%s::%s (%d found)' % (crate, path, len(hits)))
    return hits[0]


def method(w, crate, ty, name):
    """inherent method, whatever module the type is in"""
    hits = [b for b in w.bodies.values() if b.crate == crate and b.kind == 'fn' and re.match(r'^(\w+::)*%s(::<[^>]*>)?::%s$' % (ty, name), b.path)]
    if len(hits) != 1:
        raise Missing('%s::%s (%d found)' % (ty, name, len(hits)))
    return hits[0]
