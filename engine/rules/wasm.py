"""The wasm front end: what parse_wasm adds to the item graph for any module, as one set of effects."""
import re
import rl
import ev
import wasmp
import canon
from wasmp import entry, entry_ok, pos, num_entries, payload, at_chunk, n_chunks, length_of
from check import prop, loc
from spec import *
from terms import *
import terms as tm
from rl import Missing

D = mk('param', 'data')
PARSER = 'twiggy_parser'
PL = 'wasmparser::Payload'

_memo = {}


def pure(n):
    return lambda s, args, info, t: mk('api', n, *[s.deep(a) for a in args])


class Wasm:
    def __init__(s, w):
        s.w = w
        bs = [b for b in w.bodies.values() if b.crate == PARSER and b.path.split('::')[-1] == 'parse_wasm' and b.kind == 'fn']
        if len(bs) != 1:
            raise Missing('twiggy_parser::parse_wasm (%d found)' % len(bs))
        s.b = bs[0]
        over = dict(wasmp.contracts(w))
        for b in w.bodies.values():
            if b.crate == 'twiggy_ir' and b.path == 'Code::new':
                over[b.id] = lambda st, args, info, t: adt('twiggy_ir::Code', 'Code', [('0', mk('api', 'code', st.deep(args[0])))])
                s.code_id = b.id
        s.sm = rl.evaluate(w, s.b, [D], over)
        st, s.el = ev.range_seg(I(0), n_chunks(D))
        s.st = st
        s.pay = payload(D, at_chunk(D, s.el))
        s.present = band(exists(st + (('if', s.isv('FunctionSection')),)), exists(st + (('if', s.isv('CodeSectionStart')),)))
        s.func = s.last('FunctionSection', s.fld('FunctionSection', '0'))
        rng = s.fld('CodeSectionStart', 'range')
        sl = proj(mk('getrange', D, adt('Range', 'Range', [('start', proj(rng, 'start')), ('end', proj(rng, 'end'))])), '0', 'Some')
        s.code = s.last('CodeSectionStart', proj(mk('api', 'CodeSectionReader::new', sl, proj(rng, 'start')), '0', 'Ok'))
        s.ci = s.last('CodeSectionStart', s.el)
        s.fi = s.last('FunctionSection', s.el)

    def isv(s, v):
        return is_variant(s.pay, PL, v)

    def fld(s, v, f):
        return proj(s.pay, f, v)

    def last(s, v, x):
        return ev.last(s.st + (('if', s.isv(v)),), x)

    # ---- ids, through the constructors of the crate itself
    def idf(s, m, *args):
        b = rl.method(s.w, 'twiggy_ir', 'Id', m)
        return rl.evaluate(s.w, b, list(args)).ret

    def eid(s, i, j):
        return s.idf('entry', i, j)

    def sid(s, i):
        return s.idf('section', i)

    # ---- effects that concern the sections of one kind
    def under(s, t, c, el=None):
        el = el or s.el

        def pre(x):
            if x.op == 'phi':
                alts = [(constrain(g, c) if el in g.fv else g, v) for g, v in x.a[0] if band(g, c) is not FALSE]
                return mkphi(alts)
            if x.op == 'b' and el in x.fv:
                return constrain(x, c)
            return x
        return Mapper(lambda x: x if el not in x.fv else None, lambda x: el in x.fv, pre).t(t)

    def of(s, kind, v):
        """[(stages, args)] of the effects inside the loop over all sections, for sections of kind v"""
        c = s.isv(v)
        out = []
        for x in s.sm.effects:
            if x.kind != kind:
                continue
            i = next((i for i, sg in enumerate(x.stages) if sg[0] == 'for' and sg[1] is s.el), None)
            if i is None:
                continue
            st, ok = [], True
            for j, sg in enumerate(x.stages):
                if j == i:
                    continue
                if sg[0] == 'if':
                    if band(sg[1], c) is FALSE:
                        ok = False
                        break
                    g = s.spared(x.stages[:j], s.under(constrain(sg[1], s.present), c), c)
                    if g is not TRUE:
                        st.append(('if', g))
                elif sg[0] == 'for':
                    st.append(('for', sg[1], s.under(sg[2], c)))
                else:
                    st.append(sg)
            if ok:
                out.append((tuple(st), [s.under(a, c) for a in x.args]))
        return out

    def spared(s, st, g, c):
        """g without what makes no difference because parsing fails otherwise"""
        if g is TRUE:
            return g
        fors = [x[1] for x in st if x[0] == 'for']
        F = FALSE
        for _, ctx, bad, _ in s.sm.errexits:
            if [x[1] for x in ctx if x[0] == 'for'] == fors and all(x[0] in ('for', 'if', 'loop') for x in ctx):
                F = bor(F, s.under(constrain(band(bad, *[x[1] for x in ctx if x[0] == 'if']), s.present), c))
        for a in BD.support(g.a[0]):
            x = atom(a)
            h = bor(*[constrain(g, y) for y in (x, bnot(x)) if band(g, y) is not FALSE])
            if band(h, bnot(g), bnot(F)) is FALSE:
                g = h
        return g

    def outside(s, kind):
        """effects that are not per section: the code section's"""
        out = []
        for x in s.sm.effects:
            if x.kind == kind and not any(sg[0] == 'for' and sg[1] is s.el for sg in x.stages):
                st = []
                for sg in x.stages:
                    if sg[0] == 'if':
                        g = constrain(sg[1], s.present)
                        if g is not TRUE:
                            st.append(('if', g))
                    else:
                        st.append(sg)
                out.append((tuple(st), list(x.args)))
        return out


def wasm(c):
    w = c.world()
    if id(w) not in _memo:
        _memo[id(w)] = Wasm(w)
    W = _memo[id(w)]
    c.seen(W.sm)
    return W


def norm(t):
    """values read back from a map that was filled for every key"""
    def pre(x):
        if x.op == 'at' and x.a[0].op == 'mapof':
            segs = as_segs_raw(x.a[0].a[1])
            if len(segs) == 1:
                st, e = segs[0]
                if len(st) == 1 and st[0][0] == 'for' and st[0][2].op == 'range' and proj(e, '0') is st[0][1] and x.a[1].op == 'elem' and x.a[1].a[0] is st[0][2]:
                    return subst(proj(e, '1'), {st[0][1]: x.a[1]})
        return x
    return Mapper(lambda x: None, None, pre).t(t)


def as_segs_raw(q):
    return q.a[0] if q.op == 'seq' else ()


def keyed(rows, f):
    """one sequence of (id, what f picks), in an order that does not depend on the code"""
    segs = [(st, f(a)) for st, a in rows]
    segs = [(st, e) for st, e in segs]
    segs.sort(key=lambda x: (str(x[1].a[2][0][1].i if x[1].op == 'adt' else x[1].i), len(x[0])))
    return norm(mk_seq(segs))


def u32(x):
    return cast_u32(x)


def cast_u32(x):
    return mk('cast', 'u32', x)


# ---------------------------------------------------------------- what is required, per kind of section
SIMPLE = {'TypeSection': 'type', 'ImportSection': 'import', 'TableSection': 'table', 'MemorySection': 'memory', 'GlobalSection': 'global',
          'ExportSection': 'export', 'ElementSection': 'element', 'DataSection': 'data'}
NAMED = {'TypeSection': 'type section headers', 'ImportSection': 'import section headers', 'TableSection': 'table section headers',
         'MemorySection': 'memory section headers', 'GlobalSection': 'global section headers', 'ExportSection': 'export section headers',
         'StartSection': 'start section headers', 'ElementSection': 'element section headers', 'DataSection': 'data section headers',
         'DataCountSection': 'data count section headers', 'Version': 'wasm magic bytes'}
KINDS = {'Code': 'Code', 'Data': 'Data', 'Debug': 'DebugInfo', 'Misc': 'Misc'}
OTHER = ['AliasSection', 'TagSection', 'InstanceSection', 'ModuleSectionStart', 'ModuleSectionEntry', 'UnknownSection', 'End']
TYPES = {'I32': 'i32', 'I64': 'i64', 'F32': 'f32', 'F64': 'f64', 'V128': 'v128', 'FuncRef': 'funcref', 'ExnRef': 'externref', 'ExternRef': 'externref',
         'Func': '?', 'EmptyBlockType': '?'}
SUBS = {'Module': 'module name', 'Function': 'function names', 'Local': 'local names', 'Unknown': 'unknown name', 'Label': 'label names', 'Type': 'type names',
        'Table': 'table names', 'Memory': 'memory names', 'Global': 'global names', 'Element': 'element names', 'Data': 'data names'}


def variants(w, path):
    for k, a in w.adts.items():
        if k == path or k.endswith('::' + path.split('::')[-1]) and k.split('::')[0] == path.split('::')[0]:
            return [v['name'] for v in a['variants']]
    return None


def table_of(x, path, names):
    return mkphi([(is_variant(x, path, v), n if isinstance(n, T) else S(n)) for v, n in names.items()])


class Row:
    def __init__(s, st, id, size, name, kind, which, ty=None):
        s.st, s.id, s.size, s.name, s.kind, s.which, s.ty = st, id, size, name, kind, which, ty


def wty(x):
    return table_of(x, 'wasmparser::Type', TYPES)


def ents(r):
    st, j = ev.range_seg(I(0), num_entries(r))
    return (st, j)


def esize(r, j):
    return u32(sub(pos(r, add(j, I(1))), pos(r, j)))


def type_name(W, j, f):
    ps, rs = proj(f, 'params'), proj(f, 'returns')

    def commas(x):
        segs = mk_seq([(st, cat(wty(e))) for st, e in as_segs(x)])
        return mk('join', segs, S(', '))
    n = count(as_segs(rs)[0][0])
    one = wty(mk('index', rs, I(0)))
    ret = mkphi([(eq(n, I(0)), S('nil')), (eq(n, I(1)), cat(one)), (bnot(bor(eq(n, I(0)), eq(n, I(1)))), cat(S('('), commas(rs), S(')')))])
    return cat(S('type['), to_str(j), S(']: ('), commas(ps), S(') -> '), ret)


def map_names(W, variant):
    """names given by the name section: index -> name, over every custom section called "name" """
    sec = W.isv('CustomSection')
    nm = W.fld('CustomSection', 'name')
    r = proj(mk('api', 'NameSectionReader::new', W.fld('CustomSection', 'data'), W.fld('CustomSection', 'data_offset')), '0', 'Ok')
    st2, k = ents(r)
    ok = is_variant(entry(r, k), 'Result', 'Ok')
    sub_ = entry_ok(r, k)
    m = proj(mk('api', 'NameMap::get_map', proj(sub_, '0', variant)), '0', 'Ok')
    st3, q = ents(m)
    e = entry_ok(m, q)
    st = W.st + (('if', sec), ('if', eq(nm, S('name')))) + st2 + (('if', band(ok, is_variant(sub_, 'wasmparser::Name', variant))),) + st3
    return mk('mapof', 'HashMap', mk_seq([(st, tup(proj(e, 'index'), proj(e, 'name')))]))


def get(m, k):
    return mk('get', m, k)


def named(m, k, yes, no):
    none = is_variant(get(m, k), 'Option', 'None')
    return mkphi([(bnot(none), yes(mk('at', m, k))), (none, no)])


def imported(W):
    r = W.fld('ImportSection', '0')
    st2, k = ents(r)
    f = is_variant(proj(entry_ok(r, k), 'ty'), 'wasmparser::ImportSectionEntryType', 'Function')
    return asum(W.st + (('if', W.isv('ImportSection')),), count(st2 + (('if', f),)))


def rows(W, V):
    i = W.el
    out = []
    if V in SIMPLE:
        r = W.fld(V, '0')
        st, j = ents(r)
        e = entry_ok(r, j)
        kind, which, ty = 'Misc', 'item', None
        if V == 'TypeSection':
            fn_ = is_variant(e, 'wasmparser::TypeDef', 'Func')
            st = st + (('if', fn_),)
            nm = type_name(W, j, proj(e, '0', 'Func'))
        elif V == 'ImportSection':
            f = proj(e, 'field')
            none = is_variant(f, 'Option', 'None')
            nm = txt('import ', proj(e, 'module'), '::', mkphi([(none, S('unknown')), (bnot(none), proj(f, '0', 'Some'))]))
        elif V == 'ExportSection':
            nm, which = txt('export "', proj(e, 'field'), '"'), 'root'
        elif V == 'TableSection':
            nm, which = txt('table[', j, ']'), 'root'
        elif V == 'MemorySection':
            nm = txt('memory[', j, ']')
        elif V == 'GlobalSection':
            nm, kind = txt('global[', j, ']'), 'Data'
            ty = Some(cat(wty(proj(proj(e, 'ty'), 'content_type'))))
        elif V == 'ElementSection':
            nm = txt('elem[', j, ']')
        elif V == 'DataSection':
            kind = 'Data'
            ty = NONE
            nm = named(map_names(W, 'Data'), j, lambda n: txt('data segment "', n, '"'), txt('data[', j, ']'))
        out.append(Row(st, W.eid(i, j), esize(r, j), nm, kind, which, ty))
    if V == 'CustomSection':
        nm = W.fld(V, 'name')
        isn = eq(nm, S('name'))
        r = proj(mk('api', 'NameSectionReader::new', W.fld(V, 'data'), W.fld(V, 'data_offset')), '0', 'Ok')
        st, k = ents(r)
        ok = is_variant(entry(r, k), 'Result', 'Ok')
        stn = (('if', isn),) + st + (('if', ok),)
        out.append(Row(stn, W.eid(i, idx(st + (('if', ok),))), esize(r, k),
                       table_of(entry_ok(r, k), 'wasmparser::Name', {a: S('"%s" subsection' % b) for a, b in SUBS.items()}), 'Debug', 'root'))
        out.append(Row((('if', bnot(isn)),), W.eid(i, I(0)), u32(length_of(W.fld(V, 'data'))), txt("custom section '", nm, "'"), 'Misc', 'item'))
    if V not in ('CodeSectionEntry', 'FunctionSection', 'CodeSectionStart'):
        used = I(0)
        for x in out:
            used = add(used, asum(x.st, x.size))
        c_ = u32(wasmp.consumed(D, at_chunk(D, i)))
        if V == 'CustomSection':
            nm = txt("custom section '", W.fld(V, 'name'), "' headers")
        else:
            nm = S(NAMED[V]) if V in NAMED else None
        out.append(Row((), W.sid(i), sub(c_, used), nm, 'Misc', 'root'))
    return out


def idx(st):
    return ev.idx_of(st)


def code_rows(W):
    st, j = ents(W.code)
    size_ = add(esize(W.code, j), esize(W.func, j))
    nm = named(map_names(W, 'Function'), add(j, imported(W)), lambda n: cat(n), txt('code[', j, ']'))
    e = Row(st, W.eid(W.ci, j), size_, nm, 'Code', 'item')
    end = lambda r: proj(r, 'end')
    cs = u32(sub(end(W.fld('CodeSectionStart', 'range')), at_chunk(D, W.el)))
    fs = u32(sub(end(mk('api', 'range', W.fld('FunctionSection', '0'))), at_chunk(D, W.el)))
    tot = add(W.last('CodeSectionStart', cs), W.last('FunctionSection', fs))
    return [e, Row((), W.sid(W.ci), sub(tot, asum(st, size_)), S('code section headers'), 'Misc', 'root')]


def variant_of(k):
    k = unkind(k)
    return mk('name', k.a[1]) if k.op == 'adt' else k


def unkind(k):
    """ItemKind::X(x) and x are told apart by the From impls, checked on their own"""
    if k.op == 'adt' and k.a[0].endswith('::ItemKind') and len(k.a[2]) == 1:
        return k.a[2][0][1]
    return k


def data_ty(k):
    k = unkind(k)
    if k.op == 'adt' and k.a[1] == 'Data':
        return k.a[2][0][1]
    return mk('name', '-')


FACETS = {
    'size': (lambda it, wh: nn_(proj(it, 'size')), lambda r: r.size),
    'name': (lambda it, wh: proj(it, 'name'), lambda r: r.name),
    'kind': (lambda it, wh: tup(variant_of(proj(it, 'kind')), data_ty(proj(it, 'kind'))),
             lambda r: tup(mk('name', KINDS[r.kind]), r.ty if r.kind == 'Data' else mk('name', '-'))),
    'root': (lambda it, wh: wh, lambda r: mk('name', r.which)),
}


def nn_(x):
    return x


def compare(c, W, facet, V, got, want):
    fg, fw = FACETS[facet]
    if facet == 'name':
        keep = [i for i, r in enumerate(want) if r.name is not None]
        drop = [r.id for r in want if r.name is None]
        want = [want[i] for i in keep]
        got = [(st, a) for st, a in got if not any(proj(a[0], 'id') is d for d in drop)]
    g = keyed(got, lambda a: tup(proj(a[0], 'id'), fg(a[0], a[1])))
    h = keyed([(r.st, r) for r in want], lambda r: tup(r.id, fw(r)))
    c.same('items.%s.%s' % (facet, V), loc(W.w, W.b), g, h)


def items_facet(c, facet):
    W = wasm(c)
    vs = variants(W.w, PL) or sorted(SIMPLE) + ['CustomSection', 'StartSection', 'DataCountSection', 'Version'] + OTHER
    for V in sorted(vs):
        c.attempt('items.%s.%s' % (facet, V), 'parse_wasm', lambda: compare(c, W, facet, V, W.of('item', V), rows(W, V)))
    c.attempt('items.%s.code' % facet, 'parse_wasm', lambda: compare(c, W, facet, 'code', W.outside('item'), code_rows(W)))


@prop('P01', 'per section, the item sizes added by the wasm front end sum to the bytes the section occupies; entries get exactly their own bytes')
def sizes(c):
    items_facet(c, 'size')


@prop('P08', 'names of wasm items')
def names(c):
    items_facet(c, 'name')
    items_facet(c, 'kind')
    from rules import ir
    ir.kinds(c)


# ---------------------------------------------------------------- references
def whole(X):
    """the concatenation of what one section contributes to an index space"""
    segs = as_segs(X)
    if len(segs) == 1:
        return X
    v = elem(mk('whole', X))
    return mk_seq([((('for', v, mk('whole', X)),), v)])


def space(W, imp, own=None):
    """ids of an index space: imports of the kind and own entries, in the order of the sections"""
    r = W.fld('ImportSection', '0')
    st, j = ents(r)
    k = is_variant(proj(entry_ok(r, j), 'ty'), 'wasmparser::ImportSectionEntryType', imp)
    parts = [((('if', W.isv('ImportSection')),) + st + (('if', k),), W.eid(W.el, j))]
    if own:
        q = W.fld(own, '0')
        st2, j2 = ents(q)
        parts.append(((('if', W.isv(own)),) + st2, W.eid(W.el, j2)))
    return parts


def spaces(W):
    def one(imp, own):
        a, b = space(W, imp, own)
        out = []
        for parts in ((a, b), (b, a)):
            X = whole(mk_seq(list(parts)))
            out.append(mk_seq([(W.st + st, e) for st, e in as_segs(X)]))
        return out
    st, i = ents(W.func)
    f = mk_seq([(W.st + a, e) for a, e in space(W, 'Function')] + [((('if', W.present),) + st, W.eid(W.ci, i))])
    return {'Function': [f], 'Table': one('Table', 'TableSection'), 'Memory': one('Memory', 'MemorySection'), 'Global': one('Global', 'GlobalSection')}


def types_map(W):
    r = W.fld('TypeSection', '0')
    st, j = ents(r)
    fn_ = is_variant(entry_ok(r, j), 'wasmparser::TypeDef', 'Func')
    return mk('mapof', 'HashMap', mk_seq([(W.st + (('if', W.isv('TypeSection')),) + st + (('if', fn_),), tup(u32(j), W.eid(W.el, j)))]))


def index(k, x):
    """the item an index refers to, in index space k (compared on its own)"""
    return mk('api', 'space', mk('name', k), x)


def abstract_spaces(W):
    """replace every index space found in the code by its name"""
    m = {}
    for k, alts in spaces(W).items():
        for a in alts:
            m[plain(a)] = k

    def pre(x):
        if x.op == 'index' and x.a[0].op == 'seq':
            k = m.get(plain(x.a[0]))
            if k is not None:
                return index(k, x.a[1])
        return x
    return lambda t: Mapper(lambda x: None, None, pre).t(t)


def edge_rows(W, V):
    i = W.el
    out = []
    if V == 'ExportSection':
        r = W.fld(V, '0')
        st, j = ents(r)
        e = entry_ok(r, j)
        for k in ('Function', 'Table', 'Memory', 'Global'):
            out.append((st + (('if', is_variant(proj(e, 'kind'), 'wasmparser::ExternalKind', k)),), W.eid(i, j), index(k, proj(e, 'index'))))
    if V == 'StartSection':
        out.append(((), W.sid(i), index('Function', W.fld(V, 'func'))))
    if V == 'ElementSection':
        r = W.fld(V, '0')
        st, j = ents(r)
        e = entry_ok(r, j)
        act = is_variant(proj(e, 'kind'), 'wasmparser::ElementKind', 'Active')
        out.append((st + (('if', act),), index('Table', proj(proj(e, 'kind'), 'table_index', 'Active')), W.eid(i, j)))
        q = proj(mk('api', 'ElementItems::get_items_reader', proj(e, 'items')), '0', 'Ok')
        st2, k = ents(q)
        x = entry_ok(q, k)
        out.append((st + st2 + (('if', is_variant(x, 'wasmparser::ElementItem', 'Func')),), W.eid(i, j), index('Function', proj(x, '0', 'Func'))))
    if V == 'GlobalSection':
        r = W.fld(V, '0')
        st, j = ents(r)
        q = mk('api', 'InitExpr::get_operators_reader', proj(entry_ok(r, j), 'init_expr'))
        st2, k = ents(q)
        x = entry_ok(q, k)
        out.append((st + st2 + (('if', is_variant(x, 'wasmparser::Operator', 'RefFunc')),), W.eid(i, j), index('Function', proj(x, 'function_index', 'RefFunc'))))
        out.append((st + st2 + (('if', is_variant(x, 'wasmparser::Operator', 'GlobalGet')),), W.eid(i, j), index('Global', proj(x, 'global_index', 'GlobalGet'))))
    return out


LOADS = ['I32Load', 'I32Load8S', 'I32Load8U', 'I32Load16S', 'I32Load16U', 'I64Load', 'I64Load8S', 'I64Load8U', 'I64Load16S', 'I64Load16U', 'I64Load32S',
         'I64Load32U', 'F32Load', 'F64Load']
REFS = {'Call': ('Function', 'function_index'), 'ReturnCall': ('Function', 'function_index'), 'RefFunc': ('Function', 'function_index'),
        'GlobalGet': ('Global', 'global_index'), 'GlobalSet': ('Global', 'global_index')}


def ops(W):
    st, j = ents(W.code)
    q = proj(mk('api', 'FunctionBody::get_operators_reader', entry_ok(W.code, j)), '0', 'Ok')
    st2, k = ents(q)
    return j, q, k, st + st2, entry_ok(q, k)


def restrict_rows(W, rows, c, v):
    out = []
    for st, a in rows:
        s2, ok = [], True
        for sg in st:
            if sg[0] == 'if':
                if band(sg[1], c) is FALSE:
                    ok = False
                    break
                g = constrain(W.under(sg[1], c, v), c)
                if g is not TRUE:
                    s2.append(('if', g))
            else:
                s2.append(sg)
        if ok:
            out.append((tuple(s2), [W.under(x, c, v) for x in a]))
    return out


def pairs(rows):
    segs = [(st, tup(*a)) for st, a in rows]
    segs = as_segs(plain(norm(mk_seq(segs))))
    # one row per alternative of a value, alternatives with equal values together
    parts = {}
    for st, e in segs:
        xs = [x for _, x in e.a[2]] if e.op == 'adt' else None
        alts = [(TRUE, [])]
        for x in xs or ():
            alts = [(band(g, h), ys + [y]) for g, ys in alts for h, y in tm.phis(x)]
        for g, ys in alts if xs else [(TRUE, None)]:
            last = st[-1][1] if st and st[-1][0] == 'if' else TRUE
            g = band(last, g)
            if g is not FALSE:
                k = (st[:-1] if last is not TRUE else st, tup(*ys) if xs else e)
                parts[k] = bor(parts.get(k, FALSE), g)
    segs = [(st + ((('if', g),) if g is not TRUE else ()), e) for (st, e), g in parts.items()]
    return mk_seq(sorted(segs, key=lambda x: (x[1].i, str([(sg[0], sg[1].i) for sg in x[0]]))))


def edges(c):
    W = wasm(c)
    ab = abstract_spaces(W)
    at = loc(W.w, W.b)
    body = [(st, [ab(norm(x)) for x in a]) for st, a in W.outside('edge')]
    j, q, k, st, op = ops(W)
    me = W.eid(W.ci, j)
    per_op, rest = [], []
    for r in body:
        (per_op if any(sg[0] == 'for' and sg[1] is k for sg in r[0]) else rest).append(r)
    return W, at, ab, per_op, rest, (j, q, k, st, op, me)


@prop('P03', 'operators of a code body and the references they make')
def body_edges(c):
    W, at, ab, per_op, rest, (j, q, k, st, op, me) = edges(c)
    vs = variants(W.w, 'wasmparser::Operator')
    if not vs:
        return c.undecided('edges.body', at, 'the operator type is not known')
    odd = unknowns(plain(pairs(rest)))
    if odd:
        return c.undecided('edges.body', at, 'references not understood, not modelled: %s' % sorted(odd)[:6])
    none = []
    for V in sorted(vs):
        g = pairs(restrict_rows(W, per_op, is_variant(op, 'wasmparser::Operator', V), k))
        if V in REFS:
            sp, f = REFS[V]
            want = [(st, [me, index(sp, proj(op, f, V))])]
        elif V in LOADS:
            pv = entry_ok(q, sub(k, I(1)))
            addr = add(mk('cast', 'u32', proj(pv, 'value', 'I32Const')), proj(proj(op, 'memarg', V), 'offset'))
            cond = band(bnot(eq(k, I(0))), is_variant(pv, 'wasmparser::Operator', 'I32Const'))
            want = None
            hit = mk('api', 'get_data', addr)
            cond = band(cond, atom(mk('fits', addr)), bnot(is_variant(hit, 'Option', 'None')))
            want = [(st + (('if', cond),), [me, proj(hit, '0', 'Some')])]
        else:
            want = []
        h = pairs(want)
        if V in REFS or V in LOADS:
            c.same('edges.body.%s' % V, at, g, h)
        else:
            none.append((V, g))
    bad = [(V, g) for V, g in none if g is not SEQ0]
    if bad:
        c.same('edges.body.%s' % bad[0][0], at, bad[0][1], SEQ0)
    else:
        c.true('edges.body.other-operators', at, True)
    c.notes.append('%d operators' % len(vs))


@prop('P05', 'references made by exports, the start section, elements, globals and function types; roots')
def struct_edges(c):
    W, at, ab, per_op, rest, (j, q, k, st, op, me) = edges(c)
    vs = variants(W.w, PL) or sorted(SIMPLE)
    for V in sorted(vs):
        if V in ('CodeSectionStart', 'FunctionSection', 'CodeSectionEntry'):
            continue
        got = [(s_, [ab(norm(x)) for x in a]) for s_, a in W.of('edge', V)]
        c.same('edges.%s' % V, at, pairs(got), pairs([(s_, [a, b]) for s_, a, b in edge_rows(W, V)]))
    st2, i = ents(W.func)
    want = [(st2, [W.eid(W.ci, i), mk('at', types_map(W), entry_ok(W.func, i))])]
    c.same('edges.body-type', at, pairs(rest), pairs(want))
    items_facet(c, 'root')


# ---------------------------------------------------------------- data segments
@prop('P06', 'data segments: recorded with their constant address and length before any load is resolved; lookup of an address')
def data_segments(c):
    from rules import ir
    W = wasm(c)
    at = loc(W.w, W.b)

    def rows_():
        r = W.fld('DataSection', '0')
        st, j = ents(r)
        e = entry_ok(r, j)
        k = proj(e, 'kind')
        act = is_variant(k, 'wasmparser::DataKind', 'Active')
        q = mk('api', 'InitExpr::get_operators_reader', proj(k, 'init_expr', 'Active'))
        op = entry_ok(q, I(0))
        i32 = is_variant(op, 'wasmparser::Operator', 'I32Const')
        i64 = is_variant(op, 'wasmparser::Operator', 'I64Const')
        n = length(proj(e, 'data'))
        id_ = W.eid(W.el, j)
        addr = mkphi([(bnot(i32), proj(op, 'value', 'I64Const')), (i32, proj(op, 'value', 'I32Const'))])
        want = [(st + (('if', band(act, bor(i32, i64))),), [addr, n, id_])]
        c.same('segments', at, pairs(W.of('link', 'DataSection')), pairs(want))
        rest = [V for V in (variants(W.w, PL) or []) if V != 'DataSection' and V not in ('CodeSectionStart', 'FunctionSection', 'CodeSectionEntry')
                and W.of('link', V)]
        c.true('segments.only', at, not rest and not W.outside('link'), 'segments recorded for sections other than data: %s' % rest)

    def order_():
        ks = [x.kind for x in W.sm.effects if x.kind in ('link', 'getdata')]
        c.true('segments.first', at, 'getdata' not in ks or 'link' not in ks[ks.index('getdata'):] and 'link' in ks,
               'a load is resolved before every data segment is recorded')
    c.attempt('segments', at, rows_)
    c.attempt('segments.first', at, order_)
    ir.data_rules(c)
