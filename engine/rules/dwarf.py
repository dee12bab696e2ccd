"""object files: one code item per subprogram entry with a size"""
from .common import *
import ev
import models
from rl import fn, method

PARSER = 'twiggy_parser'


def val(s, p):
    return s.deep(p)


def over_each(src):
    v = elem(src)
    return mk('seq', (((('for', v, src),), v),))


def c_units(s, args, info, t):
    return over_each(mk('api', 'units', val(s, args[0])))


def c_ranges(s, args, info, t):
    u, o = val(s, args[1]), val(s, args[2])
    return Ok(over_each(mk('api', 'ranges', u, o)))


def c_entries(s, args, info, t):
    return mk('api', 'entries', val(s, args[0]))


def rooted(u):
    return atom(mk('api', 'rooted', u))


def c_dfs(s, args, info, t):
    v = val(s, args[0])
    if v.op == 'api' and v.a[0] == 'entries' and args[0].op == 'ptr':
        u = v.a[1]
        s.store(args[0], over_each(mk('api', 'descendants', u)))
        ok = rooted(u)
        return Ok(mkphi([(ok, Some(tup(I(0), mk('api', 'root', u)))), (bnot(ok), NONE)]))
    return None


def c_next(s, args, info, t):
    r = models.M['Iterator::next'](s, args, info, t)
    return None if r is None else Ok(r)


def unok(s, f):
    """call a fallible closure; its failure ends the function it is used in"""
    def g(*a):
        v = s.deep(f(*a))
        return proj(v, '0', 'Ok')
    return g


def c_map(s, args, info, t):
    q = models.it(s, args[0])
    if q is None:
        return None
    return mk_seq(s.each(q, lambda e: proj(s.deep(s.call_value(args[1], [e], t)), '0', 'Ok')))


def c_fold(s, args, info, t):
    q = models.it(s, args[0])
    if q is None:
        return None
    p = s.newcell(args[1], 'acc')

    def body(e):
        s.mem[p.a[0]] = proj(s.deep(s.call_value(args[2], [s.mem[p.a[0]], e], t)), '0', 'Ok')
        return [(s.cond, s.mem)], []
    r = s.run_segs(ev.as_segs(q), body)
    s.mem, s.cond = r['mem'], r['cond']
    return Ok(s.mem[p.a[0]])


def c_enum(s, args, info, t):
    return models.M['Iterator::enumerate'](s, args, info, t)


def named(n, *idx):
    def f(s, args, info, t):
        return mk('api', n, *[val(s, args[i]) for i in idx])
    return f


def contracts(w):
    o = {'Dwarf::units': c_units, 'DebugInfo::units': c_units, 'Dwarf::unit': named('unit', 1), 'Unit::entries': c_entries, 'EntriesCursor::next_dfs': c_dfs,
         'FallibleIterator::next': c_next, 'DebugInfoUnitHeadersIter::next': c_next, 'RngListIter::next': c_next, 'RangeIter::next': c_next, 'FallibleIterator::map': c_map, 'FallibleIterator::fold': c_fold, 'FallibleIterator::enumerate': c_enum,
         'Dwarf::ranges': c_ranges, 'Dwarf::ranges_offset_from_raw': named('rawoff', 1, 2), 'DebuggingInformationEntry::attr_value': named('attr', 0, 1),
         'DebuggingInformationEntry::tag': lambda s, a, i, t: adt('gimli::DwTag', 'DwTag', [('0', mk('api', 'tag', val(s, a[0])))]), 'Dwarf::attr_string': named('attr_string', 1, 2), 'Reader::to_string': named('utf8', 0),
         'File::parse': named('file', 0), 'UnitHeader::version': named('version', 0), 'UnitHeader::address_size': named('address_size', 0),
         'DebuggingInformationEntry::has_children': named('has_children', 0), 'DebuggingInformationEntry::offset': named('offset', 0),
         'Arena::alloc': lambda s, a, i, t: val(s, a[1]), 'RangeLists::new': lambda s, a, i, t: adt('RangeLists', 'RangeLists', [('debug_ranges', val(s, a[0])), ('debug_rnglists', val(s, a[1]))]),
         'Section::section_name': lambda s, a, i, t: mk('api', 'section_name'), 'Section::load': c_load}
    for b in w.bodies.values():
        if b.crate == 'twiggy_ir' and b.path == 'ItemsBuilder::add_item':
            o[b.id] = add_item
        if b.crate == 'twiggy_ir' and b.path == 'Code::new':
            o[b.id] = lambda st, args, info, t: adt('twiggy_ir::Code', 'Code', [('0', mk('api', 'code', st.deep(args[0])))])
    return o


def add_item(s, args, info, t):
    s.effect('item', s.deep(args[1]))
    return UNIT



def c_load(s, args, info, t):
    return None


AV = 'gimli::AttributeValue'
LOW, HIGH, RANGES, LINKAGE, NAME, SUBPROGRAM = 0x11, 0x12, 0x55, 0x6e, 0x03, 0x2e
DATA = mk('param', 'data')
SECTIONS = ('debug_abbrev', 'debug_addr', 'debug_info', 'debug_line', 'debug_line_str', 'debug_str', 'debug_str_offsets')


def some(x):
    return bnot(is_variant(x, 'Option', 'None'))


def okof(x):
    return is_variant(x, 'Result', 'Ok')


@prop('P07', 'value flow from debugging information entries to the items added')
def dwarf(c):
    w = c.world()
    b = fn(w, 'object_parse::parse', PARSER)
    at = loc(w, b)
    sm = rl.evaluate(w, b, [mk('param', 'items'), DATA], contracts(w), cells=(0,))
    c.seen(sm)
    its = [e for e in sm.effects if e.kind == 'item']
    us = {x for e in its for x in contains_in(e, 'units')}
    if len(its) != 1 or len(us) != 1:
        if its and not us:
            return c.undecided('shape', at, 'items are added in a way not understood')
        return c.undecided('shape', at, '%d places that add items, %d unit lists' % (len(its), len(us)))
    it = its[0]
    units = us.pop()
    dw = units.a[1]
    # ---- the data the entries are read from
    file = proj(mk('api', 'file', DATA), '0', 'Ok')
    found = ext('Object::section_data_by_name', file, mk('api', 'section_name'))
    end = mkphi([(truth(ext('Object::is_little_endian', file)), adt('RunTimeEndian', 'Little', [])), (bnot(truth(ext('Object::is_little_endian', file))), adt('RunTimeEndian', 'Big', []))])
    get = lambda f: proj_any(dw, f)
    body = get('debug_info')
    if dw.op != 'adt':
        return c.undecided('sections', at, 'how the sections are collected is not understood')
    parts = [(f, get(f)) for f in SECTIONS] + [('ranges.' + f, proj_any(get('ranges'), f)) for f in ('debug_ranges', 'debug_rnglists')]
    for f, v in parts:
        c.true('section.' + f, at, not contains_op(v, {'ext'}) or not any(x.a[0] == 'Default::default' for x in contains_op(v, {'ext'})), 'the section %s of the file is not used' % f)
        a = v.a[1] if v.op == 'ext' and v.a[0] == 'EndianSlice::new' else None
        if a is None:
            c.undecided('section.%s.data' % f, at, sh(v)[:300])
            continue
        c.same('section.%s.endian' % f, at, strip(a[1]), strip(end), 'byte order of the file')
        c.same('section.%s.data' % f, at, constrain_t(a[0], some(found)), proj(found, '0', 'Some'), 'the bytes of the section of this name')
    # ---- the walk
    hide = mk('param', 'dwarf')
    units0, units = units, mk('api', 'units', hide)
    cut = lambda t: replace(t, dw, hide)
    stg = lambda st: tuple((k[0],) + tuple(cut(y) if isinstance(y, T) else y for y in k[1:]) for k in st)
    stages, args = stg(it.stages), [cut(a) for a in it.args]
    errexits = [(a_, stg(ctx), cut(g), t_) for a_, ctx, g, t_ in sm.errexits]
    u = elem(units)
    unit = proj(mk('api', 'unit', u), '0', 'Ok')
    descs = mk('api', 'descendants', unit)
    d = elem(descs)
    die = proj(d, '1')
    depth = add(mk('api', 'earlier', proj(d, '0')), proj(d, '0'))
    at_ = lambda n: mk('api', 'attr', die, I(n))
    A = lambda n: proj(at_(n), '0', 'Ok')
    P = lambda n: proj(A(n), '0', 'Some')
    isv = lambda n, v: is_variant(P(n), AV, v)
    fors = [x for x in stages if x[0] == 'for']
    if any(x[0] == 'loop' for x in stages):
        return c.undecided('walk', at, 'a loop over the entries that is not understood')
    c.true('walk', at, [x[2] for x in fors] == [units, descs], 'not every entry of every unit is visited once: %s' % sh(mk('seq', ((tuple(stages), I(0)),)))[:400])
    if [x[2] for x in fors] != [units, descs]:
        return
    inside = gtz(depth)
    sub_ = eq(mk('api', 'tag', die), I(SUBPROGRAM))
    rng = mk('api', 'ranges', unit, mk('api', 'rawoff', unit, proj(P(RANGES), '0', 'RangeListsRef')))
    r = elem(rng)
    direct = band(some(A(LOW)), some(A(HIGH)))
    listed = band(bnot(direct), some(A(RANGES)))
    cond = band(sub_, bor(direct, listed))
    ids = [mk('idx', norm_stages(tuple(fors[:1]))), mk('idx', norm_stages(tuple(fors[1:])))]
    # ---- failures: exactly the unexpected encodings and what the reader itself rejects
    bad = FALSE
    for fnid, ctx, g, _ in errexits:
        x = g
        for sg in ctx:
            if sg[0] == 'if':
                x = band(x, sg[1])
        bad = bor(bad, x)
    bad = constrain(bad, inside) if bad is not FALSE else bad
    enc = {'low address not given as an address': band(some(A(LOW)), bnot(isv(LOW, 'Addr'))),
           'high address given in an unknown form': band(direct, bnot(isv(HIGH, 'Addr')), bnot(isv(HIGH, 'Udata'))),
           'high address below low address': band(direct, isv(HIGH, 'Addr'), lt(proj(P(HIGH), '0', 'Addr'), proj(P(LOW), '0', 'Addr'))),
           'range list given in an unknown form': band(listed, bnot(isv(RANGES, 'RangeListsRef')))}
    before = FALSE
    reads = band(okof(at_(LOW)), okof(at_(HIGH)), okof(at_(RANGES)))
    for n, x in enc.items():
        want = band(sub_, reads, x)
        never(c, 'refused.' + n.replace(' ', '-'), at, band(want, inside, bnot(bad)), bad, 'an entry with a %s does not make parsing fail' % n)
        before = bor(before, want)
    never(c, 'refused.no-root', at, band(bnot(rooted(unit)), bnot(bad_all(errexits))), bad, 'a unit without entries does not make parsing fail')
    good = bnot(before)
    for a in (at_(LOW), at_(HIGH), at_(RANGES), at_(LINKAGE), at_(NAME)):
        good = band(good, okof(a))
    pick = mkphi([(some(A(LINKAGE)), P(LINKAGE)), (bnot(some(A(LINKAGE))), P(NAME))])
    strs = mk('api', 'attr_string', unit, pick)
    utf = mk('api', 'utf8', proj(strs, '0', 'Ok'))
    rest = band(bad, good, inside)
    # what is left may only be failures of the reader: the unit, the string, the position counters
    okb = [okof(x) for x in (strs, utf, rng, mk('api', 'unit', u), mk('api', 'file', DATA))] + [rooted(unit)]
    extra = band(rest, *okb)
    never(c, 'accepted', at, FALSE if only_limits(extra, ids) else extra, extra, 'an ordinary entry makes parsing fail: %s' % sh(extra)[:400])
    # ---- the item
    known = band(good, inside)
    g = TRUE
    for sg in stages:
        if sg[0] in ('if', 'while'):
            g = band(g, sg[1])
    c.same('which', at, band(g, known), band(cond, known), 'exactly the subprograms with a size become items')
    never(c, 'depth', at, band(g, bnot(inside)), g, 'entries outside the unit are taken')
    here = band(known, cond)
    size = mkphi([(band(direct, isv(HIGH, 'Addr')), sub(proj(P(HIGH), '0', 'Addr'), proj(P(LOW), '0', 'Addr'))),
                  (band(direct, bnot(isv(HIGH, 'Addr'))), proj(P(HIGH), '0', 'Udata')),
                  (listed, sub(asum((('for', r, rng),), proj(r, 'end')), asum((('for', r, rng),), proj(r, 'begin'))))])
    nm = mkphi([(bor(some(A(LINKAGE)), some(A(NAME))), to_str(proj(utf, '0', 'Ok'))),
                (bnot(bor(some(A(LINKAGE)), some(A(NAME)))), txt('Subroutine[', ids[0], '][', ids[1], ']'))])
    item = args[0]
    idb = method(w, 'twiggy_ir', 'Id', 'entry')
    c.same('id', at, proj(item, 'id'), rl.evaluate(w, idb, ids).ret, 'identifier: unit and position of the entry in it')
    c.same('size', at, uncast(constrain_t(proj(item, 'size'), here)), constrain_t(size, here), 'size of the machine code')
    c.same('name', at, constrain_t(proj(item, 'name'), here), constrain_t(nm, here), 'linkage name, else name, else position')
    kind = constrain_t(proj(item, 'kind'), here)
    code = adt('twiggy_ir::Code', 'Code', [('0', mk('api', 'code', nm))])
    c.among('kind', at, kind, [constrain_t(x, here) for x in (code, adt('twiggy_ir::ItemKind', 'Code', [('0', code)]))], 'code, with this name')
    for e in sm.effects:
        if e.kind in ('edge', 'root', 'link'):
            c.true('edges', at, False, 'adds references the debugging information does not hold')


def never(c, oid, at, g, basis, detail):
    if g is not FALSE and (unknowns(plain(g)) or unknowns(plain(basis))):
        return c.undecided(oid, at, 'not modelled: %s' % sorted(unknowns(plain(g)) | unknowns(plain(basis)))[:4])
    return c.true(oid, at, g is FALSE, detail)


def contains_in(e, n):
    out = set()
    for a in e.args:
        out |= {x for x in contains_op(a, {'api'}) if x.a[0] == n}
    for sg in e.stages:
        for y in sg[1:]:
            if isinstance(y, T):
                out |= {x for x in contains_op(y, {'api'}) if x.a[0] == n}
    return out


def bad_all(errexits):
    bad = FALSE
    for fnid, ctx, g, _ in errexits:
        x = g
        for sg in ctx:
            if sg[0] == 'if':
                x = band(x, sg[1])
        bad = bor(bad, x)
    return bad


def supports(g):
    return [] if g in (TRUE, FALSE) else list(BD.support(g.a[0]))


def only_limits(g, ids):
    """the failure is only that a position counter does not fit an identifier"""
    at = [x for x in supports(g) if x.op == 'le0' and any(i in walk_set(x) for i in ids)]
    for x in at:
        g = ev.cofactor(g, atom(x), True)
    return g is FALSE


def walk_set(t):
    out = set()
    walk(t, lambda x: out.add(x) and None)
    return out


def strip(t):
    def leaf(x):
        return None

    def pre(x):
        if x.op == 'adt' and x.a[0].endswith('RunTimeEndian'):
            return mk('name', x.a[1])
        return x
    return Mapper(leaf, lambda x: True, pre).t(t)


def uncast(t):
    if t.op == 'cast':
        return t.a[1]
    if t.op == 'phi':
        return mkphi([(g, uncast(x)) for g, x in t.a[0]])
    return t


def constrain_t(t, c):
    """t on the runs where c holds; the same for terms that agree there"""
    def pre(x):
        if x.op == 'phi':
            alts = [(band(g, c), v) for g, v in x.a[0] if band(g, c) is not FALSE]
            return alts[0][1] if len({v for _, v in alts}) == 1 else mkphi(alts)
        if x.op == 'b' and x not in (TRUE, FALSE):
            return band(x, c)
        return x
    return Mapper(lambda x: None, lambda x: True, pre).t(t)
