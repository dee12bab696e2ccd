"""Contracts of wasmparser's readers and of twiggy_ir::ItemsBuilder, used when the wasm front end is summarised.

A reader is (base, n): the section it reads and how many entries have been read; the i-th entry of a
section and the byte position before it are uninterpreted functions of the section and i.  So what is
decided holds for whatever the parser library yields.
"""
import re
import ev
import api
import terms as tm
from terms import *
from api import nn

READERS = ['TypeSectionReader', 'ImportSectionReader', 'TableSectionReader', 'MemorySectionReader', 'GlobalSectionReader', 'ExportSectionReader',
           'ElementSectionReader', 'DataSectionReader', 'FunctionSectionReader', 'CodeSectionReader', 'NameSectionReader', 'NamingReader',
           'ElementItemsReader', 'OperatorsReader', 'SectionReader', 'SectionWithLimitedItems']
RD = 'wasmparser::Reader'


def rd(v):
    if v.op == 'adt' and v.a[0] == RD:
        return v.a[2][0][1], v.a[2][1][1]
    return v, I(0)


def mkrd(b, n):
    return adt(RD, 'Reader', [('base', b), ('n', n)])


def entry(b, i):
    return mk('api', 'entry', b, i)


def entry_ok(b, i):
    return proj(entry(b, i), '0', 'Ok')


def pos(b, i):
    return nn(mk('api', 'pos', b, i))


def num_entries(b):
    return nn(mk('api', 'entries', b))


def chunk_at(d, off):
    return mk('api', 'chunk', d, off)


def coerce(old, new):
    """a reader that a loop advances starts at entry 0"""
    if new is not None and new.op == 'adt' and new.a[0] == RD and not (old.op == 'adt' and old.a[0] == RD):
        return mkrd(old, I(0))
    if new is not None and new is not old and new.op == 'adt' and old.op == 'adt' and new.a[:2] == old.a[:2]:
        nf = dict(new.a[2])
        fs = [(f, coerce(x, nf.get(f))) for f, x in old.a[2]]
        if any(x is not y for (_, x), (_, y) in zip(fs, old.a[2])):
            return adt(old.a[0], old.a[1], fs)
    return old


ev.COERCE.append(coerce)


def val(s, p):
    return s.deep(p)


def c_read(s, args, info, t):
    b, n = rd(val(s, args[0]))
    if args[0].op == 'ptr':
        s.store(args[0], mkrd(b, add(n, I(1))))
    return entry(b, n)


def c_pos(s, args, info, t):
    b, n = rd(val(s, args[0]))
    return pos(b, n)


def c_count(s, args, info, t):
    b, n = rd(val(s, args[0]))
    return num_entries(b)


def c_eof(s, args, info, t):
    b, n = rd(val(s, args[0]))
    return le(num_entries(b), n)


def c_end(s, args, info, t):
    b, n = rd(val(s, args[0]))
    return mk('api', 'ensure_end', b, n)


def c_range(s, args, info, t):
    b, n = rd(val(s, args[0]))
    return mk('api', 'range', b)


def c_iter(s, args, info, t):
    p = (info.get('res') or info)['path']
    if not re.match(r'^<&?(mut )?wasmparser::\w*Reader', p):
        return None
    b, n = rd(val(s, args[0]))
    st, e = ev.range_seg(n, num_entries(b))
    return mk('seq', ((st, entry(b, e)),))


def c_clone(s, args, info, t):
    p = (info.get('res') or info)['path']
    if not re.match(r'^<wasmparser::', p):
        return None
    return val(s, args[0])


def named(n):
    def f(s, args, info, t):
        return mk('api', n, *[rd(val(s, a))[0] for a in args])
    return f


def c_parse(s, args, info, t):
    """Parser::parse(&mut parser, &data[off..], eof) -> Chunk"""
    d = val(s, args[1])
    off = None
    if d.op == 'tail':
        d, off = d.a
    else:
        return None
    r = chunk_at(d, off)
    return r


def slice_from(s, args, info, t):
    v = val(s, args[0])
    r = val(s, args[1])
    if r.op == 'adt' and r.a[0].endswith('RangeFrom'):
        return mk('tail', v, r.a[2][0][1])
    return None


def advance(nxt, mu):
    """nxt is the position after the chunk read at position mu: the data it walks over"""
    d = sub(nxt, mu)
    for x in contains_op(d, ('api',)):
        if x.a[0] == 'chunk' and x.a[2] is mu:
            want = consumed(x.a[1], mu)
            if d is want:
                return x.a[1]
    return None


def consumed(d, off):
    return nn(proj(proj(chunk_at(d, off), '0', 'Ok'), 'consumed', 'Parsed'))


def payload(d, off):
    return proj(proj(chunk_at(d, off), '0', 'Ok'), 'payload', 'Parsed')


def n_chunks(d):
    return nn(mk('api', 'chunks', d))


def at_chunk(d, i):
    """byte position of the i-th chunk"""
    return nn(mk('api', 'chunkpos', d, i))


def chunks(go, m, nv, iv):
    """the loop `while off != data.len()` that parses chunk after chunk: -> (rounds, position in round i, position after)"""
    d = advance(nv, m)
    if d is not None and iv is I(0) and (go is bnot(eq(m, length_of(d))) or go is lt(m, length_of(d))):
        return n_chunks(d), (lambda e: at_chunk(d, e)), length_of(d)
    return None


def length_of(d):
    v = elem(d)
    return count((('for', v, d),))


ev.STREAMS.append(chunks)

# ---------------------------------------------------------------- ItemsBuilder
IB = 'twiggy_ir::ItemsBuilder'


def b_new(s, args, info, t):
    return adt(IB, 'ItemsBuilder', [('size', s.deep(args[0])), ('added', I(0))])


def item_size(it):
    return nn(proj(it, 'size'))


def b_add(kind):
    def f(s, args, info, t):
        it = s.deep(args[1])
        b = s.load(args[0])
        s.effect('item', it, mk('name', kind))
        s.store(args[0], with_field(b, 'added', None, add(proj(b, 'added'), proj(it, 'size'))))
        return proj(it, 'id')
    return f


def b_edge(s, args, info, t):
    s.effect('edge', s.deep(args[1]), s.deep(args[2]))
    return UNIT


def b_link(s, args, info, t):
    s.effect('link', *[s.deep(a) for a in args[1:]])
    return UNIT


def b_get(s, args, info, t):
    s.effect('getdata', s.deep(args[1]))
    return mk('api', 'get_data', s.deep(args[1]))


def b_added(s, args, info, t):
    return proj(s.load(args[0]), 'added')


def b_finish(s, args, info, t):
    b = s.deep(args[0])
    return mk('api', 'finish', proj(b, 'size'))


def contracts(w):
    o = {}
    for r in READERS:
        o[r + '::read'] = c_read
        o[r + '::original_position'] = c_pos
        o[r + '::get_count'] = c_count
        o[r + '::eof'] = c_eof
        o[r + '::ensure_end'] = c_end
        o[r + '::range'] = c_range
    o['IntoIterator::into_iter'] = c_iter
    o['Clone::clone'] = c_clone
    o['Parser::parse'] = c_parse
    o['Index::index'] = slice_from
    for n in ('NameSectionReader::new', 'CodeSectionReader::new', 'FunctionBody::get_operators_reader', 'InitExpr::get_operators_reader',
              'ElementItems::get_items_reader', 'NameMap::get_map', 'Parser::new'):
        o[n] = named(n)
    for b in w.bodies.values():
        if b.crate == 'twiggy_ir':
            m = {'ItemsBuilder::new': b_new, 'ItemsBuilder::add_item': b_add('item'), 'ItemsBuilder::add_root': b_add('root'),
                 'ItemsBuilder::add_edge': b_edge, 'ItemsBuilder::link_data': b_link, 'ItemsBuilder::get_data': b_get,
                 'ItemsBuilder::size_added': b_added, 'ItemsBuilder::finish': b_finish}.get(b.path)
            if m:
                o[b.id] = m
    return o
