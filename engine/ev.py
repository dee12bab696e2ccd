"""Interprocedural value-flow evaluation of MIR into normal-form terms and guarded effects.

A function's control-flow graph is traversed once in reverse post order.  Branch conditions become
BDDs, joins become gated values, natural loops become comprehension stages, calls to workspace
functions are analysed in place (a recursive call becomes an effect), and library calls are
translated by the models in models.py or stay uninterpreted.
"""
import re
from terms import *
import terms as tm
import errs

EXTERN = {'anyhow', 'csv', 'gimli', 'wasmparser', 'object', 'petgraph', 'regex', 'structopt', 'typed_arena',
          'fallible_iterator', 'serde', 'frozen', 'cpp_demangle', 'rustc_demangle', 'twiggy_ir', 'twiggy_opt',
          'twiggy_traits', 'twiggy_parser', 'twiggy_analyze', 'wasm_bindgen', 'js_sys', 'serde_json', 'twiggy'}
STD = ('std', 'core', 'alloc')
UNS = re.compile(r'^(?:&(?:\'\w+ )?(?:mut )?)*(u8|u16|u32|u64|usize|u128)$')


COERCE = []      # fix-ups of loop-carried values: f(before, after one iteration) -> before
STREAMS = []     # recognisers of loops over an external stream


class Budget(Exception):
    pass


class Effect:
    __slots__ = ('kind', 'args', 'stages', 'where', 'seq', 'loops')

    def __init__(s, kind, args, stages, where, seq, loops=()):
        s.kind, s.args, s.stages, s.where, s.seq, s.loops = kind, args, stages, where, seq, loops

    def __repr__(s):
        return '%s %s   @%s' % (s.kind, show_seg(s.stages, mk('x', *s.args) if s.args else UNIT), s.where)


def strip_angle(p):
    out, d = [], 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == '<':
            d += 1
        elif c == '>' and p[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


_short = {}


DRIVERS = ('Iterator::next', 'Dfs::next', 'FallibleIterator::next', 'EntriesCursor::next_dfs', 'DebugInfoUnitHeadersIter::next', 'RngListIter::next', 'RangeIter::next')


def short(path):
    r = _short.get(path)
    if r is None:
        r = _short[path] = _shortname(path)
    return r


def _split_top(p):
    segs, d, cur, i = [], 0, '', 0
    while i < len(p):
        if p[i] == '<':
            d += 1
        elif p[i] == '>' and p[i - 1] != '-':
            d -= 1
        if d == 0 and p.startswith('::', i):
            segs.append(cur)
            cur = ''
            i += 2
            continue
        cur += p[i]
        i += 1
    segs.append(cur)
    return segs


def _shortname(path):
    segs = [x for x in _split_top(path)]
    last = segs[-1]
    if len(segs) < 2:
        return path
    prev = segs[-2]
    if prev.startswith('<') and prev.endswith('>') and not prev.startswith('<impl '):
        m = split_as(prev[1:-1])
        if m:
            return strip_angle(m[1]).split('::')[-1] + '::' + last
        # generic args segment  Foo::<T>::bar
        if len(segs) >= 3:
            return strip_angle(segs[-3]) + '::' + last
    if prev.startswith('<impl '):
        inner = prev[6:-1]
        k = find_for(inner)
        if k:
            return strip_angle(k).split('::')[-1] + '::' + last
        return strip_angle(segs[-3]) + '::' + last if len(segs) >= 3 else path
    if prev.endswith('>') and '<' in prev:
        prev = strip_angle(prev)
    return strip_angle(prev).strip() + '::' + last


def split_as(x):
    d = 0
    for i, c in enumerate(x):
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0 and x.startswith(' as ', i):
            return x[:i], x[i + 4:]
    return None


def find_for(x):
    d = 0
    for i, c in enumerate(x):
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0 and x.startswith(' for ', i):
            return x[:i]
    return None


def strip_ty(t):
    """type string without references and lifetimes"""
    t = t.strip()
    while True:
        m = re.match(r"^&('\w+ )?(mut )?", t)
        if m and m.group(0):
            t = t[m.end():].strip()
            continue
        return t


def ty_head(t):
    t = strip_ty(t)
    i = t.find('<')
    if i < 0:
        return t
    if i > 0 and '>::' not in t:
        return t[:i]
    segs = _split_top(t)
    if segs[-1].startswith('<') and len(segs) > 1:
        segs.pop()
    segs[-1] = segs[-1].split('<')[0] if not segs[-1].startswith('<') else segs[-1]
    return '::'.join(segs)


def bare(t):
    return re.sub(r"'\w+ ?,? ?", '', t).replace('<>', '').replace(' ', '')


class Frame:
    __slots__ = ('body', 'uid', 'gen')

    def __init__(s, body, uid, gen):
        s.body, s.uid, s.gen = body, uid, gen


class Ev:
    def __init__(s, world, models, overrides=None, max_blocks=400000):
        s.w = world
        s.models = models
        s.over = overrides or {}
        s.uid = 0
        s.mem = {}
        s.cond = TRUE
        s.assume = TRUE
        s.ctx = ()
        s.effects = []
        s.errexits = []
        s.why = {}          # the branch taken towards each of them
        s.stack = []
        s.blocks_run = 0
        s.max_blocks = max_blocks
        s.fns = set()
        s.unmodelled = {}
        s.nmu = 0
        s.calls = 0
        s.seqno = 0
        s.adtcache = {}

    # ------------------------------------------------------------ naming
    def adt_name(s, path, crate):
        k = (path, crate)
        r = s.adtcache.get(k)
        if r is None:
            head = path.split('::')[0]
            if head in STD:
                r = path.split('::')[-1]
            elif head in EXTERN and '::' in path:
                r = path
            else:
                r = crate + '::' + path
            s.adtcache[k] = r
            if r not in ENUMS:
                a = s.w.adts.get(r) or s.w.adts.get(path)
                if a and a['kind'] == 'enum':
                    ENUMS[r] = [v['name'] for v in a['variants']]
        return r

    def adt_of_ty(s, ty, crate):
        return s.adt_name(ty_head(ty), crate)

    # ------------------------------------------------------------ memory
    def newcell(s, v, tag='heap'):
        s.uid += 1
        c = (s.uid, tag)
        s.mem[c] = v
        return mk('ptr', c, ())

    def rd_path(s, v, path):
        for p in path:
            if p[0] == 'f':
                if v.op == 'ptr':
                    v = s.load(v)
                v = proj_any(v, p[1], p[2])
            elif p[0] == 'ix':
                v = index(v, p[1])
            elif p[0] == 'ent':
                g = map_get(v, p[1])
                if v.op == 'mu' or g.op == 'get':
                    v = mk('getor', v, p[1], p[2])
                elif g.op == 'adt' and g.a[1] == 'None':
                    v = p[2]
                else:
                    v = mkphi([(is_variant(g, 'Option', 'Some'), proj(g, '0', 'Some')),
                               (is_variant(g, 'Option', 'None'), p[2])])
            elif p[0] == 'at':
                v = map_at(v, p[1])
            elif p[0] == 'd':
                if v.op == 'ptr':
                    v = s.load(v)
        return v

    def load(s, p):
        """dereference"""
        if p.op == 'ptr':
            base = s.mem.get(p.a[0])
            if base is None:
                return opaque('unset')
            return s.rd_path(base, p.a[1])
        if p.op == 'phi' and any(v.op == 'ptr' for _, v in p.a[0]):
            return mkphi([(g, s.load(v)) for g, v in p.a[0]])
        return p

    def deep(s, v):
        """replace pointers by what they point at (for use in terms)"""
        if v.op == 'ptr':
            return s.deep(s.load(v))
        if v.op == 'phi' and any(x.op == 'ptr' for _, x in v.a[0]):
            return mkphi([(g, s.deep(x)) for g, x in v.a[0]])
        if v.op == 'adt' and any(x.op in ('ptr', 'adt') for _, x in v.a[2]):
            return adt(v.a[0], v.a[1], [(f, s.deep(x)) for f, x in v.a[2]])
        return v

    def wr_path(s, v, path, x):
        if not path:
            return x
        p = path[0]
        if p[0] == 'f':
            if v is None:
                v = opaque('unset')
            old = proj_any(v, p[1], p[2]) if len(path) > 1 else None
            return with_field(v, p[1], p[2], s.wr_path(old, path[1:], x))
        if p[0] == 'ix':
            old = index(v, p[1])
            return mk('ixput', v, p[1], s.wr_path(old, path[1:], x))
        if p[0] in ('ent', 'at'):
            old = s.rd_path(v, (p,))
            new = s.wr_path(old, path[1:], x)
            if v.op == 'mapput' and v.a[1] is p[1]:
                v = v.a[0]
            return mk('mapput', v, p[1], new)
        if p[0] == 'd':
            return s.wr_path(v, path[1:], x)
        return opaque('wr')

    def store(s, p, x):
        if p.op == 'ptr':
            c, path = p.a
            s.mem[c] = s.wr_path(s.mem.get(c), path, x)
        elif p.op == 'phi':
            for g, q in p.a[0]:
                if q.op == 'ptr':
                    s.store(q, mkphi([(g, x), (bnot(g), s.load(q))]))
                else:
                    raise Budget('write through a reference that is not modelled: %s' % show(q)[:80])
        else:
            raise Budget('write through a reference that is not modelled: %s' % show(p)[:80])

    def modify(s, p, f):
        """replace what p refers to by f of it"""
        if p.op == 'phi' and all(q.op == 'ptr' for _, q in p.a[0]):
            for g, q in p.a[0]:
                v = s.load(q)
                s.store(q, mkphi([(g, f(v)), (bnot(g), v)]))
        else:
            s.store(p, f(s.load(p)))

    # ------------------------------------------------------------ places and operands
    def place_ptr(s, fr, pl):
        """pointer term(s) designating a place"""
        l, projs = pl
        cell, path = (fr.uid, l), ()
        ptrs = [(TRUE, cell, path)]
        i = 0
        n = len(projs)
        while i < n:
            p = projs[i]
            k = p[0]
            nxt = []
            for g, c, pa in ptrs:
                if k == '*':
                    base = s.mem.get(c)
                    v = s.rd_path(base, pa) if base is not None else None
                    if v is not None and v.op == 'ptr':
                        nxt.append((g, v.a[0], v.a[1]))
                    elif v is not None and v.op == 'phi' and any(x.op == 'ptr' for _, x in v.a[0]):
                        for h, x in v.a[0]:
                            if x.op == 'ptr' and feasible(g, h, s.cond, s.assume):
                                nxt.append((band(g, h), x.a[0], x.a[1]))
                    else:
                        nxt.append((g, c, pa))
                elif k == 'f':
                    base = s.mem.get(c)
                    v = s.rd_path(base, pa) if base is not None else None
                    if v is not None and v.op == 'ptr':      # Box internals
                        nxt.append((g, c, pa))
                    elif p[1].startswith('^'):
                        nxt.append((g, c, pa + (('f', p[1], None),)))
                    else:
                        var = projs[i - 1][1] if i and projs[i - 1][0] == 'd' else None
                        nxt.append((g, c, pa + (('f', p[1], var),)))
                elif k == 'd':
                    nxt.append((g, c, pa))
                elif k == 'i':
                    nxt.append((g, c, pa + (('ix', s.deep(s.mem.get((fr.uid, p[1]), opaque('unset')))),)))
                elif k == 'c':
                    if p[3]:
                        nxt.append((g, c, pa + (('ix', mk('fromend', I(p[1]))),)))
                    else:
                        nxt.append((g, c, pa + (('ix', I(p[1])),)))
                else:
                    nxt.append((g, c, pa + (('f', str(p[0]), None),)))
            ptrs = nxt
            i += 1
        r = [(g, mk('ptr', c, pa)) for g, c, pa in ptrs]
        return r

    def rd_place(s, fr, pl):
        ps = s.place_ptr(fr, pl)
        if len(ps) == 1:
            v = s.load(ps[0][1])
        else:
            v = mkphi([(g, s.load(p)) for g, p in ps])
        return s.simp(v)

    def simp(s, v):
        if v.op == 'phi':
            c = band(s.cond, s.assume)
            if c is not TRUE:
                alts = [(g, x) for g, x in v.a[0] if feasible(g, c)]
                if len(alts) == 1:
                    return alts[0][1]
                if len(alts) < len(v.a[0]) and alts:
                    return mkphi([(constrain(g, c), x) for g, x in alts])
        elif v.op == 'b' and v.a[0] > 1:
            c = band(s.cond, s.assume)
            if c is not TRUE:
                if band(v, c) is FALSE:
                    return FALSE
                if band(bnot(v), c) is FALSE:
                    return TRUE
        return v

    def wr_place(s, fr, pl, v):
        if not pl[1]:
            ty = fr.body.locals[pl[0]]
            if UNS.match(ty):
                mark_unsigned(v)
            s.mem[(fr.uid, pl[0])] = v
            return
        if pl[1][0][0] == '*' and fr.body.locals[pl[0]].startswith('&'):
            q = s.mem.get((fr.uid, pl[0]))
            if q is None or q.op not in ('ptr', 'phi'):
                raise Budget('write through a reference that is not modelled: %s' % (show(q)[:80] if q is not None else '-'))
        ps = s.place_ptr(fr, pl)
        if len(ps) == 1:
            s.store(ps[0][1], v)
        else:
            for g, p in ps:
                s.store(p, mkphi([(g, v), (bnot(g), s.load(p))]))

    def operand(s, fr, o):
        if o[0] in ('c', 'm'):
            v = s.rd_place(fr, o[1])
            if not o[1][1]:
                ty = fr.body.locals[o[1][0]]
                if UNS.match(ty):
                    mark_unsigned(v)
            return v
        return s.const(fr, o[1])

    def const(s, fr, k):
        if 'fn' in k:
            return mk('fnv', FN.put(k['fn'], fr.gen))
        if 'bool' in k:
            return TRUE if k['bool'] else FALSE
        if 'promoted' in k and k.get('promoted') in s.w.bodies:
            return s.eval_const(k['promoted'], fr)
        if 'int' in k:
            return I(int(k['int']))
        if 'str' in k:
            return S(k['str'])
        if 'float' in k:
            try:
                return real_const(Fraction(k['float']))
            except Exception:
                return mk('float', k['float'])
        if 'char' in k:
            c = k['char']
            return mk('char', c if isinstance(c, str) else chr(c))
        if 'bytes' in k:
            return mk('bytes', bytes(k['bytes']) if isinstance(k['bytes'], list) else k['bytes'])
        if 'cid' in k:
            if k['cid'] in s.w.bodies:
                return s.eval_const(k['cid'], fr)
            return mk('cst', k['path'])
        if 'zst' in k:
            ty = k.get('ty')
            if ty == '()':
                return UNIT
            if isinstance(ty, str) and re.match(r'^[\w:]+$', ty):
                return adt(s.adt_name(ty, fr.body.crate), ty.split('::')[-1], ())
            return UNIT
        if k.get('ty') == '()':
            return UNIT
        return mk('cst', str(sorted(k.items(), key=lambda p: p[0])))

    def eval_const(s, bid, fr):
        b = s.w.bodies[bid]
        if bid in s.stack:
            return opaque('constrec')
        v = s.eval_body(b, [], fr.gen)
        return v

    # ------------------------------------------------------------ rvalues
    def rvalue(s, fr, r):
        k = r[0]
        if k == 'use':
            return s.operand(fr, r[1])
        if k == 'ref':
            if r[1] == 'mut':
                ps = s.place_ptr(fr, r[2])
                # a reborrow of something that is not a pointer to known memory
                return ps[0][1] if len(ps) == 1 else mk('phi', tuple(ps))
            return s.rd_place(fr, r[2])
        if k == 'rawptr':
            ps = s.place_ptr(fr, r[2])
            return ps[0][1]
        if k == 'cast':
            return s.cast(fr, r)
        if k == 'bin':
            a = s.deep(s.operand(fr, r[2]))
            b = s.deep(s.operand(fr, r[3]))
            return s.binop(r[1], a, b, r[4])
        if k == 'un':
            a = s.deep(s.operand(fr, r[2]))
            if r[1] == 'Not':
                if a.op in ('b', 'phi') or True:
                    return bnot(as_bool(a))
            if r[1] == 'Neg':
                return neg(a)
            if r[1] == 'PtrMetadata':
                return length(a)
            return mk('un', r[1], a)
        if k == 'discr':
            v = s.deep(s.rd_place(fr, r[1]))
            if v.op == 'entry':          # the two kinds of maps number the variants differently
                return mk('discr', v, 'HashEntry' if 'hash' in ty_head(r[2]) else 'BTreeEntry')
            return mk('discr', v, s.adt_of_ty(r[2], fr.body.crate))
        if k == 'agg':
            kind = r[1]
            vals = [s.operand(fr, o) for o in r[2]]
            if kind[0] == 'tuple':
                return tup(*vals) if vals else UNIT
            if kind[0] == 'adt':
                name = s.adt_name(kind[1], fr.body.crate)
                return adt(name, kind[2], [(f, v) for f, v in zip(kind[3], vals)])
            if kind[0] == 'array':
                return mk_seq([((), v) for v in vals])
            if kind[0] == 'closure':
                return mk('clo', kind[1], tuple(vals), tuple(sorted(fr.gen.items(), key=lambda p: p[0])) if fr.gen else ())
            return opaque('agg', *vals)
        if k == 'repeat':
            v = s.operand(fr, r[1])
            return mk('repeat', v, str(r[2]))
        return opaque('rv:' + k)

    def cast(s, fr, r):
        kind, o, frm, to = r[1], r[2], r[3], r[4]
        if kind == 'BoxDerefTransmute' and o[0] in ('c', 'm') and o[1][1] and o[1][1][-1][0] == 'f':
            pl = [o[1][0], o[1][1][:-1]]
            v = s.rd_place(fr, pl)
            if v.op == 'ptr':
                return v
            return s.place_ptr(fr, pl)[0][1]
        v = s.operand(fr, o)
        if kind == 'IntToInt':
            return int_cast(s.deep(v), frm, to)
        if kind in ('IntToFloat',):
            return to_real(s.deep(v) if to == 'f64' else mk('round32', s.deep(v)))
        if kind == 'FloatToFloat':
            return v if to == 'f64' else to_real(mk('round32', s.deep(v)))
        if kind == 'FloatToInt':
            return mk('f2i', to, s.deep(v))
        return v

    def binop(s, op, a, b, ty):
        if ty in ('u8', 'u16', 'u32', 'u64', 'usize'):
            mark_unsigned(a)
            mark_unsigned(b)
        if op in ('Add', 'AddUnchecked', 'AddWithOverflow'):
            r = add(a, b)
        elif op in ('Sub', 'SubUnchecked', 'SubWithOverflow'):
            r = sub(a, b)
        elif op in ('Mul', 'MulUnchecked', 'MulWithOverflow'):
            r = mul(a, b)
        elif op == 'Div':
            r = rdiv(a, b) if ty in ('f64', 'f32') else idiv(a, b)
        elif op == 'Eq':
            return eq(a, b)
        elif op == 'Ne':
            return bnot(eq(a, b))
        elif op == 'Lt':
            return lt(a, b)
        elif op == 'Le':
            return bnot(lt(b, a)) if ty in ('f64', 'f32') else le(a, b)
        elif op == 'Gt':
            return lt(b, a)
        elif op == 'Ge':
            return bnot(lt(a, b)) if ty in ('f64', 'f32') else le(b, a)
        elif op in ('BitAnd', 'BitOr', 'BitXor') and (ty == 'bool' or a.op == 'b' or b.op == 'b'):
            a, b = as_bool(a), as_bool(b)
            return band(a, b) if op == 'BitAnd' else bor(a, b) if op == 'BitOr' else bite(a, bnot(b), b)
        elif op in ('Shl', 'ShlUnchecked') and a.op == 'int' and b.op == 'int' and a.a[0] >= 0 and 0 <= b.a[0] < 64 and a.a[0] << b.a[0] < 1 << 31:
            return I(a.a[0] << b.a[0])
        elif op == 'Shl' and a.op == 'int' and b.op == 'int' and a.a[0] >= 0 and 0 <= b.a[0] < 63 and ty in ('u64', 'i64') and a.a[0] << b.a[0] < 1 << 63:
            return I(a.a[0] << b.a[0])
        else:
            if op == 'ShlUnchecked':
                op = 'Shl'
            elif op == 'BitOr' and a.i > b.i:
                a, b = b, a
            return mk('bin', op, a, b)
        return r

    # ------------------------------------------------------------ effects
    def effect(s, kind, *args, where=None):
        s.seqno += 1
        st = s.ctx + ((('if', s.cond),) if s.cond is not TRUE else ())
        e = Effect(kind, tuple(args), st, where or (s.stack[-1] if s.stack else '?'), s.seqno, s.lids)
        s.effects.append(e)
        return e

    def mayfail(s, ok, what, *args, where=None):
        """the program stops here unless `ok`"""
        if band(bnot(ok), s.cond, s.assume) is not FALSE and not s.known(ok):
            s.effect('mayfail', mk('name', what), *args, ok, where=where)

    def under(s, c, f):
        c = as_bool(c)
        if not feasible(c, s.cond, s.assume):
            return mk('bottom', 'dead')
        if band(bnot(c), s.cond, s.assume) is FALSE:
            return f()
        saved, m0 = s.cond, dict(s.mem)
        s.cond = band(s.cond, c)
        r = f()
        s.cond = saved
        m1 = s.mem
        for k, v in m1.items():
            if k in m0 and m0[k] is not v:
                m1[k] = mkphi([(c, v), (bnot(c), m0[k])])
        return r

    # ------------------------------------------------------------ bodies
    def eval_body(s, b, args, gen=None):
        s.blocks_run += len(b.rpo)
        if s.blocks_run > s.max_blocks:
            raise Budget('too many blocks')
        s.fns.add(b.id)
        s.uid += 1
        fr = Frame(b, s.uid, gen or {})
        for i, a in enumerate(args):
            s.mem[(fr.uid, i + 1)] = a
            if i + 1 < len(b.locals) and UNS.match(b.locals[i + 1]):
                mark_unsigned(a)
        s.stack.append(b.id)
        saved = s.cond
        rets = []
        outs = s.region(fr, set(b.rpo), 0, saved, s.mem, None)
        for tgt, c, m in outs:
            if tgt == 'ret':
                rets.append((c, m))
        s.stack.pop()
        s.cond = saved
        if not rets:
            # never returns normally
            return mk('bottom', 'never')
        vals = [(c, m.get((fr.uid, 0), UNIT)) for c, m in rets]
        s.mem = s.merge([(c, m) for c, m in rets])[1]
        if len(vals) == 1:
            v = vals[0][1]
        else:
            R = bor(*[c for c, _ in vals])
            v = mkphi([(constrain(c, R), x) for c, x in vals])
        for k in [k for k in s.mem if k[0] == fr.uid]:
            # cells stay alive only if something still points at them
            if s.keep_frames is False:
                del s.mem[k]
        return v

    keep_frames = True

    def merge(s, ins):
        if len(ins) == 1:
            return ins[0]
        R = bor(*[c for c, _ in ins])
        keys = set()
        for _, m in ins:
            keys |= m.keys()
        out = {}
        for k in keys:
            vs = [(c, m[k]) for c, m in ins if k in m]
            v0 = vs[0][1]
            if all(v is v0 for _, v in vs):
                out[k] = v0
            else:
                out[k] = mkphi([(constrain(c, R), v) for c, v in vs])
        return R, out

    def region(s, fr, region, entry, cond, mem, header):
        """run blocks of `region` from entry; returns edges leaving it (or reaching `header`)"""
        b = fr.body
        pend = {entry: [(cond, mem)]}
        outs = []
        first_ = True
        for x in b.rpo:
            if x not in region or x not in pend:
                continue
            c, m = s.merge(pend.pop(x))
            if c is FALSE or not feasible(c, s.assume):
                continue
            if x in b.loops and not (x == header):
                edges = s.loop(fr, x, c, m)
            else:
                edges = s.block(fr, x, c, m)
            for tgt, ec, em in edges:
                if tgt == 'ret' or tgt not in region or tgt == header:
                    outs.append((tgt, ec, em))
                else:
                    pend.setdefault(tgt, []).append((ec, em))
        return outs

    def block(s, fr, x, cond, mem):
        b = fr.body
        s.cond = cond
        s.mem = dict(mem)
        bl = b.blocks[x]
        for st in bl['s']:
            if st[0] == '=':
                s.wr_place(fr, st[1], s.rvalue(fr, st[2]))
        t = bl['t']
        if isinstance(t, dict):
            v = s.call(fr, t)
            if t['to'] is None or v.op == 'bottom' and v.a[0] == 'never':
                return []
            if UNS.match(t['dty']):
                mark_unsigned(v)
            s.wr_place(fr, t['dest'], v)
            if x in b.okable and t['to'] not in b.okable:
                return []
            return [(t['to'], s.cond, s.mem)]
        k = t[0]
        if k == 'goto':
            if x in b.okable and t[1] not in b.okable:
                s.errexits.append((b.id, s.ctx, s.cond, t[1]))
                return []
            return [(t[1], s.cond, s.mem)]
        if k == 'return':
            return [('ret', s.cond, s.mem)]
        if k == 'drop':
            s.drop(fr, t[1], t[2])
            return [(t[4], s.cond, s.mem)]
        if k == 'assert':
            if t[3] in ('bounds', 'div0'):
                c = as_bool(s.operand(fr, t[1]))
                s.mayfail(c if t[2] else bnot(c), t[3], *[s.deep(s.operand(fr, o)) for o in t[4]], where=(b.id, t[6]))
            return [(t[5], s.cond, s.mem)]
        if k == 'switch':
            return s.switch(fr, x, t)
        return []

    def drop(s, fr, pl, ty):
        m = s.models.get('DROP')
        if m and not pl[1]:
            v = s.mem.get((fr.uid, pl[0]))
            if v is not None:
                m(s, v, ty)

    def switch(s, fr, x, t):
        b = fr.body
        if s.force_exit is not None and s.force_exit[:2] == (fr.uid, x):
            return [(s.force_exit[2], s.cond, s.mem)]
        v = s.operand(fr, t[1])
        if v.op == 'ptr':
            v = s.load(v)
        conds = []
        rest = TRUE
        for val, tgt in t[3]:
            c = s.test(v, val, t[2])
            conds.append((tgt, band(rest, c)))
            rest = band(rest, bnot(c))
        if t[4] is not None:
            if rest is not FALSE and not exhausted(v, t, s):
                conds.append((t[4], rest))
        merged = {}
        for tgt, c in conds:
            merged[tgt] = bor(merged.get(tgt, FALSE), c)
        live = []
        for tgt, c in merged.items():
            if not feasible(c, s.cond, s.assume):
                continue
            if b.blocks[tgt]['t'] == ['unreachable'] and not b.blocks[tgt]['s']:
                continue
            live.append((tgt, c))
        good = [(tgt, c) for tgt, c in live if tgt in b.okable]
        if good and len(good) < len(live):
            for tgt, c in live:
                if tgt not in b.okable:
                    s.errexits.append((b.id, s.ctx, band(s.cond, c), tgt))
                    s.why[s.errexits[-1]] = c
            G = bor(*[c for _, c in good])
            good = [(tgt, TRUE if len(good) == 1 else constrain(c, G)) for tgt, c in good]
        elif not good:
            for tgt, c in live:
                s.errexits.append((b.id, s.ctx, band(s.cond, c), tgt))
                s.why[s.errexits[-1]] = c
            return []
        if len(live) == 1 and len(good) == 1:
            good = [(good[0][0], TRUE if band(bnot(good[0][1]), s.cond, s.assume) is FALSE else good[0][1])]
        out = []
        for tgt, c in good:
            c = constrain(c, s.assume)
            nc = band(s.cond, c)
            if nc is FALSE:
                continue
            out.append((tgt, nc, dict(s.mem) if len(good) > 1 else s.mem))
        return out

    def test(s, v, val, ty):
        if v.op == 'discr':
            x, name = v.a
            names = ENUMS.get(name)
            if names is None:
                a = s.w.adts.get(name)
                names = ENUMS[name] = [q['name'] for q in a['variants']] if a else None
            if names is None:
                return eq(v, I(int(val)))
            a = s.w.adts.get(name) or {}
            vn = None
            for q in a.get('variants', []):
                if int(q['discr']) == int(val):
                    vn = q['name']
            if vn is None:
                iv = int(val)
                if name == 'Ordering':
                    vn = {0: 'Equal', 1: 'Greater', 255: 'Less', -1: 'Less'}.get(iv)
                if vn is None:
                    vn = names[iv] if 0 <= iv < len(names) else 'v%d' % iv
            return s.variant_test(x, name, vn)
        if ty == 'bool' or v.op == 'b':
            v = as_bool(v)
            return bnot(v) if int(val) == 0 else v
        if v.op == 'char':
            return TRUE if ord(v.a[0]) == int(val) else FALSE
        if ty == 'char':
            return chain(v, ('c',), int(val))
        return eq(v, I(int(val)))

    def variant_test(s, x, name, vn):
        if x.op == 'cmp':
            return cmp_test(x, vn)
        if x.op == 'entry':
            c = contains_key(s.load(x.a[0]), x.a[1])
            return c if vn == 'Occupied' else bnot(c)
        if x.op == 'phi':
            return bor(*[band(g, s.variant_test(y, name, vn)) for g, y in x.a[0]])
        return is_variant(x, name, vn)

    # ------------------------------------------------------------ loops
    def find_driver(s, b, h):
        """blocks of the loop that advance an iterator: (block, iterator place)"""
        found = []
        body = b.loops[h]
        latches = [p for p in b.pred[h] if p in body]
        x = h
        seen = set()
        while x not in seen:
            seen.add(x)
            bl = b.blocks[x]
            t = bl['t']
            if isinstance(t, dict) and t['f'][0] == 'k' and 'fn' in t['f'][1]:
                fn = t['f'][1]['fn']
                if short(fn['path']) in DRIVERS and t['args'] and t['args'][0][0] in ('m', 'c'):
                    al = t['args'][0][1]
                    if not al[1] and all(b.dominates(x, l) for l in latches):
                        found.append((x, al))
            su = [y for y in b.succ[x] if y in body]
            if len(su) != 1:
                break
            x = su[0]
            if x == h:
                break
        return found

    def loop(s, fr, h, cond, mem):
        b = fr.body
        body = b.loops[h]
        s.mem = dict(mem)
        s.cond = cond
        for drv in s.find_driver(b, h):
            # resolve the iterator by running up to the driver block
            r = s.iter_driver(fr, h, drv)
            if r is not None:
                return r
            s.mem = dict(mem)
            s.cond = cond
        return s.generic_loop(fr, h, cond, mem)

    def iter_driver(s, fr, h, drv):
        b = fr.body
        cond, mem = s.cond, s.mem
        x = h
        ne = len(s.effects)
        s.mem = dict(mem)
        while True:
            bl = b.blocks[x]
            if x == drv[0]:
                for st in bl['s']:
                    if st[0] == '=':
                        s.wr_place(fr, st[1], s.rvalue(fr, st[2]))
                p = s.operand(fr, ['c', drv[1]])
                break
            edges = s.block(fr, x, s.cond, s.mem)
            if len(edges) != 1:
                del s.effects[ne:]
                return None
            x = edges[0][0]
        del s.effects[ne:]
        s.mem = dict(mem)
        s.cond = cond
        if p.op != 'ptr' or p.a[0] not in mem:
            return None
        it = s.load(p)
        mi = MutIter(s, it) if it.op == 'itermut' else None
        if mi is not None and not mi.ok:
            raise Budget('changes the elements of %s in place' % show(it)[:80])
        seq = s.to_iter(it) if mi is None else mi.seq
        if seq is None:
            return None
        nxt_dest = b.blocks[drv[0]]['t']['dest']
        wrap = Ok if b.blocks[drv[0]]['t']['dty'].startswith('std::result::Result<') else (lambda x: x)
        exits = []

        def body(e):
            """one iteration with element e: run from the header; returns (next, breaks)"""
            s.drivers[(fr.uid, drv[0])] = wrap(Some(e if mi is None else mi.start(e)))
            outs = s.region(fr, b.loops[h], h, s.cond, s.mem, h)
            del s.drivers[(fr.uid, drv[0])]
            back = [(c, m if mi is None else mi.end(m, e)) for tgt, c, m in outs if tgt == h]
            brk = [(tgt, c, m) for tgt, c, m in outs if tgt != h]
            if mi is not None and any(c is not FALSE for _, c, _ in brk):
                raise Budget('leaves a loop that changes elements in place')
            return back, brk
        segs = as_segs(seq)
        done = s.run_segs(segs, body, skip_cells={p.a[0]} | ({mi.cell.a[0]} if mi is not None else set()))
        if mi is not None and done['mem'] is not None:
            s.mem = done['mem'] = dict(done['mem'])
            mi.finish()
        # normal exit: run the header once more with an exhausted iterator
        outs = []
        for tgt, c, m in done['breaks']:
            outs.append((tgt, c, m))
        if done['mem'] is not None:
            s.mem, s.cond = done['mem'], done['cond']
            if p.a[0] in s.mem:
                s.store(p, mk('drained', seq))
            s.drivers[(fr.uid, drv[0])] = wrap(NONE)
            ex = s.region(fr, b.loops[h], h, s.cond, s.mem, h)
            del s.drivers[(fr.uid, drv[0])]
            outs = [(t, c, m) for t, c, m in ex if t != h] + outs
        return outs

    drivers = {}
    lids = ()

    def open_seg(s, st, e):
        """rename bound variables that are already in scope"""
        active = s.active()
        ren = {}
        out = []
        for sg in st:
            if ren:
                sg = subst_any(sg, ren) if sg[0] != 'for' else ('for', sg[1], subst(sg[2], ren))
            if sg[0] == 'for':
                v, src = sg[1], sg[2]
                want = v if not ren else (mk('elem', src, v.a[1]) if v.op == 'elem' else v)
                while want in active:
                    want = mk('elem', want.a[0], want.a[1] + 1)
                if want is not v:
                    ren[v] = want
                if src in MAPS or v.a[0] in MAPS:
                    MAPS.add(src)
                sg = ('for', want, src)
                active = active | {want}
            out.append(sg)
        return tuple(out), subst(e, ren) if ren else e

    def known(s, c):
        """c holds on every path that reaches this point"""
        if band(s.assume, s.cond, bnot(c)) is FALSE:
            return True
        k = set(tm.BD.support(c.a[0]))
        for _, ctx, g, _ in s.errexits:
            if g is not FALSE and s.ctx[:len(ctx)] == ctx and k & set(tm.BD.support(g.a[0])):
                if band(s.assume, s.cond, bnot(c), bnot(g)) is FALSE:
                    return True
        return False

    def active(s):
        return frozenset(x[1] for x in s.ctx if x[0] == 'for')

    def run_segs(s, segs, body, skip_cells=()):
        """drive body over every segment; body(e) -> (back edges, break edges).
        returns dict(mem, cond, breaks)"""
        breaks = []
        for st, e in segs:
            st, e = s.open_seg(st, e)
            if not is_for(st):
                g = guard_of(st)
                odd = [x for x in st if x[0] != 'if']
                if odd:
                    st = st
                c0, m0 = s.cond, s.mem
                if not feasible(g, c0, s.assume):
                    continue
                s.cond = band(c0, g)
                s.mem = dict(m0)
                back, brk = body(e)
                breaks += brk
                ins = list(back)
                if feasible(bnot(g), c0, s.assume) and g is not TRUE:
                    ins.append((band(c0, bnot(g)), m0))
                if not ins:
                    return {'mem': None, 'cond': FALSE, 'breaks': breaks}
                s.cond, s.mem = s.merge(ins)
                continue
            r = s.run_for(st, e, body, skip_cells)
            breaks += r['breaks']
            if r['mem'] is None:
                return {'mem': None, 'cond': FALSE, 'breaks': breaks}
            s.mem, s.cond = r['mem'], r['cond']
        return {'mem': s.mem, 'cond': s.cond, 'breaks': breaks}

    def explode(s, lid, key, v, d=0):
        if v is not None and v.op == 'adt' and v.a[0] not in ENUMS and v.a[2] and d < 4:
            return adt(v.a[0], v.a[1], [(f, s.explode(lid, key + (f,), x, d + 1) if x.op not in ('ptr', 'clo') else x)
                                        for f, x in v.a[2]])
        return mk('mu', lid, key)

    def run_for(s, st, e, body, skip_cells):
        if e.op != 'idx' or e.a[0] is not norm_stages(st) and e.a[0] != norm_stages(st):
            return s.run_for1(st, e, body, skip_cells)
        # positions 0..len: when the body looks them up in an ordered collection of that length, iterate that
        sv = s.cond, s.mem, s.ctx, s.assume
        ne, nx, nl = len(s.effects), len(s.errexits), len(tm.INDEX_LOG)
        r = s.run_for1(st, e, body, skip_cells)
        for X, i in tm.INDEX_LOG[nl:]:
            if i is e and len(X.a[0]) == 1 and length(X) is count(st):
                st2, _ = s.open_seg(X.a[0][0][0], UNIT)
                if st2 == st:
                    continue
                del s.effects[ne:]
                del s.errexits[nx:]
                s.cond, s.mem, s.ctx, s.assume = sv
                return s.run_for1(st2, mk('idx', norm_stages(st2)), body, skip_cells)
        return r

    def run_for1(s, st, e, body, skip_cells):
        cond0, mem0, ctx0, as0 = s.cond, s.mem, s.ctx, s.assume
        ne, nx = len(s.effects), len(s.errexits)
        s.nmu += 1
        lid = s.nmu
        mods = {}
        forced = {}
        # the stages as seen by effects of the body
        pre = (('if', cond0),) if cond0 is not TRUE else ()
        g = TRUE
        late = set()
        flags = {}
        for rnd in range(12):
            del s.effects[ne:]
            del s.errexits[nx:]
            s.ctx = ctx0 + pre + st
            s.assume = band(as0, cond0)
            for x in st:
                if x[0] == 'if':
                    s.assume = band(s.assume, x[1])
            s.cond = TRUE
            s.mem = dict(mem0)
            for k in mods:
                s.mem[k] = forced[k] if k in forced else mods[k]
            start = dict(s.mem)
            lids0 = s.lids
            s.lids = lids0 + ((len(s.ctx), lid),)       # which run of which loop: (stages that belong to it, number)
            back, brk = body(e)
            s.lids = lids0
            if back:
                Rn, mn = s.merge(back)
            else:
                Rn, mn = FALSE, {}
            new = False
            for k in mem0:
                if k in skip_cells or k in mods:
                    continue
                if k in mn and mn[k] is not start[k]:
                    for f in COERCE:
                        mem0 = {**mem0, k: f(mem0[k], mn[k])}
                    mods[k] = s.explode(lid, k, mem0[k])
                    new = True
            if new:
                continue
            # counters known in closed form inside the body
            again = False
            if back:
                for k in list(mods):
                    if mods[k].op == 'mu' and k in forced:
                        continue
                    cf = s.closed_form(mem0[k], mods[k], mn[k], st, forced.get(k))
                    if cf is not None and cf is not mods[k] and cf is not forced.get(k):
                        forced[k] = cf
                        again = True
                    elif cf is None and k not in forced:
                        fl = s.flag(mem0[k], mods[k], mn[k], st)
                        if fl is not None:
                            forced[k] = fl
                            flags[k] = mn[k]
                            late.add(k)
                            again = True
                            continue
                        d = s.delayed(mem0[k], mods[k], mn[k], st, s.effects[ne:], [mn[x] for x in mods if x != k])
                        if d is not None:
                            forced[k] = d
                            late.add(k)
                            again = True
            if again:
                continue
            break
        s.ctx, s.assume, s.cond = ctx0, as0, cond0
        effs = s.effects[ne:]
        # early exits
        brk = [(t, c, m) for t, c, m in brk if c is not FALSE]
        stN = st
        Bc = FALSE
        if brk:
            Bc = bor(*[c for _, c, _ in brk])
            full = ctx0 + pre + st
            n_take = limit_of(Bc, st)
            for ef in effs:
                if ef.stages[:len(full)] == full:
                    tail = ef.stages[len(full):]
                    c = tail[0][1] if tail and tail[0][0] == 'if' else TRUE
                    if band(c, Bc) is FALSE:
                        extra = (('take', n_take),) if n_take is not None else (('while', bnot(Bc)),)
                        c2 = constrain(c, bnot(Bc))
                        tail = ((('if', c2),) if c2 is not TRUE else ()) + (tail[1:] if tail and tail[0][0] == 'if' else tail)
                    else:
                        extra = (('until', Bc),)
                    ef.stages = full + extra + tail
            stN = st + ((('take', n_take),) if n_take is not None else (('while', bnot(Bc)),))
        # values after the loop
        memN = dict(mem0)
        mus = {}
        for k in mods:
            iv = mem0[k]
            nv = flags.get(k, mn.get(k)) if back else None
            memN[k] = s.solve(iv, mods[k], nv, stN, Rn if not brk else TRUE, None if k in late else forced.get(k)) if nv is not None else iv
            collect_mus(mods[k], memN[k], iv, mus, stN)
        # drop cells created inside
        outs = []
        if brk:
            ex = exists(st + (('if', Bc),))
            for tgt, c, m in brk:
                gst = st + (('if', c),)
                mm = dict(mem0)
                for k in m:
                    v = m[k]
                    if k in mods or k not in mem0 or v is not mem0.get(k):
                        v = subst_mus(v, mus)
                        if len(brk) == 1 and n_take is None and v.op not in ('ptr', 'clo'):
                            i = idx_of(st)
                            if i.op == 'idx' and i in contains_op(v, ('idx',)) or i.op == 'elem' and len(st) == 1 and i in lparts(v)[1]:
                                # the position of the element that ends the loop: the number of those before it
                                v = replace(v, i, count(st + (('while', bnot(Bc)),)))
                        v = s.first_val(gst, v)
                    mm[k] = v
                cc = exists(gst) if len(brk) == 1 else s.first_cond(st, Bc, c)
                outs.append((tgt, band(cond0, cc), mm))
            condN = band(cond0, bnot(ex))
        else:
            condN = cond0
        if not back and not brk:
            # body never completes an iteration: either no element, or diverges/errors
            return {'mem': memN, 'cond': cond0, 'breaks': outs}
        for k in memN:
            pass
        return {'mem': memN if condN is not FALSE else None, 'cond': condN, 'breaks': outs}

    def first_val(s, gst, v):
        if v.op == 'ptr':
            return v
        if not (v.fv & bound_vars(gst)):
            return v
        return first(gst, v)

    def first_cond(s, st, Bc, c):
        return atom(mk('firstis', st + (('if', Bc),), c))

    def flag(s, init, mu, nxt, st):
        """value, at the start of an iteration, of a variable that is given one fixed value by the iterations (that meet a condition)"""
        if mu.op != 'mu':
            return None
        if nxt is TRUE or nxt is FALSE or nxt.op == 'int':
            started = bnot(eq(idx_of(st), I(0)))
            return mkphi([(started, nxt), (bnot(started), init)])
        if nxt.op == 'b' and mu in nxt.fv:
            m = as_bool(mu)
            hi, lo = cofactor(nxt, m, True), cofactor(nxt, m, False)
            hit, v = (lo, TRUE) if hi is TRUE else (bnot(hi), FALSE) if lo is FALSE else (None, None)
            if hit is not None and not contains_op(hit, {'mu'}) and mu not in hit.fv:
                started = bnot(eq(idx_of(tuple(st) + (('if', hit),)), I(0)))
                return bor(as_bool(init), started) if v is TRUE else band(as_bool(init), bnot(started))
        return None

    def delayed(s, init, mu, nxt, st, effs, others):
        """a variable that only carries what the previous iteration left in it"""
        if mu.op != 'mu' or len(st) != 1 or st[0][2].op != 'range':
            return None
        keep = [g for g, v in nxt.a[0] if v is mu] if nxt.op == 'phi' else []
        set_ = [(g, v) for g, v in nxt.a[0] if v is not mu] if nxt.op == 'phi' else [(TRUE, nxt)]
        if not set_ or any(mu in x.fv or contains_op(x, ('mu',)) for g, v in set_ for x in (g, v)) or any(mu in g.fv for g in keep):
            return None
        if not any(mu in _fv_of_seg(e.stages, mk('x', *e.args)) for e in effs) and not any(mu in x.fv for x in others):
            return None
        v, lo = st[0][1], st[0][2].a[0]
        first_ = eq(v, lo)
        if keep:
            # left by the last earlier iteration that set it
            hit = bor(*[g for g, _ in set_])
            val = mkphi([(constrain(g, hit), x) for g, x in set_])
            u = elem(mk('range', lo, v))
            return s.last_val(init, mu, subst(val, {v: u}), (('for', u, mk('range', lo, v)), ('if', subst(hit, {v: u}))))
        return mkphi([(first_, init), (bnot(first_), subst(nxt, {v: sub(v, I(1))}))])

    def closed_form(s, init, mu, nxt, st, cur=None):
        """value of a counter at the start of an iteration, when it is init + (iterations so far);
        of a record with such counters, or fields that never change"""
        if mu.op == 'adt' and nxt.op == 'adt' and nxt.a[1] == mu.a[1] and nxt.a[0] == mu.a[0]:
            fs, ch = [], False
            for f, m in mu.a[2]:
                c = proj_any(cur, f) if cur is not None else m
                x = c
                if c is m and m.op == 'mu':
                    nv = proj_any(nxt, f)
                    if nv is m:
                        x = proj_any(init, f)
                    else:
                        r = s.closed_form(proj_any(init, f), m, nv, st)
                        x = r if r is not None else m
                elif m.op == 'adt' and proj_any(init, f).op == 'adt':
                    r = s.closed_form(proj_any(init, f), m, proj_any(nxt, f), st, c)
                    x = r if r is not None else c
                ch |= x is not c
                fs.append((f, x))
            return adt(mu.a[0], mu.a[1], fs) if ch else None
        if mu.op == 'mu' and nxt.op in ('lin',):
            d = sub(nxt, mu)
            if d is I(1):
                return add(init, idx_of(st))
            if len(st) == 1 and st[0][0] == 'for' and st[0][1] in d.fv and not contains_op(d, {'mu'}):
                # a running total: what the earlier elements added
                return add(init, mk('api', 'earlier', d))
        if mu.op == 'mu' and nxt.op == 'phi':
            # counted only under a condition: the number of earlier elements that met it
            hit = [g for g, v in nxt.a[0] if v is not mu]
            if hit and all(v is mu or v.op == 'lin' and sub(v, mu) is I(1) for _, v in nxt.a[0]) and all(mu not in g.fv for g in hit):
                return add(init, idx_of(tuple(st) + (('if', bor(*hit)),)))
            if hit and len(st) == 1 and st[0][0] == 'for' and all(mu not in g.fv for g, _ in nxt.a[0]):
                ds = [(g, sub(v, mu)) for g, v in nxt.a[0] if v is mu or v.op == 'lin']
                if len(ds) == len(nxt.a[0]) and all(mu not in d.fv and not contains_op(d, {'mu'}) for _, d in ds) and all(not contains_op(g, {'mu'}) for g, _ in ds):
                    return add(init, mk('api', 'earlier', mkphi(ds)))
        return None

    def solve(s, init, mu, nxt, st, Rn, forced=None):
        """closed form of a variable after the loop"""
        if forced is not None and mu.op == 'mu':
            return add(init, asum(st, mkphi([(g, sub(v, forced)) for g, v in phis(nxt)])))
        if mu.op == 'adt':
            fs = []
            if nxt.op != 'adt' or nxt.a[1] != mu.a[1]:
                if nxt.op == 'phi' and all(v.op == 'adt' and v.a[1] == mu.a[1] for _, v in nxt.a[0]):
                    pass
                else:
                    return mk('loopval', init, mu, nxt, st)
            for i, (f, m) in enumerate(mu.a[2]):
                iv = proj_any(init, f)
                nv = proj_any(nxt, f)
                if m.op in ('ptr', 'clo'):
                    fs.append((f, nv))
                else:
                    fc = proj_any(forced, f) if forced is not None else None
                    if m.op == 'mu' and fc is iv:
                        fs.append((f, iv))
                    else:
                        fs.append((f, s.solve(iv, m, nv, st, Rn, fc if fc is not m else None)))
            return adt(mu.a[0], mu.a[1], fs)
        if nxt is mu:
            return init
        if mu not in nxt.fv:
            return s.last_val(init, mu, nxt, st)
        # boolean
        if nxt.op == 'b':
            m = as_bool(mu)
            c1 = B(BD.ite(1, 1, 0))
            hi = cofactor(nxt, m, True)
            lo = cofactor(nxt, m, False)
            if mu not in hi.fv and mu not in lo.fv:
                if hi is TRUE:                      # mu or lo
                    return bor(as_bool(init), exists(st + (('if', lo),)))
                if lo is FALSE:                     # mu and hi
                    return band(as_bool(init), bnot(exists(st + (('if', bnot(hi)),))))
            return atom(mk('loopval', init, mu, nxt, st))
        r = s.solve_acc(init, mu, nxt, st)
        if r is not None:
            return r
        return mk('loopval', init, mu, nxt, st)

    def last_val(s, init, mu, nxt, st):
        if not (nxt.fv & bound_vars(st)) and not contains_op(nxt, {'mu'}):
            return mkphi([(exists(st), nxt), (bnot(exists(st)), init)])
        return mkphi([(exists(st), last(st, nxt)), (bnot(exists(st)), init)])

    def solve_acc(s, init, mu, nxt, st):
        alts = phis(nxt)
        if nxt.op == 'cat' and nxt.a[0][0][0] == () and nxt.a[0][0][1].op == 'str' and nxt.a[0][0][1].a[0].op == 'phi':
            # text appended after a conditional append
            alts = [(g, mk_cat((((), piece(v)),) + nxt.a[0][1:])) for g, v in nxt.a[0][0][1].a[0].a[0]]
        if all(mu not in g.fv for g, _ in alts):
            # sums
            ds = []
            ok = True
            for g, v in alts:
                if v.op in ('seq', 'cat', 'mapput', 'setput', 'adt', 'ptr', 'b', 'max', 'min'):
                    ok = False
                    break
                d = sub(v, mu) if not is_real(v) else radd(v, rmul(real_const(-1), to_real(mu)))
                if mu in d.fv:
                    ok = False
                    break
                ds.append((g, d))
            if ok:
                return add(init, asum(st, mkphi(ds)))
            # overwritten on some paths: last matching element
            if all(v is mu or mu not in v.fv for _, v in alts):
                hit = bor(*[g for g, v in alts if v is not mu])
                val = mkphi([(constrain(g, hit), v) for g, v in alts if v is not mu])
                st2 = st + (('if', hit),)
                return s.last_val(init, mu, val, st2)
            if len(alts) == 1:
                v = alts[0][1]
                if v.op in ('max', 'min') and mu in v.a[0]:
                    rest = [x for x in v.a[0] if x is not mu]
                    if all(mu not in x.fv for x in rest):
                        r = init
                        for x in rest:
                            if x.op == 'int' or not (x.fv & bound_vars(st)):
                                r = mkphi([(exists(st), minmax(v.op, r, x)), (bnot(exists(st)), r)])
                            else:
                                r = minmax(v.op, r, agg_minmax(v.op, st, x))
                        return r
            # element-wise accumulation
            r = s.solve_list(init, mu, alts, st)
            if r is not None:
                return r
            r = s.solve_front(init, mu, alts, st)
            if r is not None:
                return r
        r = s.solve_map(init, mu, alts, st)
        if r is not None:
            return r
        return None

    def solve_list(s, init, mu, alts, st):
        segs = []
        kind = None
        for g, v in alts:
            if v is mu:
                continue
            if v.op in ('seq', 'cat'):
                kind = v.op
                ss = v.a[0]
                # must start with the old contents
                if not ss:
                    return None
                st0, e0 = ss[0]
                if v.op == 'seq':
                    if not (len(st0) == 1 and st0[0][0] == 'for' and st0[0][2] is mu and e0 is st0[0][1]):
                        return None
                else:
                    if not (st0 == () and e0.op == 'str' and e0.a[0] is mu):
                        return None
                for s2, e2 in ss[1:]:
                    if mu in _fv_of_seg(s2, e2):
                        return None
                    segs.append((g, s2, e2))
            else:
                return None
        if kind is None:
            return None
        # one iteration appends several segments: keep them in one nested segment
        if len(segs) == 1:
            g, s2, e2 = segs[0]
            new = [(st + (('if', g),) + s2, e2)]
        elif len(segs) == len([1 for g, v in alts if v is not mu]) and all(x[0] == 'if' for _, s2, _ in segs for x in s2):
            segs = [(band(g, *[x[1] for x in s2]), (), e2) for g, s2, e2 in segs]
            G = bor(*[g for g, _, _ in segs])
            new = [(st + (('if', G),), mkphi([(constrain(g, G), e2) for g, _, e2 in segs]))]
            if new[0][1].op == 'phi' and kind == 'cat':
                return None
        elif kind == 'cat' and joined(alts, mu, st) is not None:
            return cat(init, joined(alts, mu, st))
        else:
            inner = [((('if', g),) + s2, e2) for g, s2, e2 in segs]
            Y = mk_seq(inner) if kind == 'seq' else mk_cat(inner)
            if kind == 'cat':
                new = [(st, Y)]
                return mk('cat', tuple((as_cat(init)) + ((norm_stages(st), Y),)))
            v = elem(mk('whole', Y))
            new = [(st + (('for', v, mk('whole', Y)),), v)]
        if kind == 'seq':
            return mk_seq(tuple(as_segs(init)) + tuple(new))
        return mk_cat(tuple(as_cat(init)) + tuple(new))

    def solve_front(s, init, mu, alts, st):
        """elements put before the others in a round, and perhaps some behind them"""
        front, back = [], []
        for g, v in alts:
            if v is mu:
                back.append((g, v))
                continue
            if v.op != 'seq':
                return None
            ks = [k for k, (st0, e0) in enumerate(v.a[0]) if len(st0) == 1 and st0[0][0] == 'for' and st0[0][2] is mu and e0 is st0[0][1]]
            if len(ks) != 1 or ks[0] > 1 or any(mu in _fv_of_seg(*sg) for k, sg in enumerate(v.a[0]) if k != ks[0]):
                return None
            if ks[0]:
                front.append((g,) + v.a[0][0])
            back.append((g, mk('seq', v.a[0][ks[0]:]) if len(v.a[0]) > ks[0] + 1 else mu))
        if not front:
            return None
        if len(front) > 1 and any(s2 for _, s2, _ in front):
            return None
        rest = init if all(v is mu for _, v in back) else s.solve_list(init, mu, back, st)
        if rest is None:
            return None
        if len(front) == 1:
            g, s2, e = front[0]
        else:
            g, s2 = bor(*[h for h, _, _ in front]), ()
            e = mkphi([(constrain(h, g), x) for h, _, x in front])
        if s2:
            Y = mk('whole', mk_seq([(s2, e)]))
            e = elem(Y)
            s2 = (('for', e, Y),)
        return concat(mk_seq([(st + (('if', g), ('rev',)) + s2, e)]), rest)

    def one_put(s, mu, puts):
        """several ways of changing the entry of one key, told apart by whether it is there: as one change"""
        k = None
        out = []
        todo = list(puts)
        while todo:
            g, v = todo.pop()
            x = None
            if v.op == 'phi':
                todo += [(band(g, c), y) for c, y in v.a[0]]
                continue
            if v.op != 'mapput':
                return None
            if k is None:
                k = v.a[1]
            if v.a[1] is not k:
                return None
            x, m = v.a[2], v.a[0]
            while m is not mu:                    # what is put twice counts as put last
                if m.op == 'mapput' and m.a[1] is k:
                    m = m.a[0]
                elif m.op == 'phi' and all(y is mu or y.op == 'mapput' and y.a[1] is k and y.a[0] is mu for _, y in m.a[0]):
                    m = mu
                else:
                    return None
            out.append((g, x))
        if k is None or mu in k.fv:
            return None
        there = contains_key(mu, k)
        G = bor(*[g for g, _ in out])
        if mu in G.fv:
            return None
        x = mkphi([(constrain(g, G), v) for g, v in out])
        xa, xp = given(x, bnot(there)), given(x, there)
        hole = mk('mu', -1, ('hole',))
        f = replace(xp, map_at(mu, k), hole)
        if mu in xa.fv or mu in f.fv:
            return None
        for d in (I(0), SEQ0, S(''), FALSE, mk('map0', 'BTreeSet'), mk('map0', 'HashSet'), mk('map0', 'BTreeMap'), mk('map0', 'HashMap')):
            try:
                if replace(empty(f, hole) if d is SEQ0 else f, hole, d) is xa:
                    return G, k, f, d, hole
            except Exception:
                pass
        return None

    def solve_map(s, init, mu, alts, st):
        puts = [(g, v) for g, v in alts if v is not mu]
        if not puts:
            return None
        if any(mu in g.fv for g, _ in puts) or any(mu in v.fv for _, p in puts for v in p.a[1:] if isinstance(v, T)) or any(v.op != 'mapput' or v.a[0] is not mu for _, v in puts):
            r = s.one_put(mu, puts)
            if r is not None:
                g, k, f, d, hole = r
                return s.mk_group(init, st + (('if', g),), k, d, hole, f)
        if any(mu in g.fv for g, _ in alts):
            return None
        if all(v.op == 'setput' and v.a[0] is mu and mu not in v.a[1].fv for _, v in puts):
            segs = [(st + (('if', g),), v.a[1]) for g, v in puts]
            if init.op == 'map0':
                return set_of(init.a[0], mk_seq(segs))
            return mk('union', init, mk_seq(segs))
        if all(v.op == 'mapput' and v.a[0] is mu and mu not in v.a[1].fv for _, v in puts):
            if all(mu not in v.a[2].fv for _, v in puts):
                segs = [(st + (('if', g),), tup(v.a[1], v.a[2])) for g, v in puts]
                return map_of(init, mk_seq(segs))
            if len(puts) == 1:
                g, v = puts[0]
                k, x = v.a[1], v.a[2]
                go = [y for y in contains_op(x, {'getor'}) if y.a[0] is mu and y.a[1] is k]
                if len(go) == 1:
                    hole = mk('mu', -1, ('hole',))
                    x2 = replace(x, go[0], hole)
                    if mu not in x2.fv:
                        return s.mk_group(init, st + (('if', g),), k, go[0].a[2], hole, x2)
        if len(puts) == 1 and puts[0][1].op in ('groupmore', 'mapmore', 'union') and puts[0][1].a[0] is mu:
            g, v = puts[0]
            if any(mu in y.fv for y in v.a[1:] if isinstance(y, T)):
                return None
            st1 = st + (('if', g),)
            if v.op == 'groupmore':
                return s.mk_group(init, st1 + v.a[1], v.a[2], v.a[3], v.a[4], v.a[5])
            q = mk_seq([(st1 + st2, e2) for st2, e2 in as_segs(v.a[1])])
            if v.op == 'mapmore':
                return map_of(init, q)
            return set_of(init.a[0], q) if init.op == 'map0' else mk('union', init, q)
        return None

    def mk_group(s, init, st, k, dflt, hole, step):
        """a map where every iteration updates the entry of key k (starting from dflt)"""
        if init.op == 'map0':
            val = s.solve(dflt, hole, step, st + (('if', eq(k, tm.GKEY)),), TRUE)
            return mk('group', init.a[0], norm_stages(st), k, val)
        return mk('groupmore', init, norm_stages(st), k, dflt, hole, step)

    def generic_loop(s, fr, h, cond, mem):
        b = fr.body
        mem0, ctx0, as0 = mem, s.ctx, s.assume
        ne, nx = len(s.effects), len(s.errexits)
        s.nmu += 1
        lid = s.nmu
        mods = {}
        pre = (('if', cond),) if cond is not TRUE else ()
        for rnd in range(12):
            del s.effects[ne:]
            del s.errexits[nx:]
            s.ctx = ctx0 + pre + (('loop', lid),)
            s.assume = band(as0, cond)
            s.cond = TRUE
            s.mem = dict(mem0)
            for k in mods:
                s.mem[k] = mods[k]
            start = dict(s.mem)
            outs = s.region(fr, b.loops[h], h, TRUE, s.mem, h)
            back = [(c, m) for t, c, m in outs if t == h]
            exits = [(t, c, m) for t, c, m in outs if t != h]
            new = False
            if back:
                Rn, mn = s.merge(back)
                for k in mem0:
                    if k not in mods and k in mn and mn[k] is not start[k]:
                        for f in COERCE:
                            mem0 = {**mem0, k: f(mem0[k], mn[k])}
                        mods[k] = s.explode(lid, k, mem0[k])
                        new = True
            if new:
                continue
            # counting loop?
            if back and rnd < 10:
                r = s.counter_loop(fr, h, cond, mem0, mods, mn, outs, ctx0, as0, ne, nx)
                if r is not None:
                    return r
            break
        s.ctx, s.assume = ctx0, as0
        res = []
        for t, c, m in exits:
            mm = {}
            for k, v in m.items():
                mm[k] = v
            res.append((t, band(cond, wrap_loop_cond(c, lid, len(exits))), mm))
        return res

    def counter_loop(s, fr, h, cond, mem0, mods, mn, outs, ctx0, as0, ne, nx):
        b = fr.body
        body = b.loops[h]
        # the header must decide: one successor stays, one leaves
        hs = b.succ[h]
        chain_ = [h]
        x = h
        while True:
            ins = [y for y in b.succ[x] if y in body]
            if len(b.succ[x]) > 1:
                break
            if len(ins) != 1:
                return None
            x = ins[0]
            chain_.append(x)
            if len(chain_) > 30:
                return None
        t = b.blocks[x]['t']
        if isinstance(t, dict) or t[0] != 'switch' or t[2] != 'bool':
            return None
        stay = [y for y in b.succ[x] if y in body]
        leave = [y for y in b.succ[x] if y not in body]
        if len(stay) != 1 or len(leave) != 1:
            return None
        ex = [(c, m) for tt, c, m in outs if tt == leave[0]]
        if not ex:
            return None
        go = None
        c_exit = ex[0][0] if len(ex) == 1 else None
        if c_exit is None:
            return None
        # fields that never change have their initial value
        same = {}
        leaves = []

        def leaf(k, path, m, nv, iv):
            if m.op == 'mu':
                if nv is m:
                    same[m] = iv
                else:
                    leaves.append((k, path, m, nv, iv))
            elif m.op == 'adt' and nv is not None and nv.op == 'adt' and iv.op == 'adt':
                for f, x in m.a[2]:
                    leaf(k, path + (f,), x, proj_any(nv, f), proj_any(iv, f))
            else:
                leaves.append((k, path, m, nv, iv))
        for k in mods:
            leaf(k, (), mods[k], mn[k], mem0[k])
        go = bnot(c_exit)
        if same:
            go = subst_any(go, same)

        def put(k, path, x):
            """cell k with the counter set to x"""
            def w(v, p):
                return x if not p else with_field(v, p[0], None, w(proj_any(v, p[0]), p[1:]))
            return w(mem0[k], path)
        for k, path, m, nv, iv in leaves:
            if sum(1 for l in leaves if l[0] is k or l[0] == k) != 1 or m.op != 'mu' or nv is None:
                continue
            if same:
                nv = subst_any(nv, same)
            stream, down = None, None
            if nv.op == 'lin' and sub(nv, m) is I(-1):
                down = lower_bound(go, m)
                if down is None or any(v in down.fv for v in flat_mus(mods)):
                    continue
                n, at_, after = sub(iv, down), (lambda e, iv=iv: sub(iv, e)), minmax('min', iv, down)
                stream, init = True, I(0)
                stN = range_seg(init, n)
            elif nv.op == 'lin' and sub(nv, m) is I(1):
                n = upper_bound(go, m)
                if n is None or any(v in n.fv for v in flat_mus(mods)):
                    continue
                init = iv
                stN = range_seg(init, n)
                after = minmax('max', init, n)
            else:
                for st_ in STREAMS:
                    stream = stream or st_(go, m, nv, iv)
                if stream is None:
                    continue
                n, at_, after = stream
                init = I(0)
                stN = range_seg(init, n)

            def body_fn(e, k=k, n=n, path=path, stream=stream):
                x_ = s.range_val(e)
                s.mem[k] = put(k, path, at_(x_) if stream else x_)
                s.assume = band(s.assume, *([lt(down, at_(x_))] if down is not None else [bnot(eq(at_(x_), after)), lt(at_(x_), after)] if stream else [lt(x_, n)]))
                o = s.region(fr, body, h, s.cond, s.mem, h)
                return ([(c, mm) for tt, c, mm in o if tt == h], [(tt, c, mm) for tt, c, mm in o if tt != h])
            s.ctx, s.assume, s.cond, s.mem = ctx0, as0, cond, dict(mem0)
            del s.effects[ne:]
            del s.errexits[nx:]
            st, e = s.open_seg(stN[0], stN[1])
            r = s.run_for(st, e, body_fn, {k})
            outs2 = list(r['breaks'])
            if r['mem'] is not None:
                r['mem'][k] = put(k, path, after)
                s.mem, s.cond = r['mem'], r['cond']
                s.assume = band(as0, TRUE)
                sv = s.assume
                s.force_exit = (fr.uid, x, leave[0])
                o = s.region(fr, body, h, s.cond, s.mem, h)
                s.force_exit = None
                outs2 = [(tt, c, mm) for tt, c, mm in o if tt == leave[0]] + outs2
            s.ctx, s.assume = ctx0, as0
            return outs2
        return None

    force_exit = None

    def range_val(s, e):
        return e

    # ------------------------------------------------------------ iteration helper used by models
    def each(s, seq, f):
        """apply f to each element (effects and state changes included) -> new sequence"""
        out = []
        for st, e in as_segs(seq):
            st, e = s.open_seg(st, e)
            box = {}

            def body(x):
                box['v'] = f(x)
                return [(s.cond, s.mem)], []
            if not is_for(st):
                g = guard_of(st)
                v = s.under(g, lambda: f(e))
                out.append((st, v))
                continue
            r = s.run_for(st, e, body, ())
            s.mem, s.cond = r['mem'] if r['mem'] is not None else s.mem, r['cond']
            out.append((st, box['v']))
        return out

    # ------------------------------------------------------------ iterators
    def to_iter(s, v):
        """sequence term for anything iterable, or None"""
        if v.op == 'ptr':
            v = s.load(v)
        if v.op == 'drained':
            return SEQ0
        if v.op == 'itermut':
            return s.to_iter(s.load(v.a[0]))
        if v.op in ('seq',):
            return v
        if v.op == 'get':
            return mk_seq(list(as_segs(v)))
        if v.op == 'map0':
            return SEQ0
        if v.op == 'adt':
            if v.a[0] == 'Range':
                lo, hi = v.a[2][0][1], v.a[2][1][1]
                st, e = range_seg(lo, hi)
                return mk('seq', ((st, e),))
            if v.a[0] == 'RangeInclusive':
                lo, hi = v.a[2][0][1], v.a[2][1][1]
                st, e = range_seg(lo, add(hi, I(1)))
                return mk('seq', ((st, e),))
            if v.a[0] == 'Option':
                return mk_seq([((), v.a[2][0][1])]) if v.a[1] == 'Some' else SEQ0
            if v.a[0] == 'tuple':
                return None
            return s.custom_iter(v)
        if v.op == 'phi':
            parts = []
            for g, x in v.a[0]:
                t = s.to_iter(x)
                if t is None:
                    return None
                parts.append((g, t))
            return mkphi([(g, t if t.op == 'seq' else mk('seq', as_segs(t))) for g, t in parts])
        if v.op in ('int', 'b', 'lin', 'cat', 'real', 'clo', 'fnv', 'mu', 'opaque', 'bottom'):
            return None
        return v

    def custom_iter(s, v):
        """a workspace type that implements Iterator by delegating to an inner iterator"""
        im = s.find_impl('Iterator', v, 'next')
        if im is None:
            return None
        field = None
        for f, x in v.a[2]:
            y = x
            if y.op == 'ptr':
                continue
            t = s.to_iter(y)
            if t is not None:
                if field is not None:
                    return None
                field = (f, t)
        if field is None:
            return None
        segs = []
        for st, e in as_segs(field[1]):
            st, e = s.open_seg(st, e)
            ne = len(s.effects)
            save = (s.cond, dict(s.mem), s.ctx, s.assume)
            s.ctx = s.ctx + st
            s.pull = e
            p = s.newcell(with_field(v, field[0], None, mk('pull', e)))
            r = s.inline(im, [p], {})
            s.cond, s.mem, s.ctx, s.assume = save
            del s.effects[ne:]
            if r.op != 'adt' or r.a[1] != 'Some':
                return None
            segs.append((st, r.a[2][0][1]))
        return mk_seq(segs)

    # ------------------------------------------------------------ calls
    def find_impl(s, trait, v, method):
        if v.op == 'phi':
            return None
        name = v.a[0] if v.op == 'adt' else None
        if name is None:
            return None
        for c, im in s.w.impls:
            if im['trait'] and im['trait'].split('::')[-1].split('<')[0] == trait:
                if s.adt_name(ty_head(im['self']), c) == name:
                    for it in im['items']:
                        if it[0] == method and it[1] in s.w.bodies:
                            return s.w.bodies[it[1]]
        return None

    def impl_by_ty(s, trait, ty, crate, method):
        if not isinstance(ty, str):
            return None
        t0 = bare(ty)
        for c, im in s.w.impls:
            if im['trait'] and im['trait'].split('::')[-1].split('<')[0] == trait.split('::')[-1].split('<')[0]:
                if bare(im['self']) == t0 or s.adt_name(ty_head(im['self']), c) == s.adt_name(ty_head(ty), crate) and '::' in ty:
                    for it in im['items']:
                        if it[0] == method and it[1] in s.w.bodies:
                            return s.w.bodies[it[1]]
        return None

    def call(s, fr, t):
        s.calls += 1
        f = t['f']
        dk = None
        if f[0] == 'k' and 'fn' in f[1]:
            info = f[1]['fn']
            if short(info['path']) in DRIVERS:
                # is this the driver of the running loop?
                blk = s.cur_block(fr, t)
                if (fr.uid, blk) in s.drivers:
                    return s.drivers[(fr.uid, blk)]
            args = [s.operand(fr, a) for a in t['args']]
            return s.call_fn(info, args, fr.gen, fr.body.crate, t)
        fv = s.operand(fr, f)
        args = [s.operand(fr, a) for a in t['args']]
        return s.call_value(fv, args, t)

    def cur_block(s, fr, t):
        m = fr.body.__dict__.setdefault('_callblk', None)
        if m is None:
            m = fr.body._callblk = {id(bl['t']): i for i, bl in enumerate(fr.body.blocks)}
        return m.get(id(t))

    def call_value(s, fv, args, t=None):
        if fv.op == 'ptr':
            fv = s.load(fv)
        if fv.op == 'clo':
            b = s.w.bodies.get(fv.a[0])
            if b is None:
                return opaque('closure')
            if b.id in s.stack:
                return opaque('recclosure')
            return s.eval_body(b, [s.clo_env(fv)] + list(args), dict(fv.a[2]))
        if fv.op == 'fnv':
            info, gen = FN.get(fv.a[0])
            return s.call_fn(info, list(args), gen, None, t)
        if fv.op == 'phi':
            return mkphi([(g, s.under(g, lambda v=v: s.call_value(v, args, t))) for g, v in fv.a[0]])
        s.effect('callunknown', fv, *[s.deep(a) for a in args])
        return ext('call', s.deep(fv), *[s.deep(a) for a in args])

    def clo_env(s, fv):
        return adt('closure:' + fv.a[0], 'closure', [('^%d' % i, v) for i, v in enumerate(fv.a[1])])

    def gsub(s, ty, gen):
        if isinstance(ty, str) and gen:
            if ty in gen:
                return gen[ty]
            for k, v in gen.items():
                if isinstance(v, str):
                    ty = re.sub(r'(?<![\w:])%s(?!\w)' % re.escape(k), lambda m: v, ty)
        return ty

    def call_fn(s, info, args, gen, crate, t):
        path = info['path']
        rid = (info.get('res') or info)['id']
        rpath = (info.get('res') or info)['path']
        targs = [s.gsub(x, gen) for x in info['targs']]
        name = short(rpath) if not info['virt'] else short(path)
        if info.get('ctor'):
            c = info['ctor']
            return s.ctor(info, c, args, crate)
        for key in (rid, s.qual(rpath, rid), name):
            if key in s.over:
                r = s.over[key](s, args, info, t)
                if r is not None:
                    return r
        tr0 = (info.get('trait') or '').split('::')[-1].split('<')[0]
        if tr0 in ('Fn', 'FnMut', 'FnOnce') and path.split('::')[-1].startswith('call') and len(args) == 2:
            a = s.load(args[1]) if args[1].op == 'ptr' else args[1]
            al = [x for _, x in a.a[2]] if a.op == 'adt' else [a]
            return s.call_value(args[0], al, t)
        b = s.w.bodies.get(rid)
        if b is not None and not (info.get('trait') and info.get('res') is None and info['virt']):
            if not (b.__dict__.get('derived') and name in s.models) or name == 'Default::default':
                return s.inline(b, args, s.bind_gen(b, targs, info, gen), t)
        trait = info.get('trait')
        if trait:
            tr = trait.split('::')[-1].split('<')[0]
            meth = path.split('::')[-1]
            if tr in ('Fn', 'FnMut', 'FnOnce') and meth.startswith('call'):
                a = args[1]
                al = [x for _, x in a.a[2]] if a.op == 'adt' else [a]
                return s.call_value(args[0], al, t)
            if not info.get('res'):
                ib = None
                if args:
                    v = args[0]
                    if v.op == 'ptr':
                        v = s.load(v)
                    if v.op == 'phi' and v.a[0] and all(x.op == 'adt' for _, x in v.a[0]) and tr not in ('Iterator',) and meth not in ('clone',):
                        ims = [s.find_impl(tr, x, meth) for _, x in v.a[0]]
                        if all(ims):
                            return mkphi([(g, s.under(g, lambda x=x, i=i: s.inline(i, [x] + args[1:], {}, t))) for (g, x), i in zip(v.a[0], ims)])
                    ib = s.find_impl(tr, v, meth)
                if ib is None and targs:
                    ib = s.impl_by_ty(tr, targs[0], crate or '', meth)
                if ib is not None and not (ib.__dict__.get('derived') and name in s.models) and ib.id not in s.stack:
                    if not (tr == 'Iterator' and meth == 'next' and False):
                        return s.inline(ib, args, {}, t)
                # provided method of a workspace trait
                pb = s.w.bodies.get(info['id'])
                if pb is not None:
                    return s.inline(pb, args, {}, t)
        m = s.models.get(name) or s.models.get(rid)
        if m is not None:
            r = m(s, args, info, t)
            if r is not None:
                return r
        # adaptors called on workspace iterators
        return s.external(name, rpath, args, info)

    def bind_gen(s, b, targs, info, gen):
        names = b.__dict__.get('generics') or []
        if len(names) == len(targs):
            return dict(zip(names, targs))
        return {}

    def qual(s, path, rid):
        return path

    def ctor(s, info, c, args, crate):
        # tuple struct / variant constructor used as a function
        p = info['path']
        segs = _split_top(strip_angle(p).replace('::::', '::'))
        c = c if isinstance(c, dict) else {}
        var = segs[-1]
        ap = '::'.join(x for x in segs[:-1] if x) if c.get('variant', True) else p
        kind = info['ctor']
        if kind == 'variant' or (isinstance(kind, list) and kind and kind[0] == 'variant') or segs[-2:-1] and segs[-2] in ('Option', 'Result', 'Cow', 'ControlFlow'):
            nm = s.adt_name('::'.join(segs[:-1]), crate or '')
        else:
            nm = s.adt_name('::'.join(segs), crate or '')
        return adt(nm, var, [(str(i), a) for i, a in enumerate(args)])

    def inline(s, b, args, gen, t=None):
        if s.stack.count(b.id) >= 1:
            vals = [s.deep(a) for a in args]
            s.effect('rec', mk('fnid', b.id), *vals)
            r = mk('ext', 'rec:' + b.id, tuple(vals))
            for i, a in enumerate(args):
                if a.op == 'ptr' and not s.is_handle(s.load(a)):
                    s.store(a, mk('ext', 'after:%d:rec:%s' % (i, b.id), tuple(vals)))
            return r
        if len(s.stack) > 60:
            raise Budget('depth')
        if s.lossy and t is not None and errs.errty(b.locals[0]) and s.stack:
            caller = s.w.bodies.get(s.stack[-1])
            if caller is not None and caller.kind != 'promoted':
                fate = errs.flow(caller).fate(t['dest'][0])
                if fate - {'propagated', 'panics'}:
                    # the caller goes on after a failure: its result is a value like any other
                    nx, c0 = len(s.errexits), s.cond
                    r = s.eval_body(b, args, gen)
                    bad = bor(FALSE, *[g for _, _, g, _ in s.errexits[nx:]])
                    del s.errexits[nx:]
                    bad = constrain(bad, c0) if c0 is not FALSE else bad
                    if bad is FALSE:
                        return r
                    e = Err(mk('errval', mk('fnid', b.id)))
                    return e if r.op == 'bottom' else mkphi([(bad, e), (bnot(bad), r)])
        return s.eval_body(b, args, gen)

    lossy = False

    def is_handle(s, v):
        return v.op == 'param' and str(v.a[0]).startswith('@') or v.op == 'handle'

    def external(s, name, path, args, info):
        vals = []
        muts = []
        for i, a in enumerate(args):
            if a.op == 'ptr' or (a.op == 'phi' and any(x.op == 'ptr' for _, x in a.a[0])):
                muts.append((i, a))
            e = s.load(a) if a.op == 'ptr' else a
            if e.op == 'entry' and e.a[0].op == 'ptr':
                muts.append((i, e.a[0]))
            vals.append(s.deep(a))
        s.unmodelled[name] = s.unmodelled.get(name, 0) + 1
        r = mk('ext', name, tuple(vals))
        s.effect('ext', mk('name', name), *vals)
        for i, a in muts:
            old = s.load(a)
            if not s.is_handle(old):
                s.store(a, mk('ext', 'after:%d:%s' % (i, name), tuple(vals)))
        return r


class MutIter:
    """iteration that may change the elements in place: each element lives in a cell of its own while
    the body runs, and what the cell holds afterwards is the new element"""

    def __init__(m, s, it):
        m.s, m.p, m.kind = s, it.a[0], it.a[1] if len(it.a) > 1 else 'list'
        m.ok = False
        if m.p.op != 'ptr':
            return
        X = s.load(m.p)
        if m.kind == 'list':
            m.map = X in tm.MAPS or X.op in ('group', 'mapof', 'map0')
        else:
            m.map = True
        m.X = X
        m.seq = s.to_iter(X)
        if m.seq is None or X.op == 'phi' and m.map:
            return
        m.ok = True
        m.cell = s.newcell(UNIT, 'elem')
        m.acc = s.newcell(SEQ0, 'elems')

    def start(m, e):
        k, v = (map_key(e), map_val(e)) if m.map else (None, e)
        m.s.mem[m.cell.a[0]] = v
        return adt('tuple', '', [('0', k), ('1', m.cell)]) if m.map and m.kind != 'vals' else m.cell

    def end(m, mem, e):
        mem = dict(mem)
        v = mem[m.cell.a[0]]
        if m.map:
            v = adt('tuple', '', [('0', map_key(e)), ('1', v)])
        mem[m.acc.a[0]] = tm.push(mem[m.acc.a[0]], v)
        return mem

    def finish(m):
        new = m.s.mem[m.acc.a[0]]
        m.s.store(m.p, map_of(mk('map0', m.X.a[0] if m.X.op in ('group', 'mapof', 'map0') else 'map'), new) if m.map else new)

    def each(m, f):
        s = m.s

        def body(e):
            f(m.start(e))
            s.mem = m.end(s.mem, e)
            return [(s.cond, s.mem)], []
        done = s.run_segs(as_segs(m.seq), body, skip_cells={m.cell.a[0]})
        if done['mem'] is not None:
            s.mem = dict(done['mem'])
            m.finish()


def map_key(e):
    return e.a[2][0][1] if e.op == 'adt' else mk('key', e)


def map_val(e):
    return e.a[2][1][1] if e.op == 'adt' else mk('val', e)


def exhausted(v, t, s):
    """no otherwise edge when every variant of the enum is listed"""
    return False


class _FN:
    def __init__(s):
        s.tab = []
        s.ix = {}

    def put(s, info, gen):
        k = (info['id'], info['path'], str(info['targs']), tuple(sorted(gen.items(), key=lambda p: p[0])) if gen else ())
        k = str(k)
        if k not in s.ix:
            s.ix[k] = len(s.tab)
            s.tab.append((info, gen))
        return s.ix[k]

    def get(s, i):
        return s.tab[i]


FN = _FN()

WIDTH = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64, 'u128': 128,
         'i128': 128, 'char': 21, 'bool': 1}


def int_cast(v, frm, to):
    if v.op == 'phi':
        return lift(lambda x: int_cast(x, frm, to), v)
    if v.op == 'b':
        return mkphi([(v, I(1)), (bnot(v), I(0))])
    if v.op == 'discr':
        return v
    if v.op == 'char':
        return I(ord(v.a[0]))
    wf, wt = WIDTH.get(frm, 0), WIDTH.get(to, 0)
    su = frm[:1] == 'i'
    tu = to[:1] == 'i'
    if v.op == 'int':
        n = v.a[0]
        n &= (1 << wt) - 1
        if tu and n >> (wt - 1):
            n -= 1 << wt
        return I(n)
    if not su:
        mark_unsigned(v)
    if wt > wf and (not su or tu):
        return v
    if wt == wf and su == tu:
        return v
    if wt >= wf and nonneg(v) and not su:
        return v if wt > wf or not tu else mk('cast', to, v)
    r = mk('cast', to, v)
    return r


def cofactor(f, a, val):
    """f with the atom(s) of the literal a fixed"""
    c = a if val else bnot(a)
    return constrain(f, c) if band(f, c) is not FALSE else FALSE


def cmp_test(x, vn):
    pairs = x.a[0]
    if len(pairs) == 1:
        a, b = pairs[0]
        if vn == 'Equal':
            return eq(a, b)
        num = {'int', 'lin', 'agg', 'idx', 'len', 'mul', 'div', 'cast', 'max', 'min'}
        if nonneg(a) or nonneg(b) or a.op in num or b.op in num:
            return lt(a, b) if vn == 'Less' else lt(b, a)
    return is_variant(x, 'Ordering', vn)


def _fv_of_seg(st, e):
    return tm._fv_seg(st, e)


def as_cat(t):
    return t.a[0] if t.op == 'cat' else (((), mk('str', t)),)


def joined(alts, mu, st):
    """text appended by a loop that writes a separator before every element but the first"""
    if len(alts) != 2:
        return None
    for (g, a), (h, b) in (alts, alts[::-1]):
        if g not in (le(idx_of(st), I(0)), eq(idx_of(st), I(0))) or a.op != 'cat' or b.op != 'cat':
            continue
        x, y = a.a[0][1:], b.a[0][1:]
        k = len(y) - len(x)
        if k > 0 and y[k:] == x and all(s2 == () and e2.op == 'lit' for s2, e2 in y[:k]):
            return mk('join', mk_seq([(st, mk_cat(x))]), mk_cat(y[:k]))
        # the separator and a literal element may have become one piece
    return None


def collect_mus(mu, after, init, out, st):
    if mu.op == 'mu':
        if after is not mu and mu not in after.fv and after.op != 'loopval':
            out[mu] = after
    elif mu.op == 'adt' and after.op == 'adt' and after.a[1] == mu.a[1]:
        for (f, m) in mu.a[2]:
            collect_mus(m, proj_any(after, f), proj_any(init, f), out, st)


def subst_mus(v, m):
    """the state the iteration that leaves the loop starts with: what the completed iterations left"""
    if v.op == 'ptr' or not m or not (v.fv & m.keys()):
        return v
    return Mapper(lambda x: m.get(x)).t(v)


def flat_mus(mods):
    out = []

    def go(v):
        if v.op == 'mu':
            out.append(v)
        elif v.op == 'adt':
            for _, x in v.a[2]:
                go(x)
    for v in mods.values():
        go(v)
    return out


def limit_of(B, st):
    """n when B is exactly 'n elements were already visited'"""
    s = BD.support(B.a[0])
    if len(s) != 1:
        return None
    at = next(iter(s))
    if at.op != 'le0':
        return None
    ix = mk('idx', norm_stages(st))
    c, d = lparts(at.a[0])
    if ix not in d:
        return None
    # B: n <= idx
    for cand in (sub(ix, at.a[0]) if d[ix] == 1 else add(ix, at.a[0]),
                 add(I(1), sub(ix, at.a[0])) if d[ix] == 1 else add(I(1), add(ix, at.a[0])),
                 add(I(-1), sub(ix, at.a[0])) if d[ix] == 1 else None):
        if cand is not None and ix not in cand.fv and B is le(cand, ix):
            return cand
    return None


def upper_bound(go, m):
    """n such that go is exactly m < n"""
    s = BD.support(go.a[0])
    if len(s) != 1:
        return None
    at = next(iter(s))
    if at.op not in ('le0',):
        return None
    c, d = lparts(at.a[0])
    if m not in d or abs(d[m]) != 1:
        return None
    for base in (sub(m, at.a[0]), add(m, at.a[0])):
        for k in (0, 1, -1):
            n = add(I(k), base)
            if m in n.fv:
                continue
            if go is lt(m, n):
                return n
    return None


def lower_bound(go, m):
    """n such that go is exactly n < m"""
    if go is lt(I(0), m) or go is bnot(eq(m, I(0))):
        return I(0)
    s = BD.support(go.a[0])
    if len(s) != 1:
        return None
    at = next(iter(s))
    if at.op != 'le0':
        return None
    c, d = lparts(at.a[0])
    if m not in d or abs(d[m]) != 1:
        return None
    for base in (sub(m, at.a[0]), add(m, at.a[0])):
        for k in (0, 1, -1):
            n = add(I(k), base)
            if m not in n.fv and go is lt(n, m):
                return n
    return None


def last(st, v):
    if v.op == 'adt':
        return adt(v.a[0], v.a[1], [(f, x if x.op in ('ptr', 'clo') else last(st, x)) for f, x in v.a[2]])
    if not (v.fv & bound_vars(st)):
        return v
    if v.op == 'cast':
        return mk('cast', v.a[0], last(st, v.a[1]))
    if v.op == 'lin':
        c, d = lparts(v)
        r = I(c)
        for x, k in d.items():
            r = add(r, mulc(k, last(st, x)))
        return r
    t = mk('last', 'last', norm_stages(st), v)
    if nonneg(v):
        mark_unsigned(t)
    return t


def idx_of(st):
    st = norm_stages(st)
    if len(st) == 1 and st[0][0] == 'for' and st[0][2].op == 'range' and st[0][2].a[0] is I(0):
        return st[0][1]
    return mk('idx', st)


def range_seg(lo, hi):
    """(stages, element) of lo..hi, unified with iteration over a collection when it is 0..len"""
    if lo is I(0):
        X = len_source(hi)
        if X is not None:
            st = X
            return st, mk('idx', norm_stages(st))
        if hi.op == 'min':
            Xs = [x for x in hi.a[0] if len_source(x) is not None]
            if len(Xs) == 1:
                r = None
                for x in hi.a[0]:
                    if x is not Xs[0]:
                        r = x if r is None else minmax('min', r, x)
                if r is not None and not (r.fv & bound_vars(len_source(Xs[0]))):
                    st = len_source(Xs[0])
                    return st + (('take', r),), mk('idx', norm_stages(st))
    R = mk('range', lo, hi)
    v = elem(R)
    if nonneg(lo):
        NONNEG.add(v)
    return (('for', v, R),), v


def len_source(n):
    if n.op == 'agg' and n.a[0] == 'count':
        return n.a[1]
    return None


def wrap_loop_cond(c, lid, n):
    """exit condition of an unbounded loop, as an opaque fact of that loop"""
    if n == 1:
        return TRUE
    return atom(mk('exit', lid, c))


def set_of(kind, seq):
    segs = []
    for st, e in as_segs(seq):
        st = tuple(st)
        while st and st[-1] in (('hash',), ('uniq',), ('rev',)):      # neither order nor repetition counts
            st = st[:-1]
        segs.append((st, e))
    if len(segs) == 1:
        st, e = segs[0]
        return mk_seq([(st + (ranked_set(e) if kind == 'BTreeSet' else (('hash',), ('uniq',))), e)])
    segs = [absorb(sg, [x for x in segs if x is not sg]) for sg in segs]
    Y = mk('whole', mk_seq(segs))
    v = elem(Y)
    return mk_seq([((('for', v, Y),) + (ranked_set(v) if kind == 'BTreeSet' else (('hash',), ('uniq',))), v)])


def given(t, c):
    """t where c is known to hold"""
    def pre(x):
        if x.op == 'phi':
            alts = [(constrain(g, c), v) for g, v in x.a[0] if band(g, c) is not FALSE]
            return mkphi(alts) if alts else x
        if x.op == 'b' and x is not TRUE and x is not FALSE:
            return FALSE if band(x, c) is FALSE else TRUE if band(bnot(x), c) is FALSE else x
        if x.op == 'seq':
            segs = []
            for st, e in x.a[0]:
                if any(g[0] == 'if' and band(g[1], c) is FALSE for g in st):
                    continue
                segs.append((tuple(g for g in st if g[0] != 'if' or band(bnot(g[1]), c) is not FALSE), e))
            return x if tuple(segs) == x.a[0] else mk_seq(segs)
        return x
    return Mapper(lambda x: None, None, pre).t(t)


def empty(t, x):
    """t without the elements of x"""
    def pre(y):
        if y.op == 'seq' and any(g[0] == 'for' and g[2] is x for st, _ in y.a[0] for g in st):
            return mk_seq([(st, e) for st, e in y.a[0] if not any(g[0] == 'for' and g[2] is x for g in st)])
        return y
    return Mapper(lambda y: None, None, pre).t(t)


def absorb(sg, others):
    """in a union of sets, leaving out of one what is in another anyway changes nothing: drop such a condition"""
    st, e = sg
    for i, x in enumerate(st):
        if x[0] != 'if':
            continue
        for at in BD.support(x[1].a[0]):
            if at.op == 'ch' and at.a[0].op == 'get':
                X, k = at.a[0].a
                out = is_variant(at.a[0], 'Option', 'None')
            elif at.op == 'has':
                X, k = at.a
                out = bnot(atom(at))
            else:
                continue
            if band(x[1], bnot(out)) is not FALSE:
                continue
            g = restrict(x[1], out)
            for st2, e2 in others:
                h = TRUE
                if at.op == 'has':
                    if unorder(mk_seq([(st2, e2)])) is not X or k is not e:
                        continue
                else:
                    st2 = [y for y in st2 if y[0] not in ('hash', 'order', 'rev')]
                    if not st2 or st2[0][0] != 'for' or st2[0][2] is not X or len(st2) > 2 or len(st2) == 2 and st2[1][0] != 'if':
                        continue
                    v = st2[0][1]
                    kv = mk('key', v)
                    e3 = replace(e2, kv, k)
                    h = replace(st2[1][1], kv, k) if len(st2) == 2 else TRUE
                    if e3 is not e or v in e3.fv or v in h.fv:
                        continue
                if band(g, bnot(h)) is FALSE:
                    rest = (('if', g),) if g is not TRUE else ()
                    return absorb((tuple(st[:i]) + rest + tuple(st[i + 1:]), e), others)
    return sg


def ranked_set(e):
    """equal elements once, in their own order"""
    return (('uniq',), ('order', mk('keys', ((e, ASC),)), False))


def map_of(init, seq):
    kind = init.a[0] if init.op == 'map0' else 'map'
    if init.op == 'map0' and seq.op == 'seq' and len(seq.a[0]) == 1:
        st, e = seq.a[0][0]
        if len(st) in (1, 2) and st[0][0] == 'for' and st[0][2].op == 'group' and all(x[0] == 'hash' for x in st[1:]) and e.op == 'adt':
            v = st[0][1]
            G = st[0][2]
            if e.a[2][0][1] is mk('key', v):
                val = replace(e.a[2][1][1], mk('key', v), tm.GKEY)
                if v not in val.fv:
                    return mk('group', kind, G.a[1], G.a[2], val)
    m = mk('mapof', kind, seq) if init.op == 'map0' else mk('mapmore', init, seq)
    MAPS.add(m)
    return m


