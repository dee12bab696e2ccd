"""the output layers: JSON writer (P19) and text table (P20)"""
import json
import unicodedata
from .common import *
import terms as tm
from ev import idx_of

W = mk('param', '@w')


class Odd(Exception):
    """code outside what this rule can decide"""


# ------------------------------------------------------------------ JSON
def jbody(w, name):
    bs = [b for b in w.bodies.values() if b.crate == ANALYZE and b.kind == 'fn' and re.sub(r"'\w+", "'_", b.path) == name]
    if len(bs) != 1:
        raise Missing('%s (%d found)' % (name, len(bs)))
    return bs[0]


def pieces(sm, sink=W):
    """what a call writes to `sink`, in order: (stages, literal | shown value | value written by its own JSON impl)"""
    out = []

    def go(st, e):
        st = tm.norm_stages(st)
        if tm.dead(st):
            return
        if e.op == 'cat':
            for s2, e2 in e.a[0]:
                go(st + s2, e2)
        elif e.op == 'str' and e.a[0].op in ('cat', 'phi'):
            go(st, e.a[0])
        elif e.op == 'show' and e.a[1] == '{}' and e.a[0].op in ('cat', 'phi'):
            go(st, e.a[0])
        elif e.op == 'phi':
            for g, v in e.a[0]:
                go(st + (('if', g),), v if v.op in ('cat', 'phi') else mk('str', v))
        elif e.op == 'lit':
            if out and out[-1][0] == st and out[-1][1].op == 'lit':
                out[-1] = (st, mk('lit', out[-1][1].a[0] + e.a[0]))
            elif e.a[0]:
                out.append((st, e))
        elif e.op == 'str' and e.a[0].op == 'bytes':
            v = e.a[0].a[0]
            go(st, mk('lit', v.decode('utf8', 'replace') if isinstance(v, bytes) else v))
        elif e.op == 'str':
            out.append((st, mk('show', e.a[0], '{}')))
        elif e.op == 'show':
            out.append((st, e))
        else:
            raise Odd('writes %s' % show(e)[:80])
    for e in sm.effects:
        if e.kind == 'write':
            if e.args[0] is not sink:
                raise Odd('writes to %s' % show(e.args[0])[:80])
            v = e.args[1]
            go(e.stages, v if v.op in ('cat', 'phi') else mk('str', v))
        elif e.kind == 'ext':
            n = show(e.args[0])
            if 'json_primitive' in n and e.args[-1] is sink:
                out.append((tm.norm_stages(e.stages), mk('prim', e.args[1])))
            elif contains(e.args, sink):
                raise Odd('hands the writer to %s' % n)
        elif e.kind == 'panic':
            raise Odd('may stop the program')
    return out


def contains(args, x):
    hit = []
    for a in args:
        walk(a, lambda y: hit.append(1) if y is x else None)
    return bool(hit)


SPEC = re.compile(r'^\{(?::(?:f([0-9a-f]{8}))?(\d+)?(\?|x|X)?)?\}$')


def render(c, spec):
    """text of formatting value c (an int code point for chars, written as the char with {})"""
    m = SPEC.match(spec)
    if not m or m.group(3) == '?':
        raise Odd('format %s' % spec)
    fl, wd, ty = m.groups()
    if ty is None and not fl:
        if wd:
            raise Odd('format %s' % spec)
        return chr(c)
    t = '%x' % c if ty == 'x' else '%X' % c if ty == 'X' else '%d' % c
    if fl:
        f = int(fl, 16)
        if f & ~(0x1fffff | 0x01000000 | 0x69000000):
            raise Odd('format %s' % spec)
        zero = f & 0x01000000
    else:
        zero = 0
    if wd:
        t = t.rjust(int(wd), '0' if zero else ' ')
    return t


CLASS = {'is_control': lambda c: unicodedata.category(chr(c)) == 'Cc', 'is_ascii': lambda c: c < 128,
         'is_ascii_control': lambda c: c < 32 or c == 127, 'is_ascii_graphic': lambda c: 33 <= c <= 126,
         'is_ascii_alphanumeric': lambda c: c < 128 and chr(c).isalnum(), 'is_ascii_punctuation': lambda c: 33 <= c < 127 and not chr(c).isalnum(),
         'is_ascii_whitespace': lambda c: c in (9, 10, 12, 13, 32)}


def at_char(t, el, c):
    """t for the character c"""
    def leaf(x):
        if x is el:
            return I(c)
        if x.op == 'char':
            return I(ord(x.a[0]))
        if x.op == 'truth' and x.a[0].op == 'ext' and len(x.a[0].a) > 1 and x.a[0].a[1] == (el,):
            m = str(x.a[0].a[0]).split('::')[-1]
            if m in CLASS:
                return TRUE if CLASS[m](c) else FALSE
        return None
    return Mapper(leaf).t(t)


def reps(ts):
    """a representative of every interval of characters the guards can tell apart"""
    ks = set(range(0, 0x101))
    for k in (0x7ff, 0x800, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff):
        ks.add(k)
    for t in ts:
        def f(x):
            if x.op == 'int':
                v = abs(x.a[0])
            elif x.op == 'char':
                v = ord(x.a[0])
            else:
                return
            ks.update((v - 2, v - 1, v, v + 1, v + 2))
        walk(t, f)
    return sorted(k for k in ks if 0 <= k <= 0x10ffff and not 0xd800 <= k <= 0xdfff)


def known(g, el, c):
    v = at_char(g, el, c)
    if v is TRUE or v is FALSE:
        return v is TRUE
    raise Odd('choice on %s' % show(g)[:120])


def string_ok(ps, n):
    """`ps` is the JSON text of the string n: None, or what is wrong with it"""
    if not ps or ps[0][0] != () or ps[0][1].op != 'lit' or not ps[0][1].a[0].startswith('"'):
        return 'the text of a string does not start with a quote'
    if ps[-1][0] != () or ps[-1][1].op != 'lit' or not ps[-1][1].a[0].endswith('"') or len(ps) < 2:
        return 'the text of a string does not end with a quote'
    if ps[0][1].a[0] != '"' or ps[-1][1].a[0] != '"':
        raise Odd('other text inside the quotes')
    mid = ps[1:-1]
    if not mid:
        return 'the characters of the string are not written'
    dom = None
    for st, e in mid:
        if not st and e.op == 'show' and e.a[0] is n and e.a[1] == '{}':
            return 'the string is written without escaping: a quote, backslash or control character in it breaks the document'
        if not st or st[0][0] != 'for':
            raise Odd('text not written character by character')
        if dom is None:
            dom = st[0]
        if st[0] != dom or any(s[0] != 'if' for s in st[1:]):
            raise Odd('more than one loop')
    el, src = dom[1], dom[2]
    if not (src.op in ('chars', 'ext') and contains([src], n)):
        raise Odd('loop over %s' % show(src)[:80])
    if src.op != 'chars' or src.a[0] is not n:
        raise Odd('loop over %s' % show(src)[:80])
    gs = [s[1] for st, e in mid for s in st[1:]]
    for c in reps(gs):
        out = ''
        for st, e in mid:
            if all(known(s[1], el, c) for s in st[1:]):
                if e.op == 'lit':
                    out += e.a[0]
                elif e.op == 'show' and e.a[0] is el:
                    out += render(c, e.a[1])
                else:
                    raise Odd('writes %s' % show(e)[:80])
        try:
            back = json.loads('"' + out + '"')
        except ValueError:
            back = None
        if back != chr(c):
            return 'character U+%04X is written as %s, which a JSON reader does not read back as that character' % (c, json.dumps(out))
    return None


KIND = {'array': ('Array', '[', ']'), 'object': ('Object', '{', '}')}


def opened(c, w, kind, sink=W):
    b = jbody(w, 'formats::json::' + kind)
    sm = evaluate(w, b, [sink])
    c.seen(sm)
    st = okval(sm.ret)
    return b, sm, st


def okval(t):
    """value of the Ok result"""
    if t.op == 'adt' and t.a[1] == 'Ok':
        return t.a[2][0][1]
    if t.op == 'phi':
        ok = [v for g, v in t.a[0] if v.op == 'adt' and v.a[1] == 'Ok']
        rest = [v for g, v in t.a[0] if not (v.op == 'adt' and v.a[1] in ('Ok', 'Err'))]
        if len(ok) == 1 and not rest:
            return ok[0].a[2][0][1]
    return None


def split(ps, first):
    """drop the separator in front; None if it is not as required for the first / a later element"""
    if first:
        return ps
    if ps and ps[0][0] == () and ps[0][1].op == 'lit' and ps[0][1].a[0].startswith(','):
        t = ps[0][1].a[0][1:]
        return ([((), mk('lit', t))] if t else []) + ps[1:]
    return None


def merge(ps):
    out = []
    for st, e in ps:
        if out and e.op == 'lit' and out[-1][1].op == 'lit' and out[-1][0] == st:
            out[-1] = (st, mk('lit', out[-1][1].a[0] + e.a[0]))
        else:
            out.append((st, e))
    return out


def cut(ps, n):
    """split an object member into the text of its name and what follows the colon"""
    for i, (st, e) in enumerate(ps):
        if i and st == () and e.op == 'lit' and e.a[0].startswith('":'):
            t = e.a[0][2:]
            return ps[:i] + [((), mk('lit', '"'))], ([((), mk('lit', t))] if t else []) + ps[i + 1:]
    return None, None


def starts(ps):
    """text written first, whatever the choices"""
    return ps[0][1].a[0] if ps and ps[0][0] == () and ps[0][1].op == 'lit' else ''


def one_call(c, w, kind, meth, state, first, sink=W):
    """one call of a method on a writer in `state`: problem text or None, and the state afterwards"""
    ty, op, cl = KIND[kind]
    b = jbody(w, "formats::json::%s::<'_>::%s" % (ty, meth))
    n, x = mk('param', 'n'), mk('param', 'x')
    args = [state] + ([n] if kind == 'object' else []) + ([x] if meth in ('elem', 'field') else [])
    sm = evaluate(w, b, args, cells=(0,))
    c.seen(sm)
    ps = merge(pieces(sm, sink))
    body = split(ps, first)
    if body is None:
        return b, 'no comma between two elements', sm.out[0]
    if starts(body).startswith(','):
        return b, ('a comma in front of the first element' if first else 'two commas between elements'), sm.out[0]
    if kind == 'object':
        nm, body = cut(body, n)
        if nm is None:
            if body is None and not any(e.op == 'show' and e.a[0] is n or st and contains([st[0][2]] if st[0][0] == 'for' else [], n) for st, e in ps):
                return b, 'the name of the member is not written', sm.out[0]
            return b, 'no colon between the name of a member and its value', sm.out[0]
        why = string_ok(nm, n)
        if why:
            return b, 'name of a member: ' + why, sm.out[0]
    if meth in ('elem', 'field'):
        if [e for st, e in body] != [mk('prim', x)] or body[0][0] != ():
            return b, 'the value is not written exactly once: ' + ' '.join(show(e) for st, e in body)[:120], sm.out[0]
    else:
        _, sub, want = opened(c, w, meth, sink)
        wp = merge(pieces(sub, sink))
        if [(st, e) for st, e in body] != wp:
            return b, 'opening a nested %s writes %s' % (meth, ' '.join(show(e) for st, e in body)[:120]), sm.out[0]
        got = okval(sm.ret)
        if got is None:
            raise Odd('result ' + show(sm.ret)[:100])
        if got is not want:
            return b, 'a nested %s does not start like a top-level one: %s' % (meth, show(got)[:120]), sm.out[0]
    return b, None, sm.out[0]


def widen(t):
    """a counter in the state becomes any positive number"""
    ints = []
    walk(t, lambda x: ints.append(x) if x.op == 'int' else None)
    if len(set(ints)) != 1:
        return None
    k = mk('param', 'count')
    tm.NONNEG.add(k)
    return replace(t, ints[0], lin_add(k, I(1)))


def lin_add(a, b):
    return tm.add(a, b)


METHODS = {'array': ('elem', 'array', 'object'), 'object': ('field', 'array', 'object')}


@prop('P19', 'value-flow of the JSON writer: text written by each call in every reachable writer state, escape table decided on every class of characters', floor=20)
def json_writer(c):
    w = c.world('cli')
    for kind in ('array', 'object'):
        ty, op, cl = KIND[kind]

        def go():
            b, sm, s0 = opened(c, w, kind)
            at = loc(w, b)
            ps = merge(pieces(sm))
            c.true(kind + '.open', at, ps == [((), mk('lit', op))], 'opening writes %s' % ' '.join(show(e) for st, e in ps)[:120])
            if s0 is None:
                return c.undecided(kind + '.state', at, 'result ' + show(sm.ret)[:100])
            states = [(s0, True)]
            done = set()
            k = 0
            while states and k < 12:
                st, first = states.pop(0)
                if (st, first) in done:
                    continue
                done.add((st, first))
                k += 1
                for m in METHODS[kind]:
                    oid = '%s.%s.%s' % (kind, m, 'first' if first else 'later%d' % k)
                    try:
                        mb, why, nx = one_call(c, w, kind, m, st, first)
                    except Odd as e:
                        c.undecided(oid, kind + '.' + m, str(e))
                        continue
                    c.true(oid, loc(w, mb), why is None, '%s::%s on a writer with %s: %s' % (ty, m, 'no element yet' if first else 'elements', why))
                    if (nx, False) not in done:
                        # after widening the next state is again a positive counter
                        if any(x.op == 'param' and x.a[0] == 'count' for x in leaves(nx)):
                            continue
                        if len(done) >= 2 and not first:
                            wd = widen(nx)
                            if wd is None:
                                c.undecided(oid + '.state', loc(w, mb), 'the writer keeps more state than a flag or a counter')
                                continue
                            nx = wd
                        states.append((nx, False))
                db = impl_fn(w, 'Drop', ty, 'drop')
                dm = evaluate(w, db, [st], cells=(0,))
                c.seen(dm)
                try:
                    dp = merge(pieces(dm))
                    c.true('%s.close.%s' % (kind, 'first' if first else 'later%d' % k), loc(w, db), dp == [((), mk('lit', cl))],
                           'closing writes %s' % ' '.join(show(e) for _, e in dp)[:120])
                except Odd as e:
                    c.undecided('%s.close' % kind, loc(w, db), str(e))
        try:
            go()
        except Odd as e:
            c.undecided(kind, 'formats::json::' + kind, str(e))
    prims(c, w)
    forgets(c, w)


def leaves(t):
    out = []
    walk(t, out.append)
    return out


def prims(c, w):
    seen = 0
    for cr, im in w.impls:
        if not (im['trait'] and im['trait'].split('::')[-1].split('<')[0] == 'JsonPrimitive'):
            continue
        ty = im['self']
        for it in im['items']:
            if it[0] != 'json_primitive' or it[1] not in w.bodies:
                continue
            b = w.bodies[it[1]]
            seen += 1
            x = mk('param', 's')
            sm = evaluate(w, b, [x, W])
            c.seen(sm)
            oid = 'value.' + ty
            at = loc(w, b)
            jt = rl.json_type(ty)
            try:
                ps = merge(pieces(sm))
                if jt == 'string':
                    why = string_ok(ps, x)
                elif jt == 'number':
                    if len(ps) == 1 and ps[0][0] == () and ps[0][1].op == 'show' and ps[0][1].a[0] is x:
                        sp = ps[0][1].a[1]
                        if sp == '{}':
                            why = None
                        elif re.search(r'\.|x|X|\+', sp):
                            why = 'a number is written with %s, which does not read back as the same number' % sp
                        else:
                            raise Odd('format ' + sp)
                    elif len(ps) == 1 and contains_op(ps[0][1], ('round32',)):
                        why = 'a number is rounded to single precision'
                    elif any(e.op == 'lit' and st == () for st, e in ps):
                        why = 'a number is written with other text: ' + ' '.join(show(e) for st, e in ps)[:120]
                    else:
                        raise Odd('writes ' + ' '.join(show(e) for st, e in ps)[:120])
                else:
                    raise Odd('a value of type ' + ty)
                c.true(oid, at, why is None, '%s: %s' % (ty, why))
            except Odd as e:
                c.undecided(oid, at, str(e))
    c.true('values', 'JsonPrimitive', seen >= 3, 'only %d kinds of values can be written' % seen)


FORGET = re.compile(r'(^|::)(mem::forget|ManuallyDrop|Box::<.*>::leak|Box::leak|process::abort)')


def forgets(c, w):
    """nothing keeps a writer from being closed: dropping is never suppressed in the analyses"""
    n = 0
    bad = []
    for b in w.bodies.values():
        if b.crate != ANALYZE or b.kind == 'promoted':
            continue
        for bl in b.blocks:
            t = bl['t']
            if isinstance(t, dict) and t.get('t') == 'call':
                n += 1
                f = t['f'][1].get('fn') if t['f'][0] == 'k' else None
                p = (f or {}).get('path', '')
                if FORGET.search(p) and 'json' in ' '.join(map(str, t.get('at', []))) + p:
                    bad.append((b, t['sp'], p))
    c.add('no-forget', '%d calls' % n, 'violation' if bad else 'ok', '; '.join('%s calls %s' % (b.path, p) for b, sp, p in bad), fp='forget' if bad else '')


# ------------------------------------------------------------------ table
HD, ROWS = mk('param', 'hd'), mk('param', 'rows')
HEAD, ROW = mk('param', 'this column'), mk('param', 'this row')
K = mk('param', 'column number')
F = mk('param', '@f')
tm.NONNEG.add(K)


class Cols:
    """rewrites a loop over the columns, whatever it iterates, as a loop over the header"""
    def __init__(s, row=None):
        s.m = {}
        s.row = row

    def t(s, x):
        for _ in range(8):
            y = Mapper(s.leaf).t(x)
            if y is x:
                return y
            x = y
        return x

    def leaf(s, x):
        if x in s.m:
            return s.m[x]
        if x is num(HD):
            return x
        if x.op == 'index' and (x.a[1] is K or s.t(x.a[1]) is K):
            if x.a[0].op == 'elem' and x.a[1] is not K:
                return s.element(x.a[0]) or cell(x.a[0])
            return s.element(x.a[0])
        return None

    def element(s, src):
        """the element of `src` in the current column, when src has one per column"""
        if src is HD:
            return HEAD
        if s.row is not None and src is s.row:
            return cell(s.row)
        if src.op == 'loopval':
            r = s.colmax(src)
            return r
        if src.op == 'seq' and len(src.a[0]) == 1 and len(src.a[0][0][0]) == 1 and src.a[0][0][0][0][0] == 'for':
            st, e = src.a[0][0]
            sub = Cols(s.row)
            return sub.t(e) if sub.stage(st[0]) else None
        if src.op == 'range' and is_int(src.a[0], 0) and src.a[1] is num(HD):
            return K
        return None

    def stage(s, st):
        """a loop over the columns: record what its element and its index are"""
        kind, el, src = st
        if kind != 'for':
            return False
        if src.op == 'zip':
            xs = [s.element(a) for a in src.a]
            if any(x is None for x in xs):
                return False
            for i, x in enumerate(xs):
                s.m[mk('zipped', el, I(i))] = x
            s.m[proj(el, '0')], s.m[proj(el, '1')] = xs[0], xs[1]
        else:
            x = s.element(src)
            if x is None:
                return False
            s.m[el] = x
        s.m[idx_of((st,))] = K
        return True

    def colmax(s, x):
        """in-place column maxima: for row in rows: for (i, x) in row: m[i] = max(m[i], f(x))"""
        init, mu, body, st = x.a
        if st[0][0] != 'for' or st[0][2] is not ROWS or body.op != 'loopval' or body.a[0] is not mu:
            return None
        if any(is_for((sg,)) or contains([y for y in sg if isinstance(y, T)], mu) for sg in st[1:]):
            return None
        _, mu2, put, st2 = body.a
        if put.op == 'phi':
            ps = [v for g, v in put.a[0] if v.op == 'ixput']
            if len(ps) != 1 or any(v is not mu2 and v is not ps[0] for g, v in put.a[0]):
                return None
            ix = ps[0].a[1]
            put = mk('ixput', mu2, ix, mkphi([(g, mk('index', mu2, ix) if v is mu2 else v.a[2]) for g, v in put.a[0]]))
        if len(st2) != 1 or put.op != 'ixput' or put.a[0] is not mu2:
            return None
        sub = Cols(st[0][1])
        if not sub.stage(st2[0]) or sub.t(put.a[1]) is not K:
            return None
        i = s.element(init)
        if i is None:
            return None
        v = sub.t(put.a[2])
        own = [y for y in leaves(v) if y.op == 'index' and y.a[0] is mu2]
        if not own:
            return mk('ofthelastrow', i, v)
        if any(sub.t(y.a[1]) is not K for y in own) or v.op not in ('max', 'min'):
            return None
        vs = list(v.a[0])
        rest = [y for y in vs if not (y.op == 'index' and y.a[0] is mu2)]
        if len(rest) != len(vs) - 1 or any(contains([y], mu2) for y in rest):
            return None
        for y in rest:
            i = minmax(v.op, i, tm.agg_minmax(v.op, st, y))
        return i


def cell(row):
    """the cell of a row in the current column"""
    return mk('index', row, K)


def is_int(t, v):
    return t.op == 'int' and t.a[0] == v


def spread(ps):
    """a joined list as its entries, each but the first after the separator"""
    for st, e in ps:
        j = e.a[0] if e.op == 'str' or e.op == 'show' and e.a[1] == '{}' else e
        if j.op == 'join' and j.a[0].op == 'seq' and len(j.a[0].a[0]) == 1 and is_for(j.a[0].a[0][0][0]):
            s2, x = j.a[0].a[0][0]
            if len(s2) == 1:
                for s3, sep in as_pieces(j.a[1]):
                    yield st + s2 + (('skip', I(1)),) + s3, sep
                for s3, y in as_pieces(x):
                    yield st + s2 + s3, y
                continue
        yield st, e


def as_pieces(x):
    return x.a[0] if x.op == 'cat' else [((), mk('show', x, '{}'))]


def ends(gs):
    """text before the first and after the last column, as part of these columns"""
    for i, g in enumerate(gs):
        if g[0] is not None or g[1].op != 'lit' or g[1].a[0].count('\n') > 1 or g[1].a[0] == '\n':
            continue
        a, nl, b = g[1].a[0].partition('\n')
        if not nl:
            a, b = '', a
        if a and not (i and gs[i - 1][0] is not None) or b and not (i + 1 < len(gs) and gs[i + 1][0] is not None):
            continue
        if a:
            gs[i - 1][1].append(((('skip', sub(num(HD), I(1))),), mk('lit', a)))
        if b:
            gs[i + 1][1].insert(0, ((('take', I(1)),), mk('lit', b)))
        gs[i] = (None, mk('lit', nl))
    return [g for g in gs if g[0] is not None or g[1].op != 'lit' or g[1].a[0]]


def groups(ps):
    """[(None, piece) | (stage, pieces without that stage)]"""
    out = []
    for st, e in spread(ps):
        if st and st[0][0] == 'for':
            if out and out[-1][0] == st[0]:
                out[-1][1].append((st[1:], e))
            else:
                out.append((st[0], [(st[1:], e)]))
        elif not st:
            if out and out[-1][0] is None and e.op == 'lit' and out[-1][1].op == 'lit':
                out[-1] = (None, mk('lit', out[-1][1].a[0] + e.a[0]))
            else:
                out.append((None, e))
        else:
            raise Odd('text written on a condition: %s' % show(st[0][1])[:100])
    return ends(out)


CASES = [(n, k) for n in range(1, 6) for k in range(n)]
LEFT, RIGHT = [adt('twiggy_analyze::formats::table::Align', a, []) for a in ('Left', 'Right')]


def kind(t, n, k, align):
    """t for column k of n"""
    return replace(replace(replace(t, num(HD), I(n)), K, I(k)), proj(HEAD, '0'), align)


def column(g, row, align):
    """text of one column per kind of column: [(case, [parts])]"""
    st, ps = g
    c = Cols(row)
    if not c.stage(st):
        raise Odd('loop over %s' % show(st[2])[:160])
    rs = []
    for s2, e in ps:
        gs = []
        rep = None
        for x in s2:
            if x[0] == 'if':
                gs.append(c.t(x[1]))
            elif x[0] == 'take' and c.t(x[1]) is num(HD) and rep is None:
                pass
            elif x[0] in ('take', 'skip') and rep is None and x is s2[0]:
                b = le0(sub(K, sub(c.t(x[1]), I(1))))
                gs.append(b if x[0] == 'take' else bnot(b))
            elif x[0] == 'for' and x[2].op == 'range' and rep is None and not contains([e], x[1]):
                rep = c.t(sub(x[2].a[1], x[2].a[0]))
            else:
                raise Odd('stage %s' % show(mk_seq([((x,), e)]))[:120])
        rs.append((gs, rep, c.t(e)))
    out = []
    for n, k in CASES:
        def at(t):
            return kind(t, n, k, align)
        parts = []
        for gs, rep, e in rs:
            vs = [at(x) for x in gs]
            if any(v not in (TRUE, FALSE) for v in vs):
                raise Odd('choice on %s' % show([v for v in vs if v not in (TRUE, FALSE)][0])[:120])
            if all(v is TRUE for v in vs):
                e2 = at(e)
                if rep is None and e2.op == 'show' and e2.a[1] == '{}' and e2.a[0].op == 'strrepeat':
                    x, r = e2.a[0].a
                    if x.op == 'cat' and len(x.a[0]) == 1 and x.a[0][0][0] == () and x.a[0][0][1].op == 'lit':
                        parts.append(('rep', r, x.a[0][0][1]))
                        continue
                if e2.op == 'show' and '$' in e2.a[1]:
                    raise Odd('format %s' % e2.a[1])
                if rep is not None:
                    if e2.op != 'lit' and e2.op != 'show':
                        raise Odd('repeats %s' % show(e2)[:80])
                    r2 = at(rep)
                    parts.append(('rep', r2, e2))
                elif e2.op == 'lit' and parts and parts[-1][0] == 'lit':
                    parts[-1] = ('lit', parts[-1][1] + e2.a[0])
                elif e2.op == 'lit':
                    parts.append(('lit', e2.a[0]))
                else:
                    parts.append(('val', e2))
        if any(p[0] == 'lit' and '\n' in p[1] for p in parts):
            raise Odd('line ends inside the loop over the columns')
        out.append(((n, k), parts))
    return out


def said(parts):
    return ' '.join(repr(p[1]) if p[0] == 'lit' else show(p[1]) if p[0] == 'val' else '%s times %s' % (show(p[1]), show(p[2])) for p in parts)


def sane(parts):
    """only known quantities: a difference is a difference in the text"""
    for p in parts:
        for x in p[1:]:
            if isinstance(x, T) and (unknowns(x) or contains_op(x, ('loopval', 'ext', 'opaque', 'zipped', 'mu', 'idx'))):
                raise Odd('not modelled: %s' % show(x)[:160])


NAMELEN = lambda: length(proj(HEAD, '1'))
ANYROW = elem(ROWS)
WIDTH = lambda: minmax('max', NAMELEN(), tm.agg_minmax('max', (('for', ANYROW, ROWS),), length(cell(ANYROW))))


def merge_lits(ps):
    out = []
    for p in ps:
        if p[0] == 'lit' and out and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + p[1])
        elif p != ('lit', ''):
            out.append(p)
    return out


def need_cell(n, k, sep, x, align):
    pad = ('rep', sub(WIDTH(), length(x)), mk('lit', ' '))
    val = ('val', mk('show', x, '{}'))
    head = [('lit', ' ' if k == 0 else sep)]
    if align is RIGHT:
        return head + [pad, val]
    return head + [val] + ([] if k == n - 1 else [pad])


@prop('P20', 'value-flow of the table printer: text of each kind of column, compared with the specified layout', floor=6)
def table_text(c):
    w = c.world('cli')
    a = w.adts.get('twiggy_analyze::formats::table::Table')
    if a is None:
        raise Missing('formats::table::Table')
    fs = {}
    for f in a['variants'][0]['fields']:
        n, ty = (f[0], f[1]) if isinstance(f, (list, tuple)) else (f['name'], f['ty'])
        fs[n] = HD if 'Align' in ty else ROWS if ty.count('Vec<') == 2 else None
    if sorted(x is HD for x in fs.values()) != [False, True] or None in fs.values():
        return c.undecided('table', 'formats::table::Table', 'the table keeps other data than headings and rows')
    T0 = adt('twiggy_analyze::formats::table::Table', 'Table', list(fs.items()))
    hn, rn = [[n for n in fs if fs[n] is x][0] for x in (HD, ROWS)]

    b = rl.fn(w, 'formats::table::Table::with_header', ANALYZE)
    sm = evaluate(w, b, [HD])
    c.seen(sm)
    c.same('new.header', loc(w, b), proj(sm.ret, hn), HD)
    c.same('new.rows', loc(w, b), proj(sm.ret, rn), SEQ0)
    b = rl.fn(w, 'formats::table::Table::add_row', ANALYZE)
    r = mk('param', 'r')
    sm = evaluate(w, b, [T0, r], cells=(0,))
    c.seen(sm)
    c.same('add.header', loc(w, b), proj(sm.out[0], hn), HD)
    c.same('add.rows', loc(w, b), proj(sm.out[0], rn), push(ROWS, r))

    b = impl_fn(w, 'Display', 'Table', 'fmt')
    at = loc(w, b)
    sm = evaluate(w, b, [T0, F])
    c.seen(sm)
    try:
        layout(c, at, groups(pieces(sm, F)))
    except Odd as e:
        c.undecided('text', at, str(e))


def layout(c, at, gs):
    def compare(oid, g, row, want):
        for align in (LEFT, RIGHT):
            o = '%s.%s' % (oid, align.a[1].lower())
            try:
                got = column(g, row, align)
                bad = None
                for (n, k), parts in got:
                    wp = [tuple(kind(x, n, k, align) if isinstance(x, T) else x for x in p) for p in merge_lits(want(n, k, align))]
                    if parts != wp:
                        sane(parts)
                        bad = 'column %d of %d, %s aligned\n  computed: %s\n  required: %s' % (k + 1, n, align.a[1].lower(), said(parts), said(wp))
                        break
                c.true(o, at, bad is None, bad or '')
            except Odd as e:
                c.undecided(o, at, str(e))
    shape = ['for' if g[0] is not None else g[1].a[0] if g[1].op == 'lit' else '?' for g in gs]
    if shape != ['for', '\n', 'for', '\n', 'for'] or gs[4][0][2] is not ROWS:
        if [x for x in shape if x not in ('for', '\n')] or len(shape) > 5:
            raise Odd('the lines of the table are %s' % shape)
        if shape == ['for', '\n', 'for', '\n', 'for']:
            raise Odd('rows are taken from %s' % show(gs[4][0][2])[:120])
        raise Odd('the lines of the table are %s' % shape)
    compare('header', gs[0], None, lambda n, k, al: need_cell(n, k, ' \u2502 ', proj(HEAD, '1'), LEFT))
    compare('rule', gs[2], None, lambda n, k, al: [('lit', '\u2500' if k == 0 else '\u2500\u253c\u2500'), ('rep', WIDTH(), mk('lit', '\u2500'))])
    row = gs[4][0][1]
    if [st for st, e in gs[4][1] if st and st[0][0] in ('take', 'skip')]:
        return c.true('rows', at, False, 'not every row of the table is printed')
    inner = groups(gs[4][1])
    shape = ['for' if g[0] is not None else g[1].a[0] if g[1].op == 'lit' else '?' for g in inner]
    if shape != ['for', '\n']:
        if shape == ['for']:
            c.true('row.end', at, False, 'a row does not end the line')
        else:
            raise Odd('a row is written as %s' % shape)
    else:
        c.true('row.end', at, True)
    c.true('rows', at, True)
    compare('row', inner[0], row, lambda n, k, al: need_cell(n, k, ' \u250a ', cell(row), al))
