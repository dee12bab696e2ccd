"""What becomes of the result of each fallible call: a forward walk over the uses of the value in the MIR of the caller."""
import re

PASS = re.compile(r"(^|::)(Result::<[^>]*>::(map|map_err|and_then|inspect|inspect_err|copied|cloned|as_ref|as_mut|transpose|flatten)|Context::context|Context::with_context|Option::<[^>]*>::transpose"
                  r"|anyhow::Context::(context|with_context)|IntoIterator::into_iter|Try::from_output|From::from|Into::into)$")
PANIC = re.compile(r'(unwrap|expect|unwrap_err|expect_err|into_ok)$')
LOSE = re.compile(r"Result::<[^>]*>::(ok|err|unwrap_or|unwrap_or_else|unwrap_or_default|or|or_else|and|map_or|map_or_else|is_ok|is_err|is_ok_and|is_err_and|iter|iter_mut|into_iter)$|mem::drop$|mem::forget$")


def callee(t):
    f = t['f']
    if f[0] == 'k' and 'fn' in f[1]:
        return f[1]['fn']
    return None


def name_of(fn):
    p = fn['path']
    p = re.sub(r'std::result::|core::result::|std::option::|std::ops::|std::convert::', '', p)
    return p


def places(x, out):
    """every place mentioned in a statement or operand"""
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
            out.append(x)
        for y in x:
            places(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            places(y, out)
    return out


class Flow:
    """the fate of the value put in local `l` by block `blk`: a set of 'propagated', 'panics', 'lost:<how>', 'escapes'"""

    def __init__(s, b):
        s.b = b
        s.uses = {}
        for i in b.rpo:
            bl = b.blocks[i]
            for j, st in enumerate(bl['s']):
                if st[0] == '=':
                    for p in places(st[2], []):
                        s.uses.setdefault(p[0], []).append((i, 's', st, p))
                    if st[1][1]:
                        s.uses.setdefault(st[1][0], []).append((i, 'w', st, st[1]))
            t = bl['t']
            if isinstance(t, dict):
                for k, a in enumerate(t['args']):
                    if a[0] in ('c', 'm'):
                        s.uses.setdefault(a[1][0], []).append((i, 'a', k, a[1]))
            elif t[0] == 'switch':
                for p in places(t[1], []):
                    s.uses.setdefault(p[0], []).append((i, 'x', t, p))

    def fate(s, l, seen=None):
        seen = seen if seen is not None else set()
        if l in seen:
            return set()
        seen.add(l)
        if l == 0:
            return {'propagated'}
        out = set()
        us = s.uses.get(l, [])
        for i, k, x, p in us:
            if k == 'a':
                t = s.b.blocks[i]['t']
                fn = callee(t)
                n = name_of(fn) if fn else '?'
                if n.endswith('Try::branch'):
                    out.add('propagated')
                elif LOSE.search(n):
                    out.add('lost:' + n.split('::')[-1])
                elif PANIC.search(n) and 'Result' in n:
                    out.add('panics')
                elif PASS.search(n):
                    out |= s.fate(t['dest'][0], seen) if not t['dest'][1] else {'escapes'}
                elif n.endswith('from_residual'):
                    out.add('propagated')
                else:
                    out.add('escapes:' + n.split('::')[-1])
            elif k == 's':
                r = x[2]
                if r[0] == 'discr' or r[0] == 'discriminant':
                    out |= s.switched(i, x[1], l)
                elif p[1]:
                    # a part of the value (payload of Ok or Err) is looked at: the switch before it decides
                    continue
                elif x[1][1]:
                    out.add('escapes:stored')
                elif r[0] in ('agg', 'ref', 'use', 'cast', 'addr'):
                    out |= s.fate(x[1][0], seen)
                else:
                    out.add('escapes:' + str(r[0]))
            elif k == 'x':
                pass
        if not us:
            out.add('lost:dropped')
        return out

    def switched(s, i, dl, l):
        """switch on the discriminant of the result held in l"""
        b = s.b
        t = b.blocks[i]['t']
        if isinstance(t, dict) or t[0] != 'switch':
            return {'escapes:discriminant'}
        tg = dict((int(v), x) for v, x in t[3])
        err = tg.get(1, t[4])
        if err is None:
            return {'propagated'}
        if err not in b.reach_ret:
            return {'panics'}
        if err not in b.okable and b.okable:
            return {'propagated'}
        return {'lost:matched'}


_flows = {}


def flow(b):
    if b.id not in _flows:
        _flows[b.id] = Flow(b)
    return _flows[b.id]


def errty(ty):
    m = re.match(r'^std::result::Result<(.*)>$', ty)
    if not m:
        return 'anyhow::Error' if ty.startswith('anyhow::Result') else None
    d, last = 0, 0
    s = m.group(1)
    parts = []
    for i, c in enumerate(s):
        if c in '<([{':
            d += 1
        elif c in '>)]}' and s[i - 1] != '-':
            d -= 1
        elif c == ',' and d == 0:
            parts.append(s[last:i].strip())
            last = i + 1
    parts.append(s[last:].strip())
    return parts[-1] if len(parts) == 2 else None


TRACKED = re.compile(r'^(anyhow::Error|std::io::Error|wasmparser::BinaryReaderError|gimli::(read::)?Error|object::(read::)?Error|csv::Error|regex::Error|std::fmt::Error|<__?S as serde::Serializer>::Error)$')
# a subsection of the name section that this old wasmparser does not know is skipped on purpose
STDERR = ('std::io::Stderr', 'std::io::StderrLock<\'_>', 'std::io::StderrLock')
SKIPS = re.compile(r"NameSectionReader::<'\w+>::read$")


SKIPT = re.compile(r"^(&('\w+ )?(mut )?)?std::result::Result<wasmparser::Name<")


NAME = re.compile(r"^wasmparser::Name<")


def final(w, t):
    """what is called with the error never returns"""
    m = re.search(r'::(unwrap_or_else|map_or_else)$', name_of(callee(t)))
    if not m or len(t['args']) < 2:
        return False
    for x in t['at'][1:2]:
        if '-> !' in x:
            return True
        r = re.search(r'Closure\(([^)]*)\)', x) or re.search(r'closure@([^ }]*)', x)
        for b in w.bodies.values():
            if b.kind == 'closure' and r and (b.id == r.group(1) or b.span and r.group(1).startswith('%s:%s:' % tuple(b.span[:2]))) and not b.reach_ret:
                return True
    return False


def kept(fl, l, pr):
    """the error inside the result is moved out and given to something"""
    for _, k, x, p in fl.uses.get(l, ()):
        if k == 's' and p[1][:len(pr)] == pr and ['d', 'Err'] in p[1][len(pr):] and x[2][0] == 'use' and not x[1][1]:
            for i, k2, y, q in fl.uses.get(x[1][0], ()):
                if k2 == 'a' and fl.b.blocks[i]['t']['args'][y][0] == 'm' and not q[1]:
                    fn = callee(fl.b.blocks[i]['t'])
                    if not (fn and re.search(r'mem::(drop|forget)$', name_of(fn))):
                        return True
                if k2 == 's' and y[2][0] in ('agg', 'use') :
                    return True
        if k == 'a' and p[1]:
            return True
    return False


def defs_of(b, l):
    """callees whose result is put in local l"""
    out = []
    for i in b.rpo:
        t = b.blocks[i]['t']
        if isinstance(t, dict) and t['dest'] == [l, []]:
            fn = callee(t)
            out.append(name_of(fn) if fn else '?')
    return out


def remade(b, start):
    """the arm starting at block `start` builds an error again before it joins the other arm"""
    st, vis = [start], set()
    while st:
        x = st.pop()
        if x in vis or not b.dominates(start, x):
            continue
        vis.add(x)
        for s in b.blocks[x]['s']:
            if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][2] == 'Err':
                return True
        t = b.blocks[x]['t']
        if isinstance(t, dict):
            if errty(t['dty']):
                fn = callee(t)
                if fn and ('from_residual' in fn['path'] or 'Err' == fn['path'].split('::')[-1]):
                    return True
        st += b.succ[x]
    return False


def slips(fl, l, pr, start):
    """a path from the arm of the failure (block `start`) returns, and neither gives the error to anything nor builds another"""
    b = fl.b
    own = {l}
    ch = True
    while ch:           # locals the error itself is moved to
        ch = False
        for i in b.rpo:
            for x in b.blocks[i]['s']:
                if x[0] == '=' and x[2][0] == 'use' and x[2][1][0] == 'm' and not x[1][1] and x[1][0] not in own:
                    q = x[2][1][1]
                    if q[0] in own and (q[0] != l or not q[1] or ['d', 'Err'] in q[1]):
                        own.add(x[1][0])
                        ch = True
    own.discard(l) if pr else None
    given = lambda a: a[0] == 'm' and (a[1][0] in own or a[1][0] == l and ['d', 'Err'] in a[1][1])
    st, vis = [start], set()
    while st:
        i = st.pop()
        if i in vis:
            continue
        vis.add(i)
        stop = False
        for x in b.blocks[i]['s']:
            if x[0] == '=' and x[2][0] == 'agg':
                if x[2][1][0] == 'adt' and x[2][1][2] == 'Err' or any(isinstance(a, list) and a and a[0] == 'm' and given(a) for a in x[2][2]):
                    stop = True
            elif x[0] == '=' and x[1][0] == 0 and x[2][0] == 'use' and given(x[2][1]):
                stop = True
            elif x[0] == '=' and x[1][1] and x[2][0] == 'use' and given(x[2][1]):
                stop = True
        t = b.blocks[i]['t']
        if isinstance(t, dict):
            fn = callee(t)
            nm = name_of(fn) if fn else '?'
            if any(given(a) for a in t['args']) and not re.search(r'mem::(drop|forget)$', nm):
                stop = True
            if errty(t['dty']) and fn and ('from_residual' in fn['path'] or 'Err' == fn['path'].split('::')[-1]):
                stop = True
        if stop:
            continue
        if t == ['return'] or t == 'return':
            return True
        st += b.succ[i]
    return False


def tested(fl, dest, nm):
    """'lost' if the function goes on successfully after the test said failure, 'odd' if unclear, '' if it does not"""
    if dest[1] or not re.search(r'is_(ok|err)$', nm):
        return 'odd'
    b, l, neg, vis = fl.b, dest[0], nm.endswith('is_ok'), set()
    while l not in vis:
        vis.add(l)
        us = fl.uses.get(l, [])
        if len(us) != 1:
            return 'odd'
        i, k, x, p = us[0]
        if k == 's' and x[2][0] == 'un' and x[2][1] == 'Not' and not x[1][1]:
            neg = not neg
            l = x[1][0]
        elif k == 's' and x[2][0] == 'use' and not x[1][1]:
            l = x[1][0]
        elif k == 'x':
            t = x
            tg = dict((int(v), y) for v, y in t[3])
            err = tg.get(0 if neg else 1, t[4])
            if err is None or err not in b.reach_ret or (b.okable and err not in b.okable) or remade(b, err) or b.locals[0] == 'std::process::ExitCode':
                return ''
            return 'lost'
        else:
            return 'odd'
    return 'odd'


COUNT = {}


def losses(w):
    """-> (sites looked at, [(body, span, what)] where a tracked failure may be dropped, [(body, span, what)] not understood)"""
    n, bad, odd = 0, [], []
    for b in w.bodies.values():
        n0 = n
        if b.kind == 'promoted' or b.path.endswith('as std::ops::Drop>::drop') or b.__dict__.get('derived'):
            continue
        fl = flow(b)
        for i in b.rpo:
            bl = b.blocks[i]
            t = bl['t']
            if isinstance(t, dict) and t['to'] is not None:
                fn = callee(t)
                nm = name_of(fn) if fn else '?'
                e = errty(t['dty'])
                if e and TRACKED.match(e):
                    n += 1
                    f = fl.fate(t['dest'][0]) if not t['dest'][1] else {'escapes:stored'}
                    if f == {'lost:dropped'} and fn and (fn['targs'] or [''])[0] in STDERR:
                        continue        # nowhere left to report it
                    if 'lost:dropped' in f and len(f) == 1:
                        bad.append((b, t['sp'], 'the result of %s is dropped' % short(nm)))
                # a result, wherever it came from, given to something that forgets its error
                e = errty(re.sub(r"^&('\w+ )?(mut )?", '', t['at'][0])) if t['at'] else None
                if e and TRACKED.match(e):
                    by_value = not t['at'][0].startswith('&')
                    if LOSE.search(nm) and by_value and t['args'][0][0] in ('c', 'm'):
                        n += 1
                        if not SKIPT.match(t['at'][0]) and not any(SKIPS.search(d) for d in defs_of(b, t['args'][0][1][0])) and not final(w, t):
                            bad.append((b, t['sp'], '%s forgets the failure' % short(nm)))
                    elif nm.endswith('into_iter') and by_value:
                        bad.append((b, t['sp'], 'iterating over a result skips the failure'))
                    elif LOSE.search(nm):
                        # is_ok / is_err: fine when the result itself is passed on as well
                        l = t['args'][0][1][0] if t['args'][0][0] in ('c', 'm') else None
                        base = [p[0] for s in bl['s'] if s[0] == '=' and s[1] == [l, []] and s[2][0] == 'ref' for p in places(s[2], [])]
                        f = fl.fate(base[0]) if base else {'?'}
                        if f <= {'lost:is_ok', 'lost:is_err', 'lost:is_ok_and', 'lost:is_err_and', 'escapes:as_ref'} and not any(SKIPS.search(d) for d in defs_of(b, base[0])):
                            v = tested(fl, t['dest'], nm)
                            if v:
                                (bad if v == 'lost' else odd).append((b, t['sp'], 'a failure is only tested with %s and not passed on' % short(nm)))
                # forgetting passed as a function: filter_map(Result::ok), flatten over results
                for a in t['args']:
                    if a[0] == 'k' and 'fn' in a[1]:
                        q = name_of(a[1]['fn'])
                        m = [x for x in a[1]['fn']['targs'] if isinstance(x, str) and TRACKED.match(x)]
                        if any(isinstance(x, str) and NAME.match(x) for x in a[1]['fn']['targs']):
                            continue        # Result<wasmparser::Name, _>: an unknown name subsection, as above
                        if m and re.search(r'Result::<[^>]*>::(ok|unwrap_or_default|is_ok|is_err|err)$', q):
                            bad.append((b, t['sp'], '%s forgets the failures' % short(q)))
                if re.search(r'Iterator::(flatten|flat_map)$', nm) and fn:
                    for x in fn['targs']:
                        if isinstance(x, str) and any(errty(r) and TRACKED.match(errty(r)) and not SKIPT.match(r) for r in results_in(x)):
                            odd.append((b, t['sp'], '%s over results' % short(nm)))
            for s in bl['s']:
                if s[0] == '=' and s[2][0] == 'discr' and len(s[2]) > 2 and isinstance(s[2][2], str):
                    e = errty(re.sub(r"^&('\w+ )?(mut )?", '', s[2][2]))
                    if not e or not TRACKED.match(e):
                        continue
                    n += 1
                    l, pr = s[2][1]
                    if pr and pr[0] == ['*'] or SKIPT.match(s[2][2]) or any(SKIPS.search(d) for d in defs_of(b, l)):
                        continue
                    if t and not isinstance(t, dict) and t[0] == 'switch':
                        tg = dict((int(v), x) for v, x in t[3])
                        err = tg.get(1, t[4])
                        if err is None or err not in b.reach_ret or (b.okable and err not in b.okable) or b.locals[0] == 'std::process::ExitCode':
                            continue
                        if remade(b, err) or not pr and 'propagated' in fl.fate(l):
                            if slips(fl, l, pr, err):
                                (bad if not pr else odd).append((b, s[3], 'a failure is matched and passed on along some paths only'))
                            continue
                        (odd if kept(fl, l, pr) else bad).append((b, s[3], 'a failure is matched and not passed on'))
                    else:
                        odd.append((b, s[3], 'a failure is looked at in a way not understood'))
        if n > n0:
            COUNT[b.id] = n - n0
    return n, bad, odd


def results_in(ty):
    out = []
    for m in re.finditer(r'std::result::Result<', ty):
        d = 0
        for j in range(m.end() - 1, len(ty)):
            if ty[j] == '<':
                d += 1
            elif ty[j] == '>' and ty[j - 1] != '-':
                d -= 1
                if d == 0:
                    out.append(ty[m.start():j + 1])
                    break
    return out


def short(n):
    return '::'.join(re.sub(r'<[^<>]*>', '', n).replace('::::', '::').split('::')[-2:])


def sites(w):
    for b in w.bodies.values():
        fl = None
        for i in b.rpo:
            t = b.blocks[i]['t']
            if not isinstance(t, dict) or t['to'] is None:
                continue
            e = errty(t['dty'])
            if e is None:
                continue
            fl = fl or Flow(b)
            fn = callee(t)
            yield b, i, t, fn, e, (fl.fate(t['dest'][0]) if not t['dest'][1] else {'escapes:stored'})


# ---- buffered writers are flushed where their failure can still be reported
BUF = re.compile(r"^(csv::Writer|std::io::BufWriter|std::io::LineWriter)<")
REFBUF = re.compile(r"^&('\w+ )?mut (csv::Writer|std::io::BufWriter|std::io::LineWriter)<")


class Buffers:
    def __init__(s, w):
        s.w = w
        s.sum = {}      # (body id, local) -> out state given clean / dirty
        s.bad, s.odd, s.n = [], [], 0

    def aliases(s, b, l):
        al = {l}
        ch = True
        while ch:
            ch = False
            for i in b.rpo:
                for st in b.blocks[i]['s']:
                    if st[0] == '=' and st[2][0] in ('ref', 'use', 'addr', 'cast') and not st[1][1] and st[1][0] not in al:
                        ps = [p for p in places(st[2], []) if p[0] in al and all(e == ['*'] for e in p[1])]
                        if ps:
                            al.add(st[1][0])
                            ch = True
        return al

    def run(s, b, l, start, state, report=False):
        """-> state at the successful returns ('clean' | 'dirty' | 'gone' | 'odd'); starts in block `start`"""
        al = s.aliases(b, l)
        inn = {start: {state}}
        work = [start]
        out = set()
        while work:
            i = work.pop()
            st = set(inn[i])
            bl = b.blocks[i]
            for x in bl['s']:
                if x[0] == '=' and x[2][0] == 'agg' and any(p[0] in al for p in places(x[2], [])):
                    st = {'odd'}
            t = bl['t']
            if isinstance(t, dict):
                ks = [k for k, a in enumerate(t['args']) if a[0] in ('c', 'm') and a[1][0] in al and not a[1][1]]
                if ks:
                    fn = callee(t)
                    nm = name_of(fn) if fn else '?'
                    ty = t['at'][ks[0]]
                    if re.search(r'(^|::)(flush|into_inner)$', nm):
                        st = {'clean' if 'into_inner' not in nm else 'gone'}
                    elif not ty.startswith('&'):
                        st = {'gone'} if not re.search(r'mem::(drop|forget)$', nm) else st
                    elif re.search(r'(get_ref|get_mut|as_ref|has_headers|buffer|capacity)$', nm):
                        pass
                    else:
                        cb = s.w.bodies.get(fn['id']) if fn else None
                        cb = cb or (s.w.bodies.get((fn.get('res') or {}).get('id')) if fn and isinstance(fn.get('res'), dict) else None)
                        if cb is None:
                            st = {'odd'} if fn and fn['path'].startswith('twiggy') else {'dirty'}
                        else:
                            st = {y for x in st for y in ({x} if x in ('gone', 'odd') else s.summary(cb, ks[0] + 1, x))}
            if t == ['return'] or t == 'return':
                out |= st
                continue
            for x in b.succ[i]:
                if b.okable and x not in b.okable:
                    continue
                o = inn.get(x, set())
                if not st <= o or x not in inn:
                    inn[x] = o | st
                    work.append(x)
        return out

    def summary(s, b, l, x):
        k = (b.id, l, x)
        if k in s.sum:
            return s.sum[k]
        s.sum[k] = set()
        while True:
            r = s.run(b, l, b.rpo[0], x)
            if r <= s.sum[k]:
                return s.sum[k]
            s.sum[k] = s.sum[k] | r

    def all(s):
        for b in s.w.bodies.values():
            if b.kind == 'promoted':
                continue
            for i in b.rpo:
                t = b.blocks[i]['t']
                if isinstance(t, dict) and t['to'] is not None and not t['dest'][1] and BUF.match(t['dty']):
                    s.n += 1
                    r = s.run(b, t['dest'][0], t['to'], 'clean') if t['to'] in b.okable or not b.okable else set()
                    if 'dirty' in r:
                        s.bad.append((b, t['sp'], 'what the buffered writer still holds is written when it is dropped, where a failure is lost'))
                    elif 'odd' in r:
                        s.odd.append((b, t['sp'], 'use of the buffered writer not understood'))
                    else:
                        yield b
