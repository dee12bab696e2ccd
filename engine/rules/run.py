"""one run from the command line: input mode, analysis, destination, format, errors"""
import copy
from .common import *
from rl import fn, method, sym, impl_fn
from ev import int_cast, cofactor


def evaluate(*a, **k):
    sm = rl.evaluate(*a, lossy=True, **k)
    b = a[1]
    if re.match(r'(std|core)::result::Result<', str(b.locals[0])) and sm.ret.op != 'adt':
        passed_on(sm)
    return sm


def passed_on(sm):
    """a result handed back as it is: its failure is a failure of this function"""
    out, bad, gone = [], FALSE, []
    for g, v in (sm.ret.a[0] if sm.ret.op == 'phi' else ((TRUE, sm.ret),)):
        k = is_ok(v)
        n = band(g, bnot(k))
        if n is not FALSE:
            bad = bor(bad, n)
            y = v.a[2][0][1] if v.op == 'adt' and v.a[1] == 'Err' else None
            gone.append((n, is_ok(y.a[0]) if y is not None and y.op == 'proj' and y.a[1:] == ('0', 'Err') else k))
        if band(g, k) is not FALSE:
            out.append((band(g, k), v if v.op == 'adt' else Ok(proj(v, '0', 'Ok'))))
    if bad is FALSE or not out:
        return
    sm.errexits = list(sm.errexits) + [(None, (), bad, None)]
    # what is returned otherwise does not depend on the failure
    for n, k in gone:
        if k is FALSE:
            continue
        more = [(band(n, cofactor(h, k, True)), pinned(v, [(k, TRUE)])) for h, v in out]
        out = out + [(h, v) for h, v in more if h is not FALSE]
    rest = bnot(bor(*[h for h, _ in out]))
    sm.ret = mkphi(out + ([(rest, out[0][1])] if rest is not FALSE else []))


OPT = 'twiggy_opt'
MODE = 'twiggy_traits::ParseMode'
FMT = 'twiggy_traits::OutputFormat'
DST = OPT + '::OutputDestination'
KINDS = {'top': 'Top', 'dominators': 'Dominators', 'paths': 'Paths', 'monos': 'Monos', 'diff': 'Diff', 'garbage': 'Garbage'}
MAGIC = mk('seq', tuple(((), I(x)) for x in (0, 97, 115, 109)))


def opaque(n):
    """a callee kept as a named result; the effect records the call"""
    def f(s, a, info, t):
        a = [s.deep(x) for x in a]
        s.effect('call', mk('name', n), *a)
        return mk('api', n, *a)
    return f


def failing(sm):
    return bor(FALSE, *[g for _, _, g, _ in sm.errexits])


def is_ok(r):
    return is_variant(r, 'Result', 'Ok')


def errors(c, oid, at, sm, results, note):
    """the function fails exactly if one of `results` failed"""
    f = failing(sm)
    ok = band(TRUE, *[is_ok(r) for _, r in results])
    for n, r in results:
        c.true('%s.%s' % (oid, n), at, band(bnot(is_ok(r)), bnot(f)) is FALSE, '%s: a failure of %s is not passed on' % (note, n))
    left = band(f, ok)
    if left is not FALSE and unknowns(plain(left)):
        return c.undecided(oid + '.else', at, sh(left)[:300])
    c.true(oid + '.else', at, left is FALSE, '%s fails although nothing it did failed: %s' % (note, sh(left)[:300]))


def effects(sm, *skip):
    return [e for e in sm.effects if not (e.kind == 'ext' and e.args[0].a[0] in skip)]


@prop('P23', 'a run reads, analyses, opens, emits and flushes in this order with the arguments of the chosen subcommand, and passes on every failure')
def run(c):
    w = c.world()
    c.attempt('main', 'twiggy::main', lambda: main_(c, w))
    b = fn(w, 'run', 'twiggy')
    over = {}
    rd = fn(w, 'read_and_parse', 'twiggy_parser')
    over[rd.id] = opaque('read')
    for n in KINDS:
        over[entry(w, n).id] = opaque(n)
    over[method(w, OPT, 'OutputDestination', 'open').id] = opaque('open')
    for n, ty in KINDS.items():
        for fmt in FORMATS:
            c.attempt('run.%s.%s' % (n, fmt), 'twiggy::run', lambda: run_one(c, w, b, over, n, ty, fmt))


def has(t, x):
    return t is x or any(has(y, x) for y in kids(t))


def kids(t):
    if isinstance(t, T):
        if t.op == 'b':
            return list(BD.support(t.a[0]))
        return [y for y in t.a if isinstance(y, (T, tuple))]
    return [y for y in t if isinstance(y, (T, tuple))]


def run_one(c, w, b, over, n, ty, fmt):
    base = mk('param', 'cli')
    o = sym(w, OPT + '::' + ty, base, {'output_format': adt(FMT, fmt.capitalize(), [])})
    opts = adt(OPT + '::Options', ty, [('0', o)])
    get = lambda g: c.seen(evaluate(w, impl_fn(w, 'CommonCliOptions', 'Options', g), [opts])).ret
    sm = c.seen(evaluate(w, b, [opts], over))
    at = loc(w, b)
    oid = 'run.%s.%s' % (n, fmt)
    reads = [mk('api', 'read', get('input'), get('parse_mode'))]
    if n == 'diff':
        new = c.seen(evaluate(w, method(w, OPT, 'Diff', 'new_input'), [o])).ret
        reads.append(mk('api', 'read', new, get('parse_mode')))
    items = [proj(r, '0', 'Ok') for r in reads]
    res = mk('api', n, *(items + [o]))
    data = proj(res, '0', 'Ok')
    op = mk('api', 'open', get('output_destination'))
    dest = proj(op, '0', 'Ok')
    emit_ = ext('Emit::emit_' + fmt, data, items[0], dest)
    es = effects(sm)
    got = []
    odd = []
    for e in es:
        if e.kind == 'call' or e.kind == 'ext' and e.args[0].a[0] in ('Emit::emit_text', 'Emit::emit_json', 'Emit::emit_csv', 'Write::flush', 'BufWriter::flush'):
            got.append((e.args[0].a[0], e))
        elif e.kind == 'ext':
            odd.append(e.args[0].a[0])
    names = [g for g, _ in got]
    want = ['read'] * len(reads) + [n, 'open', 'Emit::emit_' + fmt, 'Write::flush']
    if odd:
        return c.undecided(oid + '.steps', at, 'calls not understood: %s' % odd[:5])
    c.true(oid + '.steps', at, names == want, 'steps are %s, not %s' % (names, want))
    if names != want:
        return
    # a step may be left out only when one before it failed
    fine = band(*[is_ok(r) for r in reads + [res, op, emit_]])
    when = lambda e: band(*[x[1] for x in e.stages]) if all(x[0] == 'if' for x in e.stages) else FALSE
    c.true(oid + '.always', at, all(e.stages == () or band(fine, bnot(when(e))) is FALSE for _, e in got), 'a step is taken only sometimes')
    rs = [e for g, e in got if g == 'read']
    for i, e in enumerate(rs):
        c.same('%s.read%d' % (oid, i), at, tup(*e.args[1:]), tup(*reads[i].a[1:]))
    rest = {g: e for g, e in got if g != 'read'}
    c.same(oid + '.analysis', at, tup(*rest[n].args[1:]), tup(*res.a[1:]))
    c.same(oid + '.open', at, rest['open'].args[1], op.a[1])
    ea = rest['Emit::emit_' + fmt].args[1:]
    c.same(oid + '.emit', at, tup(*ea), tup(data, items[0], dest))
    fa = rest['Write::flush'].args[1]
    c.true(oid + '.flush', at, has(fa, dest), 'flushes %s' % sh(fa)[:200])
    fl = [r for r in results_of(sm, 'Write::flush')]
    errors(c, oid + '.fails', at, sm, [('reading%d' % i, r) for i, r in enumerate(reads)] + [('analysis', res), ('open', op), ('emit', emit_)] + [('flush', r) for r in fl[:1]], 'run')
    c.true(oid + '.fails.flush?', at, bool(fl), 'the result of flush is never looked at')
    c.true(oid + '.ok', at, sm.ret.op == 'adt' and sm.ret.a[1] == 'Ok' or bool(fl) and sm.ret is fl[0], 'result %s' % sh(sm.ret)[:200])


def results_of(sm, name):
    """ext results of `name` the function's error exits or result depend on"""
    out = []

    def visit(x):
        if isinstance(x, T) and x.op == 'ext' and x.a[0] == name:
            if x not in out:
                out.append(x)
            return
        for y in kids(x):
            visit(y)
    for _, _, g, _ in sm.errexits:
        visit(g)
    visit(sm.ret)
    return out


def main_(c, w):
    b = fn(w, 'main', 'twiggy')
    r = fn(w, 'run', 'twiggy')
    # the command line read in steps is what structopt reads in one
    over = {r.id: opaque('run')}
    given = lambda s, a, i, t: ext('StructOpt::from_args')
    for x in w.bodies.values():
        if x.path == '<Options as structopt::StructOpt>::clap':
            over[x.id] = lambda s, a, i, t: ext('StructOpt::clap')
        elif x.path == '<Options as structopt::StructOpt>::from_clap':
            over[x.id] = given
    for k in ('StructOpt::from_iter', 'StructOpt::from_args'):
        over[k] = given
    for k in ('App::get_matches', 'App::get_matches_from'):
        over[k] = lambda s, a, i, t: ext('App::matches')
    sm = c.seen(evaluate(w, b, [], over))
    at = loc(w, b)
    calls = [e for e in sm.effects if e.kind == 'call']
    res = None
    for e in calls:
        res = mk('api', 'run', *e.args[1:])
    if len(calls) != 1:
        fs = failing(sm)
        rs = set()
        for a in BD.support(fs.a[0]):
            if a.op == 'ch' and a.a[0].op == 'api':
                rs.add(a.a[0])
        if len(rs) != 1:
            return c.undecided('main', at, '%d calls of run' % len(calls))
        res = rs.pop()
    c.same('main.options', at, res.a[1], ext('StructOpt::from_args'))
    bad = bnot(is_ok(res))
    if b.locals[0].startswith('std::result::Result'):
        return errors(c, 'main.fails', at, sm, [('run', res)], 'main')
    ended(c, ending(w), over, at, res, bad)


def ending(w):
    """the same program with the end of the process as a recorded step: what never returns returns to its caller's end"""
    w2 = copy.copy(w)
    w2.bodies = dict(w.bodies)
    for k, b in w.bodies.items():
        if b.crate != 'twiggy' and b.locals[0] != '!':
            continue
        b2 = copy.copy(b)
        n = len(b.blocks)
        b2.blocks = []
        for bl in b.blocks:
            t = bl['t']
            if isinstance(t, dict) and t['to'] is None and t['f'][0] == 'k' and 'fn' in t['f'][1]:
                f = t['f'][1]['fn']
                r = f.get('res') or f
                r = r['id'] if isinstance(r, dict) else r
                if f['path'] == 'std::process::exit' or r in w.bodies:
                    bl = dict(bl, t=dict(t, to=n))
            b2.blocks.append(bl)
        b2.blocks.append({'s': [], 't': ['return']})
        b2.cfg()
        w2.bodies[k] = b2
    return w2


def ended(c, w, over, at, res, bad):
    b = fn(w, 'main', 'twiggy')
    over = dict(over)

    def step(kind):
        def f(s, a, info, t):
            s.effect(kind, *[s.deep(x) for x in a])
            return mk('adt', '()', '()', ())
        return f
    over['process::exit'] = step('exit')
    over['io::_eprint'] = over['stdio::_eprint'] = over['_eprint'] = step('said')
    sm = c.seen(evaluate(w, b, [], over))
    fails, fine, said, vague = FALSE, TRUE, FALSE, False
    for e in sm.effects:
        g = TRUE
        for x in e.stages:
            if x[0] != 'if':
                vague = True
                g = FALSE
            else:
                g = band(g, x[1])
        if e.kind == 'said' or e.kind == 'write' and 'stderr' in sh(e.args[0]):
            said = bor(said, g)
        if e.kind == 'exit':
            v = e.args[0]
            for h, x in (v.a[0] if v.op == 'phi' else ((TRUE, v),)):
                h = band(g, h, fine)
                if h is FALSE:
                    continue
                if x.op != 'int':
                    c.undecided('main.code.const', at, 'exit status not a constant: %s' % sh(x)[:200])
                    fails = bor(fails, h)
                    fine = band(fine, bnot(band(h, bad)))
                    continue
                if x.a[0] & 255:
                    fails = bor(fails, h)
                fine = band(fine, bnot(h))
    gone = failing(sm)
    for g, v in (sm.ret.a[0] if sm.ret.op == 'phi' else ((TRUE, sm.ret),)) if b.locals[0].endswith('ExitCode') else ():
        k = code(v)
        if k is None:
            c.undecided('main.code.const', at, 'exit status not a constant: %s' % sh(v)[:200])
        if k is None or k & 255:
            fails = bor(fails, band(g, fine, bad if k is None else TRUE))
    if vague:
        c.undecided('main.code', at, 'how the process ends depends on a loop')
    if b.locals[0] != '()' and not b.locals[0].endswith('ExitCode'):
        return c.undecided('main.code', at, 'main returns %s' % b.locals[0])
    c.true('main.fails', at, band(bad, bnot(fails), bnot(gone)) is FALSE, 'the process ends with success although run failed')
    c.true('main.message', at, band(bad, bnot(said), bnot(gone)) is FALSE, 'the failure is not printed to stderr')
    c.true('main.succeeds', at, band(bor(fails, gone), bnot(bad)) is FALSE, 'the process does not end with success although run succeeded')


def code(v):
    """the status an ExitCode stands for"""
    if v.op == 'ext' and v.a[0].endswith('from') and len(v.a) == 2:
        return code(v.a[1])
    if v.op == 'int':
        return v.a[0]
    if v.op == 'const' or v.op == 'adt' or v.op == 'ext':
        x = sh(v)
        if 'FAILURE' in x:
            return 1
        if 'SUCCESS' in x:
            return 0
    if v.op == 'adt' and len(v.a[2]) == 1:
        return code(v.a[2][0][1])
    return None


# ---------------------------------------------------------------- modes, formats, destinations
def words(c, w, ty, names, strict):
    b = impl_fn(w, 'FromStr', ty, 'from_str')
    at = loc(w, b)
    path = {'ParseMode': MODE, 'OutputFormat': FMT}[ty]
    for s, v in names:
        sm = c.seen(evaluate(w, b, [S(s)]))
        c.true('word.%s.%s' % (ty, s), at, failing(sm) is not TRUE and sm.ret.op == 'adt' and sm.ret.a[1] == 'Ok' and sm.ret.a[2][0][1] is adt(path, v, []),
               '%r is read as %s' % (s, sh(sm.ret)[:100]))
    x = mk('param', 's')
    sm = c.seen(evaluate(w, b, [x]))
    c.same('word.%s.other' % ty, at, failing(sm), band(*[bnot(eq(x, S(s))) for s, _ in names]))


FILE = mk('param', 'contents')


def file_terms(path):
    """the ways of reading a whole file that are the same as one another"""
    f = proj(ext('File::open', path), '0', 'Ok')
    return f


@prop('P24', 'words select what they name; the input is parsed in the selected mode, by extension or magic number in auto mode; the destination is what was named')
def modes(c):
    w = c.world()
    c.attempt('word.mode', 'ParseMode::from_str', lambda: words(c, w, 'ParseMode', [('wasm', 'Wasm'), ('dwarf', 'Dwarf'), ('auto', 'Auto')], True))
    c.attempt('word.format', 'OutputFormat::from_str', lambda: words(c, w, 'OutputFormat', [('text', 'Text'), ('json', 'Json'), ('csv', 'Csv')], True))
    c.attempt('dest', 'OutputDestination', lambda: dests(c, w))
    c.attempt('emit', 'Emit::emit', lambda: emit_(c, w))
    c.attempt('read', 'read_and_parse', lambda: reading(c, w))
    c.attempt('parse', 'parse', lambda: parse_(c, w))


def dests(c, w):
    b = impl_fn(w, 'FromStr', 'OutputDestination', 'from_str')
    x = mk('param', 's')
    sm = c.seen(evaluate(w, b, [x]))
    d = eq(x, S('-'))
    c.same('dest.word', loc(w, b), sm.ret, Ok(mkphi([(d, adt(DST, 'Stdout', [])), (bnot(d), adt(DST, 'Path', [('0', to_str(x))]))])))
    c.same('dest.word.fails', loc(w, b), failing(sm), FALSE)
    for t, v in (('OutputDestination', adt(DST, 'Stdout', [])), ('ParseMode', adt(MODE, 'Auto', [])), ('OutputFormat', adt(FMT, 'Text', []))):
        b = impl_fn(w, 'Default', t, 'default')
        c.same('default.' + t, loc(w, b), c.seen(evaluate(w, b, [])).ret, v)
    b = method(w, OPT, 'OutputDestination', 'open')
    at = loc(w, b)
    p = mk('param', 'path')
    sm = c.seen(evaluate(w, b, [adt(DST, 'Path', [('0', p)])]))
    cr = ext('File::create', p)
    f = proj(cr, '0', 'Ok')
    got = sm.ret
    while got.op == 'adt' and got.a[1] == 'Ok' and got.a[2][0][1].op == 'ext' and got.a[2][0][1].a[0] in ('BufWriter::new', 'BufWriter::with_capacity', 'LineWriter::new'):
        got = Ok(got.a[2][0][1].a[1][-1])
    c.same('dest.open.path', at, got, Ok(f))
    errors(c, 'dest.open.fails', at, sm, [('create', cr)], 'open')
    sm = c.seen(evaluate(w, b, [adt(DST, 'Stdout', [])]))
    got = sm.ret
    while got.op == 'adt' and got.a[1] == 'Ok' and got.a[2][0][1].op == 'ext' and got.a[2][0][1].a[0] in ('BufWriter::new', 'BufWriter::with_capacity', 'LineWriter::new', 'Stdout::lock'):
        got = Ok(got.a[2][0][1].a[1][-1])
    c.same('dest.open.stdout', at, got, Ok(ext('io::stdout')))
    c.same('dest.open.stdout.fails', at, failing(sm), FALSE)
    c.true('dest.open.stdout.only', at, not [e for e in sm.effects if e.kind == 'ext' and e.args[0].a[0].startswith('File')], 'a file is touched when writing to standard output')


def emit_(c, w):
    bs = [b for b in w.bodies.values() if b.crate == 'twiggy_traits' and b.path.endswith('Emit::emit')]
    if len(bs) != 1:
        raise Missing('Emit::emit')
    b = bs[0]
    d, i, o = (mk('param', x) for x in ('data', 'items', 'dest'))
    for fmt in FORMATS:
        sm = c.seen(evaluate(w, b, [d, i, o, adt(FMT, fmt.capitalize(), [])]))
        es = [e for e in sm.effects if e.kind == 'ext']
        x = ext('Emit::emit_' + fmt, d, i, o)
        c.true('emit.%s.once' % fmt, loc(w, b), len(es) == 1 and es[0].args[0].a[0] == 'Emit::emit_' + fmt, 'calls %s' % [e.args[0].a[0] for e in es])
        if sm.ret is x:
            c.true('emit.%s' % fmt, loc(w, b), failing(sm) is FALSE)
        else:
            errors(c, 'emit.%s.fails' % fmt, loc(w, b), sm, [('writer', x)], 'emit')
    # nobody overrides the dispatch
    for cr, im in w.impls:
        if im['trait'] and im['trait'].split('::')[-1].split('<')[0] == 'Emit' and not im['self'].startswith('&'):
            c.true('emit.impl.%s' % im['self'].split('::')[-1], cr, not any(x[0] == 'emit' for x in im['items']), '%s replaces the choice of the writer' % im['self'])


def parser_over(w, c):
    o = {}

    def builder(n, k):
        def f(s, a, info, t):
            cell = a[k]
            v = s.deep(cell)
            x = mk('api', n, *[s.deep(y) for i, y in enumerate(a) if i != k] + [v])
            s.store(cell, mk('api', n + '+', x))
            return x
        return f
    o[method(w, 'twiggy_ir', 'ItemsBuilder', 'new').id] = lambda s, a, i, t: mk('api', 'builder', s.deep(a[0]))
    o[method(w, 'twiggy_ir', 'ItemsBuilder', 'finish').id] = lambda s, a, i, t: mk('api', 'finish', s.deep(a[0]))
    o[impl_fn(w, 'Parse', 'ModuleReader', 'parse_items').id] = builder('items', 1)
    o[impl_fn(w, 'Parse', 'ModuleReader', 'parse_edges').id] = builder('edges', 1)
    o[fn(w, 'object_parse::parse', 'twiggy_parser').id] = builder('object', 0)
    return o


def parsed(w, c, data):
    """-> (result of the wasm parser, of the object parser, their fallible steps) on `data`"""
    rdr = c.seen(evaluate(w, method(w, 'twiggy_parser', 'ModuleReader', 'new'), [data])).ret
    b0 = mk('api', 'builder', mkcast(length(data)))
    i = mk('api', 'items', rdr, UNIT, b0)
    e = mk('api', 'edges', rdr, UNIT, mk('api', 'items+', i))
    o = mk('api', 'object', data, b0)
    return (mk('api', 'finish', mk('api', 'edges+', e)), [('items', i), ('edges', e)]), (mk('api', 'finish', mk('api', 'object+', o)), [('object', o)])


def mkcast(x):
    return int_cast(x, 'usize', 'u32')


def parse_(c, w):
    b = fn(w, 'parse', 'twiggy_parser')
    data = mk('param', 'data')
    sm = c.seen(evaluate(w, b, [data], parser_over(w, c)))
    (r, steps), _ = parsed(w, c, data)
    c.same('parse', loc(w, b), sm.ret, Ok(r))
    errors(c, 'parse.fails', loc(w, b), sm, steps, 'parse')


def reading(c, w):
    b = fn(w, 'read_and_parse', 'twiggy_parser')
    at = loc(w, b)
    p = mk('param', 'path')
    o = parser_over(w, c)
    for mode in ('Wasm', 'Dwarf', 'Auto'):
        sm = c.seen(evaluate(w, b, [p, adt(MODE, mode, [])], o))
        oid = 'read.' + mode
        fs = [e.args[0].a[0] for e in sm.effects if e.kind == 'ext']
        opened = ext('File::open', p)
        io = [('open', opened)]
        if 'fs::read' in fs:
            io = [('read', ext('fs::read', p))]
            data = proj(io[0][1], '0', 'Ok')
        else:
            rd = [e for e in sm.effects if e.kind == 'ext' and e.args[0].a[0] == 'Read::read_to_end']
            if len(rd) != 1:
                c.undecided(oid, at, 'how the file is read is not understood: %s' % fs[:8])
                continue
            io.append(('read', ext('Read::read_to_end', *rd[0].args[1:])))
            src = rd[0].args[1]
            while src.op == 'ext' and src.a[0].startswith('BufReader::') and len(src.a) > 1 or src.op == 'after':
                src = src.a[-1] if src.op == 'ext' else src.a[1]
            c.true(oid + '.file', at, src == proj(opened, '0', 'Ok'), 'reads %s' % sh(rd[0].args[1])[:100])
            c.same(oid + '.fresh', at, rd[0].args[2], mk('seq', ()))
            data = mk('after', 1, io[1][1])
            data = find_after(sm, io[1][1]) or data
        L = mk('param', 'data')
        sub = lambda t: replace(t, data, L)
        (rw, sw), (ro, so) = parsed(w, c, L)
        rw, ro = plain(rw), plain(ro)
        ret, f = sub(sm.ret), sub(failing(sm))
        if mode == 'Wasm':
            c.same(oid, at, unfailed(ret, f), unfailed(Ok(rw), f))
            want = sw
        elif mode == 'Dwarf':
            c.same(oid, at, unfailed(ret, f), unfailed(Ok(ro), f))
            want = so
        else:
            is_w = sniff(c, w, p, L, ret)
            f = canon_sniff(f, L)
            odd = unknowns(plain(f)) - unknowns(plain(mkphi([(is_w, tup(rw, *[r for _, r in sw])), (bnot(is_w), tup(ro, *[r for _, r in so]))]))) - unknowns(tup(*[sub(r) for _, r in io]))
            if odd:
                c.undecided(oid, at, 'not modelled: %s' % sorted(odd)[:6])
                continue
            c.same(oid, at, unfailed(canon_sniff(ret, L), f), unfailed(Ok(mkphi([(is_w, rw), (bnot(is_w), ro)])), f))
            want = None
        class X:
            errexits = [(0, 0, f, 0)]
        if want is not None:
            errors(c, oid + '.fails', at, X, [(n, sub(r)) for n, r in io] + want, 'reading')
        else:
            g = f
            bad = bor(*[bnot(is_ok(sub(r))) for _, r in io])
            bw, bo = bor(*[bnot(is_ok(r)) for _, r in sw]), bor(*[bnot(is_ok(r)) for _, r in so])
            c.same(oid + '.fails', at, g, bor(bad, band(is_w, bw), band(bnot(is_w), bo)))


def unfailed(t, f):
    """what is returned where nothing fails"""
    v = proj(t, '0', 'Ok')
    if t.op != 'adt' or v.op != 'phi':
        return t
    ok = bnot(f)
    alts = [(band(g, ok), x) for g, x in v.a[0]]
    return Ok(mkphi([(g, x) for g, x in alts if g is not FALSE] + [(f, mk('name', 'failed'))]))


def find_after(sm, r):
    hit = []

    def visit(x):
        if hit:
            return
        if isinstance(x, T) and x.op == 'after' or isinstance(x, T) and x.op == 'ext' and isinstance(x.a[0], str) and x.a[0].startswith('after:'):
            hit.append(x)
            return
        for y in kids(x):
            visit(y)
    visit(sm.ret)
    return hit[0] if hit else None


def sniff(c, w, p, data, ret):
    e = ext('Path::extension', p)
    by_ext = band(bnot(is_variant(e, 'Option', 'None')), eq(proj(e, '0', 'Some'), S('wasm')))
    return bor(by_ext, prefix(data, MAGIC, 4))


def prefix(data, c, k):
    """the first k elements of data are there and are the k constants c"""
    return band(le(I(k), length(data)), *[eq(index(data, I(i)), e) for i, (st, e) in enumerate(c.a[0])])


def is_str(x):
    return x.op == 'ext' and x.a[0] == 'OsStr::to_str'


def consts(x):
    if x.op == 'seq' and all(st == () and e.op == 'int' for st, e in x.a[0]):
        return len(x.a[0])
    return None


def canon_sniff(t, data):
    """the ways of asking whether `data` starts with some constants, as one question"""
    def first(x):
        """k if x is the first k elements of data"""
        if x.op == 'proj' and x.a[0].op == 'getrange':
            return rng(x.a[0])
        for k in range(0, 17):
            if x is add_stage(data, ('take', I(k))):
                return k
        return None

    def rng(x):
        f = dict(x.a[1].a[2])
        if x.a[0] is data and f.get('start', I(0)) is I(0) and f['end'].op == 'int':
            return f['end'].a[0]
        return None

    def leaf(x):
        if x.op == 'eq':
            a, b = x.a
            for c, y in ((a, b), (b, a)):
                n = consts(c)
                if n is not None and first(y) == n:
                    return prefix(data, c, n)
        elif x.op == 'ch' and x.a[0].op == 'getrange' and x.a[2] in ('None', 'Some') and rng(x.a[0]) is not None:
            there = le(I(rng(x.a[0])), length(data))
            return bnot(there) if x.a[2] == 'None' else there
        elif x.op == 'truth' and x.a[0].op == 'ext' and x.a[0].a[0] == 'slice::starts_with' and x.a[0].a[1][0] is data and consts(x.a[0].a[1][1]) is not None:
            c = x.a[0].a[1][1]
            return prefix(data, c, consts(c))
        elif x.op == 'ch' and x.a[0].op == 'proj' and is_str(x.a[0].a[0]) and x.a[1] == ('s',):       # text of an OsStr == word: the OsStr == word
            return eq(x.a[0].a[0].a[1][0], S(x.a[2]))
        elif x.op == 'ch' and x.a[0].op == 'ext' and x.a[0].a[0] == 'OsStr::to_string_lossy' and x.a[1] == ('s',) and isinstance(x.a[2], str) and '\ufffd' not in x.a[2]:
            return eq(x.a[0].a[1][0], S(x.a[2]))
        elif x.op == 'ch' and is_str(x.a[0]) and x.a[2] == 'None':
            return band(atom(mk('ch', mk('api', 'to_str', x.a[0].a[1][0]), x.a[1], x.a[2])), *[bnot(eq(x.a[0].a[1][0], S(wd))) for wd in words])
        elif is_str(x):
            return mk('api', 'to_str', x.a[1][0])
        elif x.op == 'agg' and x.a[0] == 'exists':
            return atom(mk('truth', mk('opaque', 'sniff', x)))
        return None
    words = set()

    def collect(x):
        if x.op == 'ch' and x.a[0].op == 'proj' and is_str(x.a[0].a[0]) and x.a[1] == ('s',):
            words.add(x.a[2])
    walk(t, collect)
    return Mapper(leaf).t(t)
