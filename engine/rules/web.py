"""the web API: the same parser, analyses and options as the command line program, reported as JSON text"""
import json
from .common import *
from .run import KINDS, opaque, failing, is_ok, OPT, results_of
from rl import fn, method, sym
from . import cli

CRATES = ('twiggy_analyze', 'twiggy_ir', 'twiggy_parser')
GLUE = re.compile(r'wasm_bindgen|__wbindgen|__wbg|__WASM_BINDGEN|wasm_bindgen_generated')


@prop('P29', 'each web API method runs its analysis on its own items with the given options and returns the JSON report; the code below it is the same in both builds')
def web(c):
    w = c.world('wasm')
    v = c.world('cli')
    c.attempt('parse', 'Items::parse', lambda: parse(c, w))
    for n, ty in KINDS.items():
        if n != 'garbage':
            c.attempt(n, 'Items::' + n, lambda: one(c, w, n, ty))
    same_code(c, w, v)
    for ty in cli.DEFAULTS:
        if ty != 'Garbage':
            c.attempt('default.' + ty, ty, lambda: cli.defaults(c, w, ty))
            c.attempt('set.' + ty, ty, lambda: cli.setters(c, w, ty))


def items_method(w, n):
    x = [b for b in w.bodies.values() if b.crate == 'twiggy_wasm_api' and b.path == 'Items::' + n and b.kind == 'fn']
    if len(x) != 1:
        raise Missing('Items::' + n)
    return x[0]


def parse(c, w):
    b = items_method(w, 'parse')
    p = fn(w, 'parse', 'twiggy_parser')
    sm = c.seen(rl.evaluate(w, b, [mk('param', 'data')], {p.id: opaque('parse')}))
    r = mk('api', 'parse', mk('param', 'data'))
    c.same('parse.result', loc(w, b), dict(sm.ret.a[2])['items'] if sm.ret.op == 'adt' else sm.ret, proj(r, '0', 'Ok'))
    # the text parsed is parsed as a wasm module
    q = fn(w, 'parse_wasm', 'twiggy_parser')
    sm = c.seen(rl.evaluate(w, p, [mk('param', 'data')], {q.id: opaque('wasm')}))
    r = mk('api', 'wasm', mk('param', 'data'))
    c.among('parse.mode', loc(w, p), sm.ret, [r, Ok(proj(r, '0', 'Ok'))])


def one(c, w, n, ty):
    b = items_method(w, n)
    at = loc(w, b)
    a = entry(w, n)
    over = {a.id: opaque(n)}
    ITEM = lambda p: mk('adt', 'twiggy_wasm_api::Items', 'Items', (('items', mk('param', p)),))
    o = mk('param', 'options')
    args = [ITEM('items')] + ([ITEM('new_items')] if n == 'diff' else []) + [o]
    sm = c.seen(rl.evaluate(w, b, args, over))
    res = mk('api', n, *([mk('param', 'items')] + ([mk('param', 'new_items')] if n == 'diff' else []) + [o]))
    calls = [e for e in sm.effects if e.kind == 'call']
    c.true(n + '.once', at, len(calls) == 1 and calls[0].stages == (), 'the analysis runs %d times' % len(calls))
    if calls:
        c.same(n + '.analysis', at, tup(*calls[0].args), tup(mk('name', n), *res.a[1:]))
    em = [e for e in sm.effects if e.kind == 'ext' and e.args[0].a[0].startswith('Emit::emit_')]
    odd = [e.args[0].a[0] for e in sm.effects if e.kind == 'ext' and e not in em and e.args[0].a[0] != 'String::from_utf8']
    if odd:
        return c.undecided(n + '.steps', at, 'calls not understood: %s' % odd[:5])
    c.true(n + '.json', at, [e.args[0].a[0] for e in em] == ['Emit::emit_json'] and em[0].stages == (), 'writes with %s' % [e.args[0].a[0] for e in em])
    if len(em) != 1:
        return
    c.same(n + '.emit', at, tup(*em[0].args[1:3]), tup(proj(res, '0', 'Ok'), mk('param', 'items')))
    c.same(n + '.fresh', at, em[0].args[3], mk('seq', ()))
    x = sm.ret
    while x.op == 'proj' and x.a[1:] == ('0', 'Ok') or x.op == 'ext' and re.search(r'String::(from_utf8\w*)$|::into_owned$|ToString::to_string$|str::from_utf8\w*$', x.a[0]):
        x = x.a[0] if x.op == 'proj' else x.a[1][0]
    c.same(n + '.text', at, x, ext('after:2:Emit::emit_json', *em[0].args[1:]), 'what is returned is not what was written')


def bare(x):
    """the code without its line numbers and without the numbering of impl blocks"""
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], str) and x[0].endswith('.rs') and isinstance(x[1], int):
            return None
        return [bare(y) for y in x]
    if isinstance(x, dict):
        return {k: bare(y) for k, y in x.items() if k not in ('sp', 'mac')}
    if isinstance(x, str):
        return re.sub(r'\{impl#\d+\}', '{impl}', re.sub(r'@[^ ]*\.rs:', '@', x)) if '{impl#' in x or '.rs:' in x else x
    return x


def text(b):
    return json.dumps([bare(b.blocks), bare(b.locals), b.nargs], sort_keys=True)


def same_code(c, w, v):
    key = lambda b: (bare(b.id), b.path, b.kind)
    by = {}
    for b in v.bodies.values():
        by.setdefault(key(b), []).append(b)
    todo, seen = [b.id for b in w.bodies.values() if b.crate == 'twiggy_wasm_api' and not GLUE.search(b.path + b.id)], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        b = w.bodies[x]
        for bl in b.blocks:
            for y in re.findall(r'"(?:id|res)": "([^"]*)"', json.dumps(bl)):
                if y in w.bodies and y not in seen:
                    todo.append(y)
        todo += [y for y in w.bodies if y.startswith(x + '::{') and y not in seen]
    n = 0
    for x in sorted(seen):
        b = w.bodies[x]
        if b.crate not in CRATES or GLUE.search(b.path + b.id):
            continue
        n += 1
        o = by.get(key(b), [])
        if any(text(b) == text(y) for y in o):
            c.fns.add(b.id)
            continue
        oid = 'same.%s.%s' % (b.crate[7:], b.path)
        if len(o) != 1 or b.kind != 'fn':
            c.undecided(oid, loc(w, b), 'only in the web build')
            continue
        c.attempt(oid, loc(w, b), lambda: same_meaning(c, oid, w, b, v, o[0]))
    c.true('same', 'wasm-api', n > 100, 'only %d functions below the web API' % n)
    c.notes.append('%d functions of the shared crates below the web API compared with the command line build' % n)


def same_meaning(c, oid, w, b, v, o):
    out = []
    for u, x in ((w, b), (v, o)):
        args, cells = [], []
        for i in range(x.nargs):
            a = mk('param', 'a%d' % i)
            m = re.match(r"&('\w+ )?(mut )?(.*)", x.locals[i + 1])
            if m and m.group(2):
                cells.append(i)
            ty = (m.group(3) if m else x.locals[i + 1]).split('<')[0]
            if ty.startswith(OPT + '::') and ty.split('::')[-1] in cli.DEFAULTS:
                a = opts(ty.split('::')[-1])
            elif ty in w.adts and ty in v.adts and ty.startswith('twiggy_ir'):
                a = sym(u, ty, a)
            args.append(a)
        sm = c.seen(rl.evaluate(u, x, args, overrides(u), cells=tuple(cells)))
        out.append(tup(sm.ret, failing(sm), *([tup(mk('name', e.kind), *e.args, *[y for z in e.stages for y in z if isinstance(y, T)]) for e in sm.effects] + [sm.out[i] for i in cells])))
    g, h = out
    if unknowns(plain(g)) or unknowns(plain(h)):
        return c.undecided(oid, loc(w, b), 'differs from the command line build in a way not modelled')
    c.same(oid, loc(w, b), g, h, 'differs from the command line build')
