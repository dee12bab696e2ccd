"""the command line: declared switches, what the options mean, and the run from input to output"""
from .common import *
from rl import fn, method, sym

OPT = 'twiggy_opt'
M_ = mk('param', 'matches')
MAX = I(4294967295)


# ---------------------------------------------------------------- what clap is told
IGNORED = {'App::about', 'App::long_about', 'App::version', 'App::author', 'App::name', 'App::after_help', 'App::before_help',
           'App::help_message', 'App::version_message', 'App::usage', 'App::bin_name', 'Arg::help', 'Arg::long_help', 'Arg::validator',
           'Arg::value_name', 'Arg::display_order', 'Arg::validator_os', 'Arg::help_heading'}


class Unread(Exception):
    pass


def text_of(t):
    l = lit_of(t)
    if l is None:
        raise Unread('not a constant: %s' % sh(t)[:80])
    return l


def app(t):
    """builder chain -> (name, [arg], [subcommand])"""
    args, subs = [], []
    while True:
        if t.op != 'ext':
            if t.op == 'param':
                return None, args[::-1], subs[::-1]
            raise Unread(sh(t)[:120])
        n, a = t.a
        if n in ('SubCommand::with_name', 'App::new'):
            return text_of(a[0]), args[::-1], subs[::-1]
        if n == 'App::arg':
            args.append(arg(a[1]))
        elif n == 'App::subcommand':
            subs.append(app(a[1]))
        elif n == 'App::setting' and len(a) == 2 and a[1].op == 'adt' and a[1].a[1] in ('SubcommandRequiredElseHelp', 'SubcommandRequired', 'ColoredHelp', 'UnifiedHelpMessage', 'DeriveDisplayOrder'):
            pass
        elif n not in IGNORED:
            raise Unread(n)
        t = a[0]


def arg(t):
    d = dict(takes=False, multiple=False, required=False, short=None, long=None, default=None)
    seen = set()
    while True:
        if t.op != 'ext':
            raise Unread(sh(t)[:120])
        n, a = t.a
        if n == 'Arg::with_name':
            d['name'] = text_of(a[0])
            d['pos'] = d['short'] is None and d['long'] is None
            return d
        k = {'Arg::takes_value': 'takes', 'Arg::multiple': 'multiple', 'Arg::required': 'required'}.get(n)
        if k is not None:
            b = as_bool(a[1])
            if b is not TRUE and b is not FALSE:
                raise Unread(n)
            if k not in seen:
                d[k] = b is TRUE
            seen.add(k)
        elif n in ('Arg::short', 'Arg::long', 'Arg::default_value'):
            k = {'Arg::short': 'short', 'Arg::long': 'long', 'Arg::default_value': 'default'}[n]
            if k not in seen:
                x = text_of(a[1])
                d[k] = x.lstrip('-') if k != 'default' else x
                if k == 'short':
                    d[k] = d[k][:1]
            seen.add(k)
        elif n not in IGNORED:
            raise Unread(n)
        t = a[0]


# ---------------------------------------------------------------- the documented switches
def val(short, long=None, default=None):
    return dict(short=short, long=long, default=default, takes=True)


def flag(short, long):
    return dict(short=short, long=long, default=None, takes=False)


COMMON = {'output_destination': val('o', default='-'), 'output_format': val('f', 'format', 'text')}
MODE = {'parse_mode': val(None, 'mode', 'auto')}
REGEX = {'using_regexps': flag(None, 'regex')}
ALL = {'all': flag('a', 'all')}
SUBS = {
    'top': ('Top', ['input'], None, {**COMMON, **MODE, 'max_items': val('n', default='4294967295'), 'retaining_paths': flag('r', 'retaining-paths'),
                                     'retained': flag(None, 'retained')}),
    'dominators': ('Dominators', ['input'], 'items', {**COMMON, **MODE, **REGEX, 'max_depth': val('d'), 'max_rows': val('r')}),
    'paths': ('Paths', ['input'], 'functions', {**COMMON, **MODE, **REGEX, 'max_depth': val('d', default='10'), 'max_paths': val('r', default='10'),
                                                'descending': flag(None, 'descending')}),
    'monos': ('Monos', ['input'], 'functions', {**COMMON, 'parse_mode': val('d', 'mode', 'auto'), **REGEX, **ALL, 'only_generics': flag('g', 'only-generics'),
                                                'max_generics': val('m', 'max-generics', '10'), 'max_monos': val('n', 'max-monos', '10'),
                                                'all_generics': flag(None, 'all-generics'), 'all_monos': flag(None, 'all-monos')}),
    'diff': ('Diff', ['input', 'new_input'], 'items', {**COMMON, **MODE, **REGEX, **ALL, 'max_items': val('n', default='20')}),
    'garbage': ('Garbage', ['input'], None, {**COMMON, **MODE, **ALL, 'max_items': val('n', default='10'), 'show_data_segments': flag(None, 'show-data-segments')}),
}
COMMON_GETTERS = ('input', 'parse_mode', 'output_destination', 'output_format')
FLAGS = ('retaining_paths', 'retained', 'using_regexps', 'descending', 'only_generics', 'show_data_segments')
DEFAULTS = {'Top': dict(max_items=MAX, retaining_paths=FALSE, retained=FALSE),
            'Dominators': dict(max_depth=MAX, max_rows=MAX, using_regexps=FALSE, items=SEQ0),
            'Paths': dict(max_depth=I(10), max_paths=I(10), descending=FALSE, using_regexps=FALSE, functions=SEQ0),
            'Monos': dict(max_generics=I(10), max_monos=I(10), only_generics=FALSE, using_regexps=FALSE, functions=SEQ0),
            'Diff': dict(max_items=I(20), using_regexps=FALSE, items=SEQ0),
            'Garbage': dict(max_items=I(10), show_data_segments=FALSE)}
SETTERS = {'Top': ['max_items', 'retaining_paths', 'retained'], 'Dominators': ['max_depth', 'max_rows', 'using_regexps'],
           'Paths': ['max_depth', 'max_paths', 'descending', 'using_regexps'], 'Monos': ['only_generics', 'max_generics', 'max_monos'],
           'Diff': ['max_items', 'using_regexps'], 'Garbage': ['max_items']}


def value(name):
    return ext('ArgMatches::value_of', M_, S(name))


def parsed(x):
    return proj(ext('FromStr::from_str', proj(x, '0', 'Some')), '0', 'Ok')


def number(d):
    v = value(d['name'])
    if d['default'] is not None:
        return parsed(v)
    none = is_variant(v, 'Option', 'None')
    return mkphi([(none, MAX), (bnot(none), parsed(v))])


def given(d):
    return as_bool(ext('ArgMatches::is_present', M_, S(d['name'])))


def listed(name):
    v = ext('ArgMatches::values_of', M_, S(name))
    xs = proj(v, '0', 'Some')
    e = elem(xs)
    return mk_seq([((('if', bnot(is_variant(v, 'Option', 'None'))), ('for', e, xs)), proj(ext('FromStr::from_str', e), '0', 'Ok'))])


MODES = [('wasm', 'Wasm'), ('dwarf', 'Dwarf'), ('auto', 'Auto')]
FMTS = [('text', 'Text'), ('json', 'Json'), ('csv', 'Csv')]


def chosen(c, oid, at, got, x, path, names):
    """each word selects its variant (what is no word was refused before and never gets here)"""
    for n, v in names:
        c.same('%s=%s' % (oid, n), at, replace(got, x, S(n)), adt(path, v, []))


def destination(x):
    d = eq(x, S('-'))
    P = OPT + '::OutputDestination'
    return mkphi([(d, adt(P, 'Stdout', [])), (bnot(d), adt(P, 'Path', [('0', to_str(x))]))])


def run1(c, w, b, args, **k):
    return c.seen(evaluate(w, b, args, {}, **k))


@prop('P22', 'every documented switch is declared with its short and long form and default, and its value is what the accessor of the option returns')
def switches(c):
    w = c.world()
    au = impl_fn(w, 'StructOptInternal', 'Options', 'augment_clap')
    top = run1(c, w, au, [mk('param', 'app')]).ret
    try:
        _, _, subs = app(top)
    except Unread as e:
        return c.undecided('clap', loc(w, au), 'builder call not understood: %s' % e)
    subs = {n: args for n, args, _ in subs}
    fs = impl_fn(w, 'StructOptInternal', 'Options', 'from_subcommand')
    for sub, (ty, pos, many, opts_) in SUBS.items():
        at = loc(w, au)
        if sub not in subs:
            c.true('clap.' + sub, at, False, 'no subcommand `%s`' % sub)
            continue
        found = declared(c, at, sub, subs[sub], pos, many, opts_)
        if found is None:
            continue
        c.attempt('value.' + sub, 'Options::from_subcommand', lambda: values(c, w, fs, sub, ty, pos, many, found))
    for ty in DEFAULTS:
        c.attempt('default.' + ty, ty, lambda: defaults(c, w, ty))
        c.attempt('set.' + ty, ty, lambda: setters(c, w, ty))


def declared(c, at, sub, args, pos, many, opts_):
    found, ok = {}, True
    ps = [a for a in args if a['pos']]
    want = [(p, False) for p in pos] + ([(many, True)] if many else [])
    c.true('clap.%s.positional' % sub, at, [a['multiple'] for a in ps] == [m for _, m in want] and all(a['takes'] for a in ps) and
           all(a['required'] or a['multiple'] for a in ps) and not any(a['required'] for a in ps if a['multiple']),
           'positional arguments: %s' % [(a['name'], a['multiple'], a['required']) for a in ps])
    if len(ps) != len(want):
        return None
    for (n, _), a in zip(want, ps):
        found[n] = a
    for n, o in opts_.items():
        hit = [a for a in args if not a['pos'] and (o['long'] is not None and a['long'] == o['long'] or o['long'] is None and a['short'] == o['short'])]
        name = '-' + o['short'] if o['short'] else '--' + o['long']
        if len(hit) != 1:
            c.true('clap.%s.%s' % (sub, n), at, False, '%s: %s is declared %d times' % (sub, name, len(hit)))
            ok = False
            continue
        a = hit[0]
        bad = [(k, a[k], o[k]) for k in ('short', 'long', 'default', 'takes') if a[k] != o[k]]
        if a['multiple'] or a['required']:
            bad.append(('multiple/required', True, False))
        c.true('clap.%s.%s' % (sub, n), at, not bad, '%s %s: %s' % (sub, name, '; '.join('%s is %r, documented %r' % b for b in bad)))
        found[n] = a
    names = [x for a in args for x in (a['short'] and '-' + a['short'], a['long'] and '--' + a['long'], 'name ' + a['name']) if x]
    c.true('clap.%s.unique' % sub, at, len(set(names)) == len(names), '%s: a switch is declared twice: %s' % (sub, sorted(n for n in names if names.count(n) > 1)))
    return found if ok else None


def values(c, w, fs, sub, ty, pos, many, f):
    r = run1(c, w, fs, [tup(S(sub), Some(M_))]).ret
    if not (r.op == 'adt' and r.a[1] == 'Some' and r.a[2][0][1].op == 'adt'):
        return c.undecided('value.' + sub, loc(w, fs), sh(r)[:200])
    o = r.a[2][0][1]
    c.true('value.%s.kind' % sub, loc(w, fs), o.a[1] == ty, 'subcommand %s is read as %s' % (sub, o.a[1]))
    if o.a[1] != ty:
        return
    v = o.a[2][0][1]
    t = lambda n: proj(value(f[n]['name']), '0', 'Some')
    path = lambda n: proj(ext('ArgMatches::value_of_os', M_, S(f[n]['name'])), '0', 'Some')
    want = {'input': path('input'), 'output_destination': destination(t('output_destination'))}
    words = {'parse_mode': ('twiggy_traits::ParseMode', MODES), 'output_format': ('twiggy_traits::OutputFormat', FMTS)}
    for g in COMMON_GETTERS:
        b = impl_fn(w, 'CommonCliOptions', 'Options', g)
        got = run1(c, w, b, [o]).ret
        if g in words:
            chosen(c, 'value.%s.%s' % (sub, g), loc(w, b), got, t(g), *words[g])
        else:
            c.same('value.%s.%s' % (sub, g), loc(w, b), got, want[g])
    for g in api.GETTERS[ty] + (['new_input'] if 'new_input' in pos else []):
        b = method(w, OPT, ty, g)
        got = run1(c, w, b, [v]).ret
        if g == many:
            x = listed(f[g]['name'])
        elif g == 'new_input':
            x = path(g)
        elif g in FLAGS:
            x, got = given(f[g]), as_bool(got)
        else:
            x = number(f[g])
            over = [n for n in ('all', {'max_generics': 'all_generics', 'max_monos': 'all_monos'}.get(g)) if n in f]
            if over:
                a = bor(*[given(f[n]) for n in over])
                x = mkphi([(a, MAX), (bnot(a), x)])
        c.same('value.%s.%s' % (sub, g), loc(w, b), got, x)


def getters(c, w, ty, v):
    out = {}
    for g in api.GETTERS[ty]:
        b = method(w, OPT, ty, g)
        r = run1(c, w, b, [v]).ret
        out[g] = (loc(w, b), as_bool(r) if g in FLAGS else r)
    return out


def defaults(c, w, ty):
    b = impl_fn(w, 'Default', ty, 'default')
    v = run1(c, w, b, []).ret
    mks = [('Default', b)]
    if ty != 'Diff':
        mks.append(('new', method(w, OPT, ty, 'new')))
    for n, b in mks:
        v = run1(c, w, b, []).ret
        gs = getters(c, w, ty, v)
        for g, x in DEFAULTS[ty].items():
            c.same('default.%s.%s.%s' % (ty, n, g), loc(w, b), gs[g][1], x)


def setters(c, w, ty):
    self_ = sym(w, OPT + '::' + ty, mk('param', 'self'))
    before = getters(c, w, ty, self_)
    x = mk('param', 'x')
    for k in SETTERS[ty]:
        b = method(w, OPT, ty, 'set_' + k)
        y = as_bool(x) if k in FLAGS else x
        sm = run1(c, w, b, [self_, y], cells=(0,))
        after = getters(c, w, ty, sm.out[0])
        for g in after:
            c.same('set.%s.%s.%s' % (ty, k, g), loc(w, b), after[g][1], y if g == k else before[g][1])
    if ty == 'Paths':
        b = method(w, OPT, ty, 'add_function')
        sm = run1(c, w, b, [self_, x], cells=(0,))
        after = getters(c, w, ty, sm.out[0])
        for g in after:
            c.same('set.Paths.add_function.%s' % g, loc(w, b), after[g][1], push(before[g][1], x) if g == 'functions' else before[g][1])
