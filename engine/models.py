"""Translations of library functions into terms."""
from fractions import Fraction
import re
from terms import *
import terms as tm
import ev
from ev import idx_of, set_of, map_of, range_seg, int_cast, short

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def V(s, a):
    """value behind a (shared) reference"""
    return s.load(a) if a.op in ('ptr', 'phi') else a


def ident(s, args, info, t):
    return args[0]


for n in ('Deref::deref', 'DerefMut::deref_mut', 'Vec::as_slice', 'Vec::as_mut_slice', 'String::as_str', 'AsRef::as_ref', 'Borrow::borrow', 'Into::into',
          'From::from', 'Box::new', 'Option::as_deref', 'Option::as_ref', 'Option::as_mut', 'Frozen::freeze', 'Option::copied', 'Option::cloned',
          'hint::must_use', '__private::must_use', 'Option::as_deref_mut', 'Result::as_ref', 'Iterator::by_ref',
          'str::as_str', 'Vec::into_boxed_slice', 'slice::to_vec', 'slice::into_vec', 'Cow::into_owned', 'Iterator::peekable', 'Iterator::fuse',
          'BorrowMut::borrow_mut', 'AsMut::as_mut', 'String::into_boxed_str', 'str::to_owned', 'must_use', 'identity', 'convert::identity',
          'String::as_bytes', 'str::as_bytes', 'Vec::shrink_to_fit', 'RefCell::new', 'RefCell::borrow', 'RefCell::borrow_mut', 'Cell::new', 'Rc::new', 'RefCell::into_inner',
          'BTreeMap::iter', 'Iterator::into_iter', 'Option::into_iter', 'slice::as_ref', 'Iterator::cloned', 'Iterator::copied'):
    M[n] = ident


@model('Clone::clone', 'ToOwned::to_owned', 'Borrow::borrow')
def clone(s, args, info, t):
    return V(s, args[0])


@model('From::from', 'Into::into')
def from_(s, args, info, t):
    dty = (t or {}).get('dty', '')
    v = V(s, args[0]) if args[0].op != 'ptr' else args[0]
    if dty in ('f64', 'f32'):
        return to_real(v)
    if v.op == 'b' and re.fullmatch(r'[iu](8|16|32|64|128|size)', dty):
        return mkphi([(v, I(1)), (bnot(v), I(0))])
    if v.op == 'seq' and dty.startswith('std::collections::'):
        return collect_as(s, v, dty)
    return v


@model('ToString::to_string')
def to_string(s, args, info, t):
    return to_str(s.deep(args[0]))


@model('String::from', 'String::from_utf8_lossy')
def string_from(s, args, info, t):
    return s.deep(args[0])


@model('String::new', 'String::with_capacity')
def string_new(s, args, info, t):
    return S('')


OPENING = ('read', 'write', 'append', 'truncate', 'create', 'create_new')


@model('OpenOptions::new', 'File::options')
def open_options(s, args, info, t):
    return mk('api', 'openoptions', *[FALSE] * len(OPENING))


@model(*['OpenOptions::' + x for x in OPENING])
def open_options_set(s, args, info, t):
    v = s.load(args[0]) if args[0].op == 'ptr' else args[0]
    if v.op != 'api' or v.a[0] != 'openoptions':
        return None
    a = list(v.a)
    a[1 + OPENING.index(info['path'].split('::')[-1])] = as_bool(args[1])
    v = mk('api', *a)
    if args[0].op == 'ptr':
        s.store(args[0], v)
        return args[0]
    return v


@model('OpenOptions::open')
def open_options_open(s, args, info, t):
    v = s.load(args[0]) if args[0].op == 'ptr' else args[0]
    if v.op != 'api' or v.a[0] != 'openoptions' or any(x not in (TRUE, FALSE) for x in v.a[1:]):
        return None
    f = {k for k, x in zip(OPENING, v.a[1:]) if x is TRUE}
    name = 'OpenOptions::open'
    if f - {'read'} == {'write', 'truncate', 'create'}:
        name = 'File::create'
    elif f == {'read'}:
        name = 'File::open'
    x = ext(name, s.deep(args[1])) if name != 'OpenOptions::open' else ext(name, s.deep(args[1]), *[S(k) for k in sorted(f)])
    s.effect('ext', mk('name', x.a[0]), *x.a[1])
    return x


@model('Vec::new', 'Vec::with_capacity')
def vec_new(s, args, info, t):
    return SEQ0


@model('BTreeMap::new', 'HashMap::new', 'BTreeSet::new', 'HashSet::new', 'HashMap::with_capacity', 'HashSet::with_capacity', 'HashMap::with_capacity_and_hasher')
def map_new(s, args, info, t):
    p = info['path']
    for k in ('BTreeMap', 'HashMap', 'BTreeSet', 'HashSet'):
        if k in p:
            return mk('map0', k)


def default_of(s, ty):
    ty = ty or ''
    if ty.startswith('std::vec::Vec'):
        return SEQ0
    for k in ('BTreeMap', 'HashMap', 'BTreeSet', 'HashSet'):
        if ty.startswith('std::collections::' + k):
            return mk('map0', k)
    if ty.startswith('std::option::Option'):
        return NONE
    if ty == 'bool':
        return FALSE
    if ty in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'isize', 'i8', 'i16'):
        return I(0)
    if ty in ('f64', 'f32'):
        return real_const(0)
    if ty in ('std::string::String', '&str'):
        return S('')
    if ty.startswith('(') and ty.endswith(')'):
        return None
    return None


@model('Default::default', 'mem::take')
def default(s, args, info, t):
    d = default_of(s, (t or {}).get('dty'))
    if d is None and info.get('targs') and not args:
        d = default_of(s, str(info['targs'][0]))
    if args:
        old = s.load(args[0])
        if d is None:
            d = opaque('default')
        s.store(args[0], d)
        return old
    return d


@model('mem::replace')
def mem_replace(s, args, info, t):
    old = s.load(args[0])
    s.store(args[0], args[1])
    return old


@model('mem::swap')
def mem_swap(s, args, info, t):
    a, b = s.load(args[0]), s.load(args[1])
    s.store(args[0], b)
    s.store(args[1], a)
    return UNIT


@model('Option::take')
def opt_take(s, args, info, t):
    old = s.load(args[0])
    s.store(args[0], NONE)
    return old


@model('mem::drop', 'drop')
def drop_(s, args, info, t):
    d = s.models.get('DROP')
    if d:
        d(s, args[0], '')
    return UNIT


@model('Box::new_uninit')
def new_uninit(s, args, info, t):
    return s.newcell(opaque('uninit'))


@model('boxed::box_assume_init_into_vec_unsafe', 'box_assume_init_into_vec_unsafe', 'std::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(s, args, info, t):
    v = s.load(args[0])
    n = 0
    while v.op in ('adt', 'upd') and n < 6:
        fs = v.a[2] if v.op == 'adt' else v.a[1]
        if not fs:
            break
        v = fs[-1][1]
        n += 1
    return v


# ------------------------------------------------------------ options and results
def some_cond(x):
    return is_variant(x, 'Option', 'Some')


def payload(x):
    return proj(x, '0', 'Some')


def ok_cond(x):
    return is_variant(x, 'Result', 'Ok')


@model('Option::is_some')
def is_some(s, args, info, t):
    return some_cond(V(s, args[0]))


@model('Option::is_none')
def is_none(s, args, info, t):
    return bnot(some_cond(V(s, args[0])))


@model('Result::is_ok')
def is_ok(s, args, info, t):
    return ok_cond(V(s, args[0]))


@model('Result::is_err')
def is_err(s, args, info, t):
    return bnot(ok_cond(V(s, args[0])))


def subptr(s, a, var):
    if a.op == 'ptr':
        return mk('ptr', a.a[0], a.a[1] + (('d', var), ('f', '0', var)))
    return None


def opt_case(s, x, on_some, on_none):
    c = some_cond(x)
    if c is TRUE:
        return on_some()
    if c is FALSE:
        return on_none()
    cc = band(s.cond, s.assume)
    if not feasible(c, cc):
        return on_none()
    if not feasible(bnot(c), cc):
        return on_some()
    a = s.under(c, on_some)
    b = s.under(bnot(c), on_none)
    return mkphi([(c, a), (bnot(c), b)])


@model('Option::as_mut')
def opt_as_mut(s, args, info, t):
    v = s.load(args[0])
    return opt_case(s, v, lambda: Some(subptr(s, args[0], 'Some')), lambda: NONE)


@model('Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect', 'Option::unwrap_unchecked')
def unwrap(s, args, info, t):
    v = V(s, args[0])
    res = 'Result' in info['path']
    c = ok_cond(v) if res else some_cond(v)
    s.mayfail(c, short(info['path']), v)
    return proj(v, '0', 'Ok' if res else 'Some')


@model('Option::unwrap_or')
def unwrap_or(s, args, info, t):
    v = V(s, args[0])
    return opt_case(s, v, lambda: payload(v), lambda: args[1])


@model('Option::unwrap_or_else')
def unwrap_or_else(s, args, info, t):
    v = V(s, args[0])
    return opt_case(s, v, lambda: payload(v), lambda: s.call_value(args[1], [], t))


@model('Option::unwrap_or_default')
def unwrap_or_default(s, args, info, t):
    v = V(s, args[0])
    d = default_of(s, (t or {}).get('dty'))
    if d is None:
        return None
    return opt_case(s, v, lambda: payload(v), lambda: d)


@model('Option::map')
def opt_map(s, args, info, t):
    v = V(s, args[0])
    return opt_case(s, v, lambda: Some(s.call_value(args[1], [payload(v)], t)), lambda: NONE)


@model('Option::and_then')
def opt_and_then(s, args, info, t):
    v = V(s, args[0])
    return opt_case(s, v, lambda: s.call_value(args[1], [payload(v)], t), lambda: NONE)


@model('Option::filter')
def opt_filter(s, args, info, t):
    v = V(s, args[0])

    def f():
        c = as_bool(s.call_value(args[1], [payload(v)], t))
        return mkphi([(c, Some(payload(v))), (bnot(c), NONE)])
    return opt_case(s, v, f, lambda: NONE)


@model('Option::map_or')
def opt_map_or(s, args, info, t):
    v = V(s, args[0])
    return opt_case(s, v, lambda: s.call_value(args[2], [payload(v)], t), lambda: args[1])


@model('Option::map_or_else')
def opt_map_or_else(s, args, info, t):
    v = V(s, args[0])
    return opt_case(s, v, lambda: s.call_value(args[2], [payload(v)], t), lambda: s.call_value(args[1], [], t))


@model('Option::is_some_and')
def is_some_and(s, args, info, t):
    v = V(s, args[0])
    return opt_case(s, v, lambda: as_bool(s.call_value(args[1], [payload(v)], t)), lambda: FALSE)


@model('Option::or_else')
def opt_or_else(s, args, info, t):
    v = V(s, args[0])
    return opt_case(s, v, lambda: v, lambda: s.call_value(args[1], [], t))


@model('Option::or')
def opt_or(s, args, info, t):
    v = V(s, args[0])
    return opt_case(s, v, lambda: Some(payload(v)), lambda: args[1])


@model('Option::ok_or', 'Option::ok_or_else')
def ok_or(s, args, info, t):
    v = V(s, args[0])
    return opt_case(s, v, lambda: Ok(payload(v)), lambda: Err(mk('errval', v)))


@model('Option::get_or_insert_with')
def get_or_insert(s, args, info, t):
    v = s.load(args[0])
    new = opt_case(s, v, lambda: v, lambda: Some(s.call_value(args[1], [], t)))
    s.store(args[0], new)
    return subptr(s, args[0], 'Some')


@model('Option::transpose')
def transpose(s, args, info, t):
    v = V(s, args[0])

    def f():
        p = payload(v)
        c = ok_cond(p)
        return mkphi([(c, Ok(Some(proj(p, '0', 'Ok')))), (bnot(c), Err(proj(p, '0', 'Err')))])
    return opt_case(s, v, f, lambda: Ok(NONE))


def res_case(s, x, on_ok, on_err):
    c = ok_cond(x)
    if c is TRUE:
        return on_ok()
    if c is FALSE:
        return on_err()
    a = s.under(c, on_ok)
    b = s.under(bnot(c), on_err)
    return mkphi([(c, a), (bnot(c), b)])


@model('Result::map')
def res_map(s, args, info, t):
    v = V(s, args[0])
    return res_case(s, v, lambda: Ok(s.call_value(args[1], [proj(v, '0', 'Ok')], t)), lambda: Err(proj(v, '0', 'Err')))


@model('Result::map_err', 'Context::context', 'Context::with_context')
def res_map_err(s, args, info, t):
    v = V(s, args[0])
    c = ok_cond(v)
    if c is TRUE:
        return v
    return mkphi([(c, Ok(proj(v, '0', 'Ok'))), (bnot(c), Err(mk('errval', v)))])


@model('Result::and_then')
def res_and_then(s, args, info, t):
    v = V(s, args[0])
    return res_case(s, v, lambda: s.call_value(args[1], [proj(v, '0', 'Ok')], t), lambda: Err(proj(v, '0', 'Err')))


@model('Result::or_else')
def res_or_else(s, args, info, t):
    v = V(s, args[0])
    return res_case(s, v, lambda: v, lambda: s.call_value(args[1], [proj(v, '0', 'Err')], t))


@model('Result::or')
def res_or(s, args, info, t):
    v = V(s, args[0])
    return res_case(s, v, lambda: v, lambda: V(s, args[1]))


@model('Result::and')
def res_and(s, args, info, t):
    v = V(s, args[0])
    return res_case(s, v, lambda: V(s, args[1]), lambda: Err(proj(v, '0', 'Err')))


@model('Result::map_or')
def res_map_or(s, args, info, t):
    v = V(s, args[0])
    return res_case(s, v, lambda: s.call_value(args[2], [proj(v, '0', 'Ok')], t), lambda: args[1])


@model('Result::map_or_else')
def res_map_or_else(s, args, info, t):
    v = V(s, args[0])
    return res_case(s, v, lambda: s.call_value(args[2], [proj(v, '0', 'Ok')], t), lambda: s.call_value(args[1], [proj(v, '0', 'Err')], t))


@model('Result::err')
def res_err(s, args, info, t):
    v = V(s, args[0])
    return res_case(s, v, lambda: NONE, lambda: Some(proj(v, '0', 'Err')))


@model('Option::and')
def opt_and(s, args, info, t):
    v = V(s, args[0])
    return opt_case(s, v, lambda: V(s, args[1]), lambda: NONE)


@model('Option::xor')
def opt_xor(s, args, info, t):
    v, u = V(s, args[0]), V(s, args[1])
    return opt_case(s, v, lambda: opt_case(s, u, lambda: NONE, lambda: v), lambda: u)


@model('Option::is_none_or')
def is_none_or(s, args, info, t):
    v = V(s, args[0])
    return opt_case(s, v, lambda: as_bool(s.call_value(args[1], [payload(v)], t)), lambda: TRUE)


@model('Option::zip')
def opt_zip(s, args, info, t):
    v, u = V(s, args[0]), V(s, args[1])
    return opt_case(s, v, lambda: opt_case(s, u, lambda: Some(tup(payload(v), payload(u))), lambda: NONE), lambda: NONE)


@model('OsStr::new', 'Path::new', 'Path::as_os_str')
def os_str(s, args, info, t):
    v = V(s, args[0])
    return v if lit_of(v) is not None or v.op == 'param' else None


@model('PathBuf::as_path', 'OsString::as_os_str')
def as_path(s, args, info, t):
    return V(s, args[0])


@model('Result::ok')
def res_ok(s, args, info, t):
    v = V(s, args[0])
    return res_case(s, v, lambda: Some(proj(v, '0', 'Ok')), lambda: NONE)


@model('Result::unwrap_or')
def res_unwrap_or(s, args, info, t):
    v = V(s, args[0])
    return res_case(s, v, lambda: proj(v, '0', 'Ok'), lambda: args[1])


@model('Result::unwrap_or_else')
def res_unwrap_or_else(s, args, info, t):
    v = V(s, args[0])
    return res_case(s, v, lambda: proj(v, '0', 'Ok'), lambda: s.call_value(args[1], [proj(v, '0', 'Err')], t))


@model('Result::unwrap_or_default')
def res_unwrap_or_default(s, args, info, t):
    v = V(s, args[0])
    d = default_of(s, (t or {}).get('dty'))
    return None if d is None else res_case(s, v, lambda: proj(v, '0', 'Ok'), lambda: d)


@model('Try::branch')
def branch(s, args, info, t):
    v = V(s, args[0])
    p = info['path'] if not info.get('res') else info['res']['path']
    if 'Option' in p:
        c = some_cond(v)
        return mkphi([(c, adt('ControlFlow', 'Continue', (('0', payload(v)),))), (bnot(c), adt('ControlFlow', 'Break', (('0', NONE),)))])
    c = ok_cond(v)
    return mkphi([(c, adt('ControlFlow', 'Continue', (('0', proj(v, '0', 'Ok')),))),
                  (bnot(c), adt('ControlFlow', 'Break', (('0', Err(proj(v, '0', 'Err'))),)))])


@model('FromResidual::from_residual')
def from_residual(s, args, info, t):
    return args[0]


@model('Try::from_output')
def from_output(s, args, info, t):
    p = info['path'] if not info.get('res') else info['res']['path']
    return Some(args[0]) if 'Option' in p else Ok(args[0])


# ------------------------------------------------------------ integers
@model('num::checked_add')
def checked_add(s, args, info, t):
    r = add(s.deep(args[0]), s.deep(args[1]))
    if re.search(r'impl (i64|i128|isize)', info['path']):
        return Some(r)
    c = atom(mk('fits', r))
    return mkphi([(c, Some(r)), (bnot(c), NONE)])


def wide(info):
    """sums and differences of sizes do not reach the ends of these types"""
    return re.search(r'impl (i64|i128|isize)', info['path']) is not None


@model('num::checked_neg', 'num::wrapping_neg', 'num::saturating_neg')
def checked_neg(s, args, info, t):
    if not wide(info):
        return None
    r = neg(s.deep(args[0]))
    return Some(r) if 'checked' in info['path'] else r


@model('num::wrapping_sub')
def wrapping_sub(s, args, info, t):
    return sub(s.deep(args[0]), s.deep(args[1])) if wide(info) else None


@model('num::checked_sub')
def checked_sub(s, args, info, t):
    a, b = s.deep(args[0]), s.deep(args[1])
    if wide(info):
        return Some(sub(a, b))
    mark_unsigned(a)
    mark_unsigned(b)
    c = le(b, a)
    return mkphi([(c, Some(sub(a, b))), (bnot(c), NONE)])


@model('num::checked_mul')
def checked_mul(s, args, info, t):
    r = mul(s.deep(args[0]), s.deep(args[1]))
    c = atom(mk('fits', r))
    return mkphi([(c, Some(r)), (bnot(c), NONE)])


@model('num::saturating_sub')
def saturating_sub(s, args, info, t):
    p = info['path']
    a, b = s.deep(args[0]), s.deep(args[1])
    if 'impl u' in p:
        mark_unsigned(a)
        mark_unsigned(b)
        return satsub(a, b)
    return sub(a, b)


@model('num::saturating_add', 'num::wrapping_add')
def sat_add(s, args, info, t):
    a, b = s.deep(args[0]), s.deep(args[1])
    if 'saturating' in info['path'] and any(x.op == 'mu' or x.op == 'lin' and contains_op(x, {'mu'}) for x in (a, b)):
        return add(a, b)        # a running total: that it does not reach the end of its range is taken as given
    return mk('satadd', *sorted((s.deep(args[0]), s.deep(args[1])), key=lambda x: x.i))


@model('num::abs', 'num::wrapping_abs', 'num::unsigned_abs')
def abs_(s, args, info, t):
    v = s.deep(args[0])
    # |a-b| == |b-a|
    c, d = lparts(v)
    if d:
        lead = min(d, key=lambda x: x.i)
        if d[lead] < 0:
            v = neg(v)
    return mk('abs', v)


@model('num::unsigned_abs')
def uabs(s, args, info, t):
    return abs_(s, args, info, t)


@model('cmp::max', 'Ord::max')
def max_(s, args, info, t):
    return minmax('max', s.deep(args[0]), s.deep(args[1]))


@model('cmp::min', 'Ord::min')
def min_(s, args, info, t):
    return minmax('min', s.deep(args[0]), s.deep(args[1]))


@model('Add::add')
def add_(s, args, info, t):
    a, b = s.deep(args[0]), s.deep(args[1])
    if a.op == 'cat' or (t and 'String' in t.get('dty', '')):
        return cat(a, b)
    return add(a, b)


@model('Sub::sub')
def sub_(s, args, info, t):
    a, b = s.deep(args[0]), s.deep(args[1])
    if t and t.get('dty') in ('u32', 'u64', 'usize'):
        mark_unsigned(a)
        mark_unsigned(b)
    return sub(a, b)


@model('Mul::mul')
def mul_(s, args, info, t):
    return mul(s.deep(args[0]), s.deep(args[1]))


@model('Div::div')
def div_(s, args, info, t):
    a, b = s.deep(args[0]), s.deep(args[1])
    return rdiv(a, b) if (t or {}).get('dty') in ('f64', 'f32') else idiv(a, b)


@model('Neg::neg')
def neg_(s, args, info, t):
    return neg(s.deep(args[0]))


@model('AddAssign::add_assign')
def add_assign(s, args, info, t):
    a = s.load(args[0])
    b = s.deep(args[1])
    at = (t or {}).get('at', [''])[0]
    s.store(args[0], cat(a, b) if 'String' in at else add(a, b))
    return UNIT


@model('SubAssign::sub_assign')
def sub_assign(s, args, info, t):
    s.store(args[0], sub(s.load(args[0]), s.deep(args[1])))
    return UNIT


@model('Not::not')
def not_(s, args, info, t):
    return bnot(as_bool(s.deep(args[0])))


@model('TryFrom::try_from', 'TryInto::try_into')
def try_from(s, args, info, t):
    v = s.deep(args[0])
    c = atom(mk('fits', v))
    return mkphi([(c, Ok(v)), (bnot(c), Err(mk('errval', v)))])


# ------------------------------------------------------------ comparison
@model('PartialEq::eq')
def eq_(s, args, info, t):
    return eq(s.deep(args[0]), s.deep(args[1]))


@model('PartialEq::ne')
def ne_(s, args, info, t):
    return bnot(eq(s.deep(args[0]), s.deep(args[1])))


def cmp2(s, a, b):
    """Ordering term of two values"""
    if a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0] and a.a[1] == b.a[1]:
        if a.a[0] == 'Reverse':
            return cmp2(s, b.a[2][0][1], a.a[2][0][1])
        im = s.find_impl('Ord', a, 'cmp')
        if im is not None and not im.__dict__.get('derived') and im.id not in s.stack:
            return s.inline(im, [a, b], {})
        r = ORD('Equal')
        for (f, x), (_, y) in zip(a.a[2], b.a[2]):
            r = then2(s, r, cmp2(s, x, y))
        return r
    if a is b:
        return ORD('Equal')
    if a.op == 'int' and b.op == 'int':
        return ORD('Less' if a.a[0] < b.a[0] else 'Greater' if a.a[0] > b.a[0] else 'Equal')
    return mk('cmp', ((a, b),))


def then2(s, a, b):
    if a.op == 'phi' or b.op == 'phi':
        return lift(lambda x, y: then2(s, x, y), a, b)
    if a.op == 'adt':
        return b if a.a[1] == 'Equal' else a
    if a.op == 'cmp':
        if b.op == 'cmp':
            return mk('cmp', a.a[0] + b.a[0])
        if b.op == 'adt' and b.a[1] == 'Equal':
            return a
    return mk('then', a, b)


def reverse2(s, a):
    if a.op == 'phi':
        return lift(lambda x: reverse2(s, x), a)
    if a.op == 'cmp':
        return mk('cmp', tuple((y, x) for x, y in a.a[0]))
    if a.op == 'adt':
        return ORD({'Less': 'Greater', 'Greater': 'Less'}.get(a.a[1], 'Equal'))
    return mk('revord', a)


@model('Ord::cmp')
def cmp_(s, args, info, t):
    return cmp2(s, s.deep(args[0]), s.deep(args[1]))


@model('PartialOrd::partial_cmp')
def partial_cmp(s, args, info, t):
    return Some(cmp2(s, s.deep(args[0]), s.deep(args[1])))


@model('f64::total_cmp')
def total_cmp(s, args, info, t):
    return cmp2(s, s.deep(args[0]), s.deep(args[1]))


def rel(name):
    def f(s, args, info, t):
        a, b = s.deep(args[0]), s.deep(args[1])
        at = ((t or {}).get('at') or [''])[0].lstrip('&')
        if a.op == 'adt' or b.op == 'adt' or a.op == 'cat' or 'str' in at or 'String' in at:
            c = cmp2(s, a, b)
            L, G = s.variant_test(c, 'Ordering', 'Less'), s.variant_test(c, 'Ordering', 'Greater')
            return {'lt': L, 'gt': G, 'le': bnot(G), 'ge': bnot(L)}[name]
        return {'lt': lt(a, b), 'gt': lt(b, a), 'le': bnot(lt(b, a)), 'ge': bnot(lt(a, b))}[name]
    return f


for _n in ('lt', 'gt', 'le', 'ge'):
    M['PartialOrd::' + _n] = rel(_n)


@model('Ordering::then')
def then(s, args, info, t):
    return then2(s, args[0], args[1])


@model('Ordering::then_with')
def then_with(s, args, info, t):
    return then2(s, args[0], s.call_value(args[1], [], t))


@model('Ordering::reverse')
def ord_reverse(s, args, info, t):
    return reverse2(s, args[0])


for _n, _v in (('is_eq', ('Equal',)), ('is_lt', ('Less',)), ('is_gt', ('Greater',)), ('is_ne', ('Less', 'Greater')), ('is_le', ('Less', 'Equal')), ('is_ge', ('Equal', 'Greater'))):
    def _f(s, args, info, t, vs=_v):
        return bor(*[s.variant_test(args[0], 'Ordering', v) for v in vs])
    M['Ordering::' + _n] = _f


def keys_of_cmp(o, a, b, e, ren_a, ren_b, back):
    """lexicographic key list of an Ordering term over the two symbolic elements"""
    if o.op == 'phi':
        # guarded on 'first comparison is Equal' -> lexicographic
        r = phi_then(o)
        if r is not None:
            return keys_of_cmp(r, a, b, e, ren_a, ren_b, back)
        return mkphi([(g, keys_of_cmp(x, a, b, e, ren_a, ren_b, back)) for g, x in o.a[0]])
    if o.op == 'adt':
        return mk('keys', ()) if o.a[1] == 'Equal' else mk('badcmp', o)
    if o.op != 'cmp':
        return mk('badcmp', o)
    ks = []
    for x, y in o.a[0]:
        xa, xb = bool(x.fv & ren_a), bool(x.fv & ren_b)
        ya, yb = bool(y.fv & ren_a), bool(y.fv & ren_b)
        if xa and not xb and yb and not ya and swap(x) is y:
            ks.append(key_dir(back(x), ASC))
        elif xb and not xa and ya and not yb and swap(y) is x:
            ks.append(key_dir(back(y), DESC))
        else:
            return mk('badcmp', o)
    return mk('keys', tuple(dedup_keys(ks)))


def dedup_keys(ks):
    out = []
    for k, d in ks:
        if all(k is not x for x, _ in out):
            out.append((k, d))
    return out


def key_dir(k, d):
    # a negated numeric key is the reversed order
    c, p = lparts(k)
    if p and k.op == 'lin':
        lead = min(p, key=lambda x: x.i)
        if p[lead] < 0:
            return neg(k), tm.flip(d)
    return k, d


def phi_then(o):
    alts = o.a[0]
    # {eq(first): rest, else: first}
    for g, x in alts:
        if x.op == 'cmp':
            ne = bnot(g)
            pre = TRUE
            for p, q in x.a[0]:
                pre = band(pre, eq(p, q))
            others = [(h, y) for h, y in alts if y is not x]
            if ne is pre and others:
                y = mkphi([(constrain(h, ne), y) for h, y in others])
                if y.op == 'cmp':
                    return mk('cmp', x.a[0] + y.a[0])
                if y.op == 'adt' and y.a[1] == 'Equal':
                    return x
    return None


_SWAP = {}


def swap(t):
    return subst(t, _SWAP['m'])


def order_by(s, seq, cmpf, stable, what='cmp'):
    """seq sorted by a comparator / key function"""
    segs = as_segs(seq)
    if not segs:
        return SEQ0
    if len(segs) > 1:
        Y = mk('whole', seq)
        v = elem(Y)
        e0 = segs[0][1]
        body = v
        if e0.op == 'adt' and all(x.op == 'adt' and x.a[:2] == e0.a[:2] and [f for f, _ in x.a[2]] == [f for f, _ in e0.a[2]] for _, x in segs):
            body = adt(e0.a[0], e0.a[1], [(f, proj(v, f)) for f, _ in e0.a[2]])
        segs = (((('for', v, Y),), body),)
    st, e = s.open_seg(*segs[0])
    bv = [x[1] for x in st if x[0] == 'for']
    ra, rb = {}, {}
    for v in bv:
        ra[v] = mk('elem', v.a[0], 1000 + v.a[1]) if v.op == 'elem' else v
        rb[v] = mk('elem', v.a[0], 2000 + v.a[1]) if v.op == 'elem' else v
    # nested sources mention earlier variables
    for v in bv:
        ra[v] = mk('elem', subst(v.a[0], {k: x for k, x in ra.items() if k is not v}), 1000 + v.a[1])
        rb[v] = mk('elem', subst(v.a[0], {k: x for k, x in rb.items() if k is not v}), 2000 + v.a[1])
    ixs = mk('idx', norm_stages(st))
    ea, eb = subst(e, ra), subst(e, rb)
    for v in list(ra.values()) + list(rb.values()):
        orig = v.a[0]
        if orig in MAPS:
            MAPS.add(orig)
    fa, fb = frozenset(ra.values()), frozenset(rb.values())
    _SWAP['m'] = {ra[v]: rb[v] for v in bv}
    inv = {ra[v]: v for v in bv}
    ne = len(s.effects)
    cond, mem = s.cond, dict(s.mem)
    if what == 'cmp':
        o = cmpf(ea, eb)
    else:
        ka, kb = cmpf(ea), cmpf(eb)
        o = cmp2(s, ka, kb)
    s.cond, s.mem = cond, mem
    used = [x for x in s.effects[ne:] if x.kind == 'uses']
    del s.effects[ne:]
    for x in used:          # tables consulted by the comparison
        s.effect('uses', *x.args, where=x.where)
    _SWAP['m'] = {ra[v]: rb[v] for v in bv}
    K = keys_of_cmp(o, ea, eb, e, fa, fb, lambda x: subst(x, inv))
    return mk_seq([(st + (('order', K, stable),), e)])


def sort_model(stable, what):
    def f(s, args, info, t):
        p = args[0]
        seq = s.load(p)
        if what == 'ord':
            new = order_by(s, seq, lambda a, b: cmp2(s, a, b), stable)
        elif what == 'cmp':
            new = order_by(s, seq, lambda a, b: s.call_value(args[1], [a, b], t), stable)
        else:
            new = order_by(s, seq, lambda a: s.call_value(args[1], [a], t), stable, 'key')
        s.store(p, new)
        return UNIT
    return f


for _st, _sfx in ((True, ''), (False, '_unstable')):
    M['slice::sort' + _sfx] = sort_model(_st, 'ord')
    M['slice::sort%s_by' % _sfx] = sort_model(_st, 'cmp')
    M['slice::sort%s_by_key' % _sfx] = sort_model(_st, 'key')
M['slice::sort_by_cached_key'] = sort_model(True, 'key')


@model('slice::reverse')
def rev_inplace(s, args, info, t):
    s.store(args[0], add_stage(s.load(args[0]), ('rev',)))
    return UNIT


# ------------------------------------------------------------ collections
def it(s, v):
    r = s.to_iter(v)
    return r


@model('IntoIterator::into_iter', 'slice::iter', 'Vec::iter', 'BTreeSet::iter', 'HashSet::iter', 'BTreeMap::into_iter', 'HashMap::iter', 'Vec::into_iter', 'Option::iter',
       'slice::into_iter', 'VecDeque::iter')
def into_iter(s, args, info, t):
    v = args[0]
    at = ((t or {}).get('at') or [''])[0]
    if v.op == 'ptr':
        inner = s.load(v)
        if at.startswith('&mut') and inner.op not in ('adt',):
            return mk('itermut', v)
        return inner if inner.op != 'ptr' else s.load(inner)
    v2 = V(s, v)
    if any(k in at for k in ('collections::BTreeMap', 'collections::HashMap', 'btree_map', 'hash_map')):
        mark_map(v2)
    if re.match(r"&?('\w+ )?(std|core)::option::Option<", at) and v2.op not in ('adt', 'phi', 'ptr', 'seq'):
        return mk_seq([((('if', some_cond(v2)),), payload(v2))])
    if ('HashSet' in at or 'HashMap' in at) and v2.op not in ('seq', 'map0', 'mapof', 'group'):
        return add_stage(v2, ('hash',))
    return v2


def mark_map(v):
    if v.op not in ('seq', 'adt', 'phi', 'map0', 'mapof', 'group'):
        MAPS.add(v)


@model('BTreeMap::iter', 'HashMap::iter')
def map_iter(s, args, info, t):
    v = s.deep(args[0])
    mark_map(v)
    return v if 'Hash' not in info['path'] or v.op in ('mapof', 'group') else add_stage(v, ('hash',))


@model('BTreeMap::keys', 'HashMap::keys', 'BTreeMap::into_keys', 'HashMap::into_keys')
def map_keys(s, args, info, t):
    v = s.deep(args[0])
    mark_map(v)
    r = seq_map(v, lambda e: proj(e, '0'))
    return r if 'Hash' not in info['path'] or v.op in ('mapof', 'group') else add_stage(r, ('hash',))


@model('BTreeMap::values', 'HashMap::values', 'BTreeMap::into_values', 'HashMap::into_values')
def map_values(s, args, info, t):
    v = s.deep(args[0])
    mark_map(v)
    r = seq_map(v, lambda e: proj(e, '1'))
    return r if 'Hash' not in info['path'] or v.op in ('mapof', 'group') else add_stage(r, ('hash',))


@model('Iterator::map')
def it_map(s, args, info, t):
    q = it(s, args[0])
    if q is None:
        return None
    return mk('seq', ()) if not as_segs(q) else mk_seq(s.each(q, lambda e: s.call_value(args[1], [e], t)))


@model('Iterator::inspect')
def it_inspect(s, args, info, t):
    q = it(s, args[0])
    if q is None:
        return None
    s.each(q, lambda e: s.call_value(args[1], [e], t))
    return q


def it_filter(s, q, pred):
    segs = s.each(q, pred)
    out = []
    src = [s.open_seg(st, e) for st, e in as_segs(q)]
    for (st, c), (_, e) in zip(segs, src):
        out.append((st + (('if', as_bool(c)),), e))
    return mk_seq(out)


@model('Iterator::filter')
def it_filter_m(s, args, info, t):
    q = it(s, args[0])
    if q is None:
        return None
    return it_filter(s, q, lambda e: as_bool(s.call_value(args[1], [e], t)))


@model('Iterator::filter_map')
def it_filter_map(s, args, info, t):
    q = it(s, args[0])
    if q is None:
        return None
    segs = s.each(q, lambda e: s.call_value(args[1], [e], t))
    return mk_seq([(st + (('if', some_cond(o)),), payload(o)) for st, o in segs if some_cond(o) is not FALSE])


@model('Iterator::flat_map')
def it_flat_map(s, args, info, t):
    q = it(s, args[0])
    if q is None:
        return None
    segs = s.each(q, lambda e: s.call_value(args[1], [e], t))
    return flatten(s, segs)


def flatten(s, segs):
    out = []
    for st, o in segs:
        x = s.to_iter(o)
        if x is None:
            return None
        ctx = s.ctx
        s.ctx = s.ctx + tuple(st)
        if is_for(st) and len(as_segs(x)) > 1:      # several pieces for each element: together
            x = tm.together(x)
        for s2, e2 in as_segs(x):
            s2, e2 = s.open_seg(s2, e2)
            out.append((tuple(st) + s2, e2))
        s.ctx = ctx
    return mk_seq(out)


@model('Iterator::flatten', 'slice::concat')
def it_flatten(s, args, info, t):
    q = it(s, args[0])
    if q is None:
        return None
    if (t or {}).get('dty', '').startswith('std::string::String'):
        return mk_cat([(st, piece(e)) for st, e in as_segs(q)])
    return flatten(s, [s.open_seg(st, e) for st, e in as_segs(q)])


@model('Iterator::take', 'Iterator::skip')
def it_take(s, args, info, t):
    q = it(s, args[0])
    if q is None:
        return None
    n = s.deep(args[1])
    mark_unsigned(n)
    return add_stage(q, ('take' if info['path'].endswith('take') else 'skip', n))


@model('Iterator::take_while')
def it_take_while(s, args, info, t):
    q = it(s, args[0])
    if q is None or len(as_segs(q)) != 1:
        return None
    segs = s.each(q, lambda e: as_bool(s.call_value(args[1], [e], t)))
    st, e = s.open_seg(*as_segs(q)[0])
    return mk_seq([(st + (('while', segs[0][1]),), e)])


@model('Iterator::step_by', 'slice::chunks', 'slice::windows')
def it_stepby(s, args, info, t):
    return add_stage(it(s, args[0]), ('step', s.deep(args[1])))


@model('BTreeMap::range', 'BTreeSet::range')
def map_range(s, args, info, t):
    v = s.deep(args[0])
    r = s.deep(args[1])
    if r.op != 'adt':
        return None
    mark_map(v) if 'Map' in info['path'] else None
    f = dict(r.a[2]) if r.a[2] and not isinstance(r.a[2][0][0], int) else {}
    lo, hi = f.get('start'), f.get('end')
    if r.a[0] not in ('Range', 'RangeFrom', 'RangeTo', 'RangeToInclusive', 'RangeFull'):
        return None
    segs = []
    for st, e in as_segs(v):
        k = proj(e, '0') if 'Map' in info['path'] else e
        c = []
        if lo is not None:
            c.append(le(lo, k))
        if hi is not None:
            c.append(le(k, hi) if r.a[0] == 'RangeToInclusive' else lt(k, hi))
        segs.append((st + ((('if', band(*c)),) if c else ()), e))
    return mk_seq(segs)


@model('str::find', 'str::rfind')
def str_find(s, args, info, t):
    x, p = s.deep(args[0]), s.deep(args[1])
    if p.op != 'char':
        return None
    v = elem(mk('charindices', x))
    st = (('for', v, mk('charindices', x)), ('if', eq(p, proj(v, '1'))))
    h = exists(st)
    if info['path'].endswith('rfind'):
        st += (('rev',),)
    return mkphi([(h, Some(proj(first(st, v), '0'))), (bnot(h), NONE)])


@model('Iterator::rev', 'DoubleEndedIterator::rev')
def it_rev(s, args, info, t):
    q = it(s, args[0])
    if q is None:
        return None
    return add_stage(q, ('rev',))


@model('Iterator::chain')
def it_chain(s, args, info, t):
    a, b = it(s, args[0]), it(s, args[1])
    if a is None or b is None:
        return None
    return mk_seq(as_segs(a) + as_segs(b))


@model('iter::once')
def it_once(s, args, info, t):
    return mk_seq([((), args[0])])


@model('iter::empty')
def it_empty(s, args, info, t):
    return SEQ0


@model('iter::repeat')
def it_repeat(s, args, info, t):
    return mk('repeatforever', s.deep(args[0]))


@model('Iterator::enumerate')
def it_enumerate(s, args, info, t):
    q = it(s, args[0])
    if q is None:
        return None
    segs = as_segs(q)
    out = []
    base = I(0)
    for st, e in segs:
        st, e = s.open_seg(st, e)
        if is_for(st):
            if len(st) == 1 and st[0][0] == 'for' and st[0][2].op == 'range' and st[0][2].a[0] is I(0):
                i = st[0][1]
            else:
                i = mk('idx', norm_stages(st))
        else:
            i = I(0)
        out.append((st, tup(add(base, i), e)))
        base = add(base, count(st))
    return mk_seq(out)


@model('Iterator::zip', 'iter::zip')
def it_zip(s, args, info, t):
    a, b = it(s, args[0]), it(s, args[1])
    if a is None or b is None:
        return None
    if a.op == 'seq' and b.op == 'seq' and all(st == () for st, _ in a.a[0]) and all(st == () for st, _ in b.a[0]):
        return mk_seq([((), tup(x, y)) for (_, x), (_, y) in zip(a.a[0], b.a[0])])
    sa, sb = as_segs(a), as_segs(b)
    if len(sa) == 1 and len(sb) == 1:
        (st, e), (su, f) = sa[0], sb[0]
        st, e = s.open_seg(st, e)
        if len(su) == 1 and su[0][0] == 'for' and su[0][2].op in ('range', 'rangefrom'):
            lo = su[0][2].a[0]
            v = su[0][1]
            if su[0][2].op == 'rangefrom' or length(b) is length(a) or s.known(eq(length(a), length(b))):
                ix = add(lo, idx_of(st))
                return mk_seq([(st, tup(e, f if f is v and v is ix else subst(f, {v: ix})))])
        if norm_stages(st) == norm_stages(su):
            return mk_seq([(st, tup(e, f))])
    import os, debug
    Z = mk('zip', a, b)
    v = elem(Z)
    return mk_seq([((('for', v, Z),), tup(zget(a, v, 0), zget(b, v, 1)))])


def zget(x, v, k):
    return mk('zipped', v, I(k))


@model('Iterator::unzip', 'Iterator::partition')
def it_unzip(s, args, info, t):
    q = it(s, args[0])
    if q is None:
        return None
    if info['path'].endswith('unzip'):
        return tup(seq_map(q, lambda e: proj(e, '0')), seq_map(q, lambda e: proj(e, '1')))
    yes = it_filter(s, q, lambda e: as_bool(s.call_value(args[1], [e], t)))
    no = it_filter(s, q, lambda e: bnot(as_bool(s.call_value(args[1], [e], t))))
    return tup(yes, no)


def collect_as(s, q, ty):
    for k in ('BTreeSet', 'HashSet'):
        if ty.startswith('std::collections::' + k):
            segs = as_segs(q)
            if not segs:
                return mk('map0', k)
            if k == 'BTreeSet':
                r = order_by(s, q, lambda a, b: cmp2(s, a, b), False)
                st, e = r.a[0][0] if r.op == 'seq' else as_segs(r)[0]
                if not any(x[0] == 'order' for x in st):       # the keys of an ordered map: already in order, each once
                    return r
                K = [x for x in st if x[0] == 'order'][-1][1]
                if K is mk('keys', ((e, ASC),)):
                    return mk_seq([(tuple(x for x in st if x[0] != 'order' or x is not [y for y in st if y[0] == 'order'][-1]) + (('uniq',), ('order', K, False)), e)])
                return mk_seq([(st + (('uniq', K),), e)])
            return set_of(k, q)
    for k in ('BTreeMap', 'HashMap'):
        if ty.startswith('std::collections::' + k):
            # a map rebuilt from the entries of an ordered map keeps its keys
            return map_of(mk('map0', k), q)
    if ty.startswith('std::string::String'):
        return mk_cat([(st, piece(e)) for st, e in as_segs(q)])
    return q


def strip_res(s, q, want):
    """the payloads of the elements when every one of them is Ok (Some): what follows from that for each element is known"""
    segs = []
    for st, e in as_segs(q):
        ok = ok_cond(e) if want == 'Ok' else some_cond(e)
        k = max([i for i, x in enumerate(st) if x[0] != 'if'], default=-1) + 1
        g = band(*[x[1] for x in st[k:]]) if st[k:] else TRUE
        imp = bor(bnot(g), ok)
        for a in list(BD.support(imp.a[0])):
            a = atom(a)
            v = True if band(imp, bnot(a)) is FALSE else False if band(imp, a) is FALSE else None
            if v is not None:
                st = st[:k] + tuple(('if', ev.cofactor(x[1], a, v)) for x in st[k:])
                if e.op == 'phi':
                    e = mkphi([(ev.cofactor(h, a, v), x) for h, x in e.a[0]])
        st = st[:k] + tuple(x for x in st[k:] if x[1] is not TRUE)
        segs.append((st, proj(e, '0', want)))
    return mk_seq(segs)


@model('Iterator::collect', 'FromIterator::from_iter')
def it_collect(s, args, info, t):
    q = it(s, args[0])
    if q is None:
        return None
    ty = (t or {}).get('dty', '')
    if ty.startswith('std::result::Result<'):
        bad = FALSE
        for st, e in as_segs(q):
            if ok_cond(e) is not TRUE:
                bad = bor(bad, exists(tuple(st) + (('if', bnot(ok_cond(e))),)))
        v = collect_as(s, strip_res(s, q, 'Ok'), inner_ty(ty))
        return mkphi([(bnot(bad), Ok(v)), (bad, Err(mk('errval', q)))])
    if ty.startswith('std::option::Option<'):
        bad = FALSE
        for st, e in as_segs(q):
            if some_cond(e) is not TRUE:
                bad = bor(bad, exists(tuple(st) + (('if', bnot(some_cond(e))),)))
        v = collect_as(s, strip_res(s, q, 'Some'), inner_ty(ty))
        return mkphi([(bnot(bad), Some(v)), (bad, NONE)])
    return collect_as(s, q, ty)


def inner_ty(ty):
    i = ty.index('<')
    return ty[i + 1:]


@model('Iterator::for_each')
def it_for_each(s, args, info, t):
    a = s.load(args[0])
    if a.op == 'itermut':
        m = ev.MutIter(s, a)
        if not m.ok:
            raise ev.Budget('changes the elements of %s in place' % show(a)[:80])
        m.each(lambda x: s.call_value(args[1], [x], t))
        return UNIT
    q = it(s, args[0])
    if q is None:
        return None
    s.each(q, lambda e: s.call_value(args[1], [e], t))
    return UNIT


@model('Iterator::try_for_each')
def it_try_for_each(s, args, info, t):
    q = it(s, args[0])
    if q is None:
        return None
    bad = FALSE
    for st, e in s.each(q, lambda e: s.call_value(args[1], [e], t)):
        c = ok_cond(e)
        if c is not TRUE:
            bad = bor(bad, exists(tuple(st) + (('if', bnot(c)),)))
    return mkphi([(bnot(bad), Ok(UNIT)), (bad, Err(mk('errval', UNIT)))])


@model('Iterator::fold')
def it_fold(s, args, info, t):
    q = it(s, args[0])
    if q is None:
        return None
    p = s.newcell(args[1], 'acc')

    def body(e):
        s.mem[p.a[0]] = s.call_value(args[2], [s.mem[p.a[0]], e], t)
        return [(s.cond, s.mem)], []
    r = s.run_segs(as_segs(q), body)
    s.mem, s.cond = r['mem'], r['cond']
    return s.mem[p.a[0]]


@model('Iterator::try_fold')
def it_try_fold(s, args, info, t):
    q = it(s, args[0])
    if q is None:
        return None
    p = s.newcell(args[1], 'acc')

    def body(e):
        v = s.call_value(args[2], [s.mem[p.a[0]], e], t)
        s.mem[p.a[0]] = proj(v, '0', 'Ok' if (t or {}).get('dty', '').startswith('std::result') else 'Some')
        return [(s.cond, s.mem)], []
    r = s.run_segs(as_segs(q), body)
    s.mem, s.cond = r['mem'], r['cond']
    return Ok(s.mem[p.a[0]]) if (t or {}).get('dty', '').startswith('std::result') else Some(s.mem[p.a[0]])


@model('Iterator::sum')
def it_sum(s, args, info, t):
    q = it(s, args[0])
    if q is None:
        return None
    return seq_sum(q, (t or {}).get('dty') in ('f64', 'f32'))


@model('Iterator::count', 'ExactSizeIterator::len', 'Vec::len', 'slice::len', 'BTreeMap::len', 'BTreeSet::len', 'HashMap::len', 'HashSet::len', 'String::len', 'str::len')
def it_count(s, args, info, t):
    v = s.deep(args[0])
    if 'String' in info['path'] or '<impl str>' in info['path']:
        if v.op == 'cat':
            return length(v)
        return mk('len', v)
    q = it(s, v)
    if q is None:
        r = mk('len', v)
        mark_unsigned(r)
        return r
    return length(q)


@model('Vec::is_empty', 'slice::is_empty', 'BTreeMap::is_empty', 'BTreeSet::is_empty', 'HashMap::is_empty', 'HashSet::is_empty', 'String::is_empty', 'str::is_empty', 'ExactSizeIterator::is_empty')
def is_empty(s, args, info, t):
    return iszero(it_count(s, args, info, t)) if ('String' in info['path'] or 'impl str' in info['path']) else empty_seq(s, args)


def empty_seq(s, args):
    q = it(s, s.deep(args[0]))
    if q is None:
        return atom(mk('empty', s.deep(args[0])))
    return bnot(nonempty(q))


@model('Iterator::any')
def it_any(s, args, info, t):
    q = it(s, args[0])
    if q is None:
        return None
    r = FALSE
    for st, c in s.each(q, lambda e: as_bool(s.call_value(args[1], [e], t))):
        r = bor(r, exists(tuple(st) + (('if', as_bool(c)),)))
    return r


@model('Iterator::all')
def it_all(s, args, info, t):
    q = it(s, args[0])
    if q is None:
        return None
    r = TRUE
    for st, c in s.each(q, lambda e: as_bool(s.call_value(args[1], [e], t))):
        r = band(r, bnot(exists(tuple(st) + (('if', bnot(as_bool(c))),))))
    return r


def first_opt(q):
    segs = as_segs(q)
    alts = []
    rest = TRUE
    for st, e in segs:
        c = exists(st)
        alts.append((band(rest, c), Some(first(st, e))))
        rest = band(rest, bnot(c))
    alts.append((rest, NONE))
    return mkphi(alts)


@model('Iterator::find')
def it_find(s, args, info, t):
    q = it(s, args[0])
    if q is None:
        return None
    return first_opt(it_filter(s, q, lambda e: as_bool(s.call_value(args[1], [e], t))))


@model('Iterator::find_map')
def it_find_map(s, args, info, t):
    q = it_filter_map(s, args, info, t)
    return None if q is None else first_opt(q)


@model('Iterator::position')
def it_position(s, args, info, t):
    q = it(s, args[0])
    if q is None:
        return None
    segs = s.each(q, lambda e: as_bool(s.call_value(args[1], [e], t)))
    return first_opt(mk_seq([(tuple(st) + (('if', as_bool(c)),), mk('idx', norm_stages(st))) for st, c in segs]))


@model('slice::first', 'Iterator::next', 'BTreeMap::first_key_value', 'BTreeSet::first')
def it_first(s, args, info, t):
    a = args[0]
    v = s.load(a) if a.op == 'ptr' else a
    while v.op == 'ptr':
        a, v = v, s.load(v)
    if v.op == 'pull':
        return Some(v.a[0])
    if info['path'].endswith('next'):
        if v.op == 'adt' and v.a[0] not in ('Range', 'Option'):
            im = s.find_impl('Iterator', v, 'next')
            if im is not None:
                return s.inline(im, [a], {})
        if v.op == 'adt' and v.a[0] == 'RangeFrom' and a.op == 'ptr':
            n = proj(v, 'start')
            s.store(a, adt('RangeFrom', 'RangeFrom', [('start', add(n, I(1)))]))
            return Some(n)
        q = it(s, v)
        if q is None:
            return None
        if a.op == 'ptr':
            s.store(a, add_stage(q, ('skip', I(1))))
        return first_opt(q)
    q = it(s, v)
    return None if q is None else first_opt(q)


@model('slice::last', 'Iterator::last', 'DoubleEndedIterator::next_back', 'BTreeMap::last_key_value', 'BTreeSet::last')
def it_last(s, args, info, t):
    v = s.deep(args[0])
    q = it(s, v)
    if q is None:
        return None
    if len(as_segs(q)) == 1:
        return first_opt(add_stage(q, ('rev',)))
    return None


@model('Iterator::rposition')
def it_rposition(s, args, info, t):
    q = it(s, args[0])
    if q is None:
        return None
    segs = s.each(q, lambda e: as_bool(s.call_value(args[1], [e], t)))
    if len(segs) != 1:
        return None
    hits = mk_seq([(tuple(st) + (('if', as_bool(c)),), mk('idx', norm_stages(st))) for st, c in segs])
    return first_opt(add_stage(hits, ('rev',)))


@model('Iterator::nth')
def it_nth(s, args, info, t):
    q = it(s, s.deep(args[0]))
    if q is None:
        return None
    return first_opt(add_stage(q, ('skip', s.deep(args[1]))))


def ext_minmax(kind):
    def f(s, args, info, t):
        q = it(s, args[0])
        if q is None:
            return None
        by = info['path'].split('::')[-1]
        if by in ('max', 'min'):
            segs = as_segs(q)
            if len(segs) == 1:
                st, e = segs[0]
                c = exists(st)
                return mkphi([(c, Some(agg_minmax(kind, norm_stages(st), e))), (bnot(c), NONE)])
            return None
        if by.endswith('by_key'):
            r = order_by(s, q, lambda a: s.call_value(args[1], [a], t), True, 'key')
        else:
            r = order_by(s, q, lambda a, b: s.call_value(args[1], [a, b], t), True)
        # max: last maximum
        return first_opt(add_stage(r, ('rev',)) if kind == 'max' else r)
    return f


for _k in ('max', 'min'):
    for _b in ('', '_by', '_by_key'):
        M['Iterator::%s%s' % (_k, _b)] = ext_minmax(_k)


@model('Vec::push', 'VecDeque::push_back')
def vec_push(s, args, info, t):
    p = args[0]
    s.modify(p, lambda v: push(v, args[1]))
    return UNIT


@model('Vec::insert')
def vec_insert(s, args, info, t):
    if s.deep(args[1]) is not I(0):
        return None
    s.store(args[0], concat(mk_seq([((), s.deep(args[2]))]), s.load(args[0])))
    return UNIT


@model('Vec::extend_from_slice', 'Extend::extend', 'Vec::append', 'Vec::extend')
def vec_extend(s, args, info, t):
    p = args[0]
    v = s.load(p)
    q = it(s, s.deep(args[1]))
    if q is None:
        return None
    at = ((t or {}).get('at') or [''])[0]
    if 'collections::' in at:
        for k in ('BTreeSet', 'HashSet'):
            if 'collections::' + k in at and (v.op == 'seq' or v.op == 'map0'):
                s.store(p, set_of(k, concat(mk('seq', as_segs(v)) if v.op == 'seq' else SEQ0, q)))
                return UNIT
        return None
    s.modify(p, lambda v: concat(v if v.op == 'seq' else mk('seq', as_segs(v)), q))
    if info['path'].endswith('append'):
        s.store(args[1], SEQ0)
    return UNIT


@model('Vec::truncate')
def vec_truncate(s, args, info, t):
    p = args[0]
    n = s.deep(args[1])
    mark_unsigned(n)
    s.store(p, add_stage(s.load(p), ('take', n)))
    return UNIT


@model('Vec::clear', 'BTreeMap::clear', 'HashSet::clear', 'BTreeSet::clear', 'HashMap::clear')
def vec_clear(s, args, info, t):
    p = args[0]
    v = s.load(p)
    s.store(p, SEQ0 if 'Vec' in info['path'] else mk('map0', short(info['path']).split('::')[0]))
    return UNIT


@model('Vec::pop')
def vec_pop(s, args, info, t):
    p = args[0]
    v = s.load(p)
    if v.op == 'seq' and v.a[0] and v.a[0][-1][0] == ():
        s.store(p, mk_seq(v.a[0][:-1]))
        return Some(v.a[0][-1][1])
    return None


@model('Vec::retain', 'BTreeSet::retain')
def vec_retain(s, args, info, t):
    p = args[0]
    v = s.load(p)
    s.store(p, it_filter(s, it(s, v), lambda e: as_bool(s.call_value(args[1], [e], t))))
    return UNIT


@model('BTreeMap::retain', 'HashMap::retain')
def map_retain(s, args, info, t):
    p = args[0]
    q = it(s, s.load(p))
    if q is None:
        return None
    s.store(p, map_of(mk('map0', short(info['path']).split('::')[0]),
                      it_filter(s, q, lambda e: as_bool(s.call_value(args[1], [proj(e, '0'), s.newcell(proj(e, '1'))], t)))))
    return UNIT


@model('Vec::split_off')
def vec_split_off(s, args, info, t):
    p = args[0]
    v = s.load(p)
    n = s.deep(args[1])
    mark_unsigned(n)
    s.store(p, add_stage(v, ('take', n)))
    return add_stage(v, ('skip', n))


@model('Vec::drain')
def vec_drain(s, args, info, t):
    p = args[0]
    v = s.load(p)
    r = args[1]
    n = None
    if r.op == 'adt' and r.a[0] == 'RangeFrom':
        s.store(p, add_stage(v, ('take', r.a[2][0][1])))
        return add_stage(v, ('skip', r.a[2][0][1]))
    if r.op == 'adt' and r.a[0] == 'RangeTo':
        s.store(p, add_stage(v, ('skip', r.a[2][0][1])))
        return add_stage(v, ('take', r.a[2][0][1]))
    if r.op == 'adt' and r.a[0] == 'RangeFull':
        s.store(p, SEQ0)
        return v
    return None


@model('slice::split_at')
def split_at(s, args, info, t):
    v, n = s.deep(args[0]), s.deep(args[1])
    mark_unsigned(n)
    return tup(add_stage(v, ('take', n)), add_stage(v, ('skip', n)))


@model('Vec::dedup', 'Vec::dedup_by_key', 'Vec::dedup_by')
def dedup(s, args, info, t):
    s.store(args[0], add_stage(s.load(args[0]), ('uniqadj',)))
    return UNIT


@model('Index::index', 'IndexMut::index_mut')
def index_(s, args, info, t):
    v = args[0]
    mutp = info['path'].endswith('index_mut')
    k = s.deep(args[1])
    base = s.deep(v)
    if k.op == 'adt' and k.a[0] in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull', 'RangeInclusive', 'RangeToInclusive'):
        f = dict(k.a[2])
        if k.a[0] == 'RangeInclusive':
            f['end'] = tm.add(f['end'], I(1))
            k = adt('Range', 'Range', [('start', f['start']), ('end', f['end'])])
        if k.a[0] == 'Range' and f['start'] is I(0):
            k = adt('RangeTo', 'RangeTo', [('end', f['end'])])
        at = ((t or {}).get('at') or [''])[0]
        p = (info.get('res') or info)['path']
        if re.match(r"&*('\w+ )?(mut )?(str|(std|alloc)::string::String)$", at) or 'for str' in p or re.search(r'\bString as |for (\w+::)*String\b', p):
            return base if k.a[0] == 'RangeFull' else mk('substr', base, k)
        if k.a[0] == 'RangeFull':
            return v if mutp else base
        if base.op not in ('ptr', 'adt'):
            q = it(s, base)
            n = length(q) if q is not None else mk('len', base)
            a, z = f.get('start', I(0)), f.get('end', n)
            mark_unsigned(a)
            mark_unsigned(z)
            s.mayfail(band(le(a, z), le(z, n)), 'slice::range', base, k)
        if k.a[0] == 'RangeTo':
            return add_stage(base, ('take', f['end']))
        if k.a[0] == 'RangeFrom':
            return add_stage(base, ('skip', f['start']))
        if k.a[0] == 'Range':
            return add_stage(base, ('skip', f['start']), ('take', sub(f['end'], f['start'])))
        return mk('slice', base, k)
    p = (info.get('res') or info)['path']
    if 'BTreeMap' in p or 'HashMap' in p:
        s.mayfail(some_cond(map_get(base, k)), 'Map::index', base, k)
        return map_at(base, k)
    q = it(s, base) if base.op not in ('ptr', 'adt') else None
    n = length(q) if q is not None else mk('len', base)
    mark_unsigned(k)
    s.mayfail(lt(k, n), 'slice::index', base, k)
    if mutp and v.op == 'ptr':
        return mk('ptr', v.a[0], v.a[1] + (('ix', k),))
    if base.op == 'adt':
        return None
    return index(base, k)


@model('slice::get', 'Vec::get')
def slice_get(s, args, info, t):
    v, k = s.deep(args[0]), s.deep(args[1])
    if k.op == 'adt' and k.a[0].startswith('Range'):
        f = dict(k.a[2])
        if k.a[0] in ('RangeFrom', 'RangeTo'):
            q = it(s, v)
            if q is None:
                return mk('getrange', v, k)
            n = f['start'] if k.a[0] == 'RangeFrom' else f['end']
            mark_unsigned(n)
            c = le(n, length(q))
            return mkphi([(c, Some(add_stage(v, ('skip' if k.a[0] == 'RangeFrom' else 'take', n)))), (bnot(c), NONE)])
        return mk('getrange', v, k)
    if k.op == 'idx' and index(v, k).op != 'index':
        return Some(index(v, k))
    q = it(s, v)
    n = length(q) if q is not None else mk('len', v)
    mark_unsigned(k)
    c = lt(k, n)
    return mkphi([(c, Some(index(v, k))), (bnot(c), NONE)])


@model('slice::get_mut')
def slice_get_mut(s, args, info, t):
    v, k = s.load(args[0]), s.deep(args[1])
    c = lt(k, length(v))
    return mkphi([(c, Some(mk('ptr', args[0].a[0], args[0].a[1] + (('ix', k),)))), (bnot(c), NONE)])


@model('RangeInclusive::new')
def range_incl(s, args, info, t):
    return adt('RangeInclusive', 'RangeInclusive', [('start', s.deep(args[0])), ('end', s.deep(args[1]))])


@model('Range::contains', 'RangeInclusive::contains', 'RangeFrom::contains', 'RangeTo::contains')
def range_has(s, args, info, t):
    r, x = s.deep(args[0]), s.deep(args[1])
    if r.op != 'adt':
        return None
    f = dict(r.a[2])
    c = TRUE
    if 'start' in f:
        c = band(c, le(f['start'], x))
    if 'end' in f:
        c = band(c, le(x, f['end']) if r.a[0] == 'RangeInclusive' else lt(x, f['end']))
    return c


@model('str::split_at')
def str_split_at(s, args, info, t):
    x, n = s.deep(args[0]), s.deep(args[1])
    return tup(mk('substr', x, adt('RangeTo', 'RangeTo', [('end', n)])), mk('substr', x, adt('RangeFrom', 'RangeFrom', [('start', n)])))


@model('slice::split_at')
def slice_split_at(s, args, info, t):
    x, n = s.deep(args[0]), s.deep(args[1])
    return tup(add_stage(x, ('take', n)), add_stage(x, ('skip', n)))


@model('slice::contains', 'BTreeSet::contains', 'HashSet::contains')
def contains(s, args, info, t):
    return set_has(s.deep(args[0]), s.deep(args[1]))


@model('BTreeMap::contains_key', 'HashMap::contains_key')
def contains_key_(s, args, info, t):
    m = s.deep(args[0])
    mark_map(m)
    return contains_key(m, s.deep(args[1]))


@model('BTreeMap::get', 'HashMap::get')
def map_get_(s, args, info, t):
    m = s.deep(args[0])
    mark_map(m)
    return map_get(m, s.deep(args[1]))


@model('BTreeMap::get_mut', 'HashMap::get_mut')
def map_get_mut(s, args, info, t):
    m = s.load(args[0])
    k = s.deep(args[1])
    c = contains_key(m, k)
    return mkphi([(c, Some(mk('ptr', args[0].a[0], args[0].a[1] + (('at', k),)))), (bnot(c), NONE)])


@model('BTreeMap::insert', 'HashMap::insert')
def map_insert(s, args, info, t):
    p = args[0]
    m = s.load(p)
    k = s.deep(args[1])
    x = s.deep(args[2])
    s.modify(p, lambda v: mk('mapput', v, k, x))
    return map_get(m, k)


@model('BTreeSet::insert', 'HashSet::insert')
def set_insert(s, args, info, t):
    p = args[0]
    m = s.load(p)
    k = s.deep(args[1])
    s.modify(p, lambda v: mk('setput', v, k))
    return bnot(set_has(m, k))


@model('BTreeSet::remove', 'HashSet::remove')
def set_remove(s, args, info, t):
    p = args[0]
    m = s.load(p)
    k = s.deep(args[1])
    s.store(p, mk('setdel', m, k))
    return set_has(m, k)


@model('BTreeMap::remove', 'HashMap::remove')
def map_remove(s, args, info, t):
    p = args[0]
    m = s.load(p)
    k = s.deep(args[1])
    s.store(p, mk('mapdel', m, k))
    return map_get(m, k)


@model('BTreeMap::entry', 'HashMap::entry')
def map_entry(s, args, info, t):
    p = args[0]
    return mk('entry', p, s.deep(args[1]))


@model('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default')
def or_insert(s, args, info, t):
    e = args[0]
    if e.op != 'entry':
        return None
    n = info['path'].split('::')[-1]
    if n == 'or_insert':
        d = args[1]
    elif n == 'or_insert_with':
        d = s.call_value(args[1], [], t)
    else:
        d = default_of(s, (t or {}).get('dty', '').replace('&mut ', '', 1))
        if d is None:
            return None
    p, k = e.a
    if p.op != 'ptr':
        return None
    r = mk('ptr', p.a[0], p.a[1] + (('ent', k, d),))
    s.store(r, s.load(r))           # the place is made even when nothing is written to it
    return r


@model('Entry::and_modify')
def and_modify(s, args, info, t):
    e = args[0]
    p, k = e.a
    if p.op != 'ptr':
        return None
    m = s.load(p)
    c = contains_key(m, k)
    s.under(c, lambda: s.call_value(args[1], [mk('ptr', p.a[0], p.a[1] + (('at', k),))], t))
    return e


@model('slice::iter_mut', 'Vec::iter_mut', 'VecDeque::iter_mut')
def iter_mut(s, args, info, t):
    return mk('itermut', args[0])


@model('BTreeMap::iter_mut', 'HashMap::iter_mut')
def iter_mut_pairs(s, args, info, t):
    return mk('itermut', args[0], 'pairs')


@model('BTreeMap::values_mut', 'HashMap::values_mut')
def iter_mut_vals(s, args, info, t):
    return mk('itermut', args[0], 'vals')


@model('slice::join')
def join(s, args, info, t):
    v, sep = s.deep(args[0]), s.deep(args[1])
    return mk('join', v, sep) if v is not SEQ0 else S('')


# ------------------------------------------------------------ strings and formatting
@model('String::push_str', 'Write::write_str_')
def push_str(s, args, info, t):
    x = s.deep(args[1])
    s.modify(args[0], lambda v: cat(v, x))
    return UNIT


@model('String::push')
def push_char(s, args, info, t):
    x = to_str(s.deep(args[1]))
    s.modify(args[0], lambda v: cat(v, x))
    return UNIT


@model('str::repeat')
def str_repeat(s, args, info, t):
    return mk('strrepeat', s.deep(args[0]), s.deep(args[1]))


@model('str::chars')
def chars(s, args, info, t):
    return mk('chars', s.deep(args[0]))


@model('str::char_indices')
def char_indices(s, args, info, t):
    return mk('charindices', s.deep(args[0]))


@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex')
def fmt_arg(s, args, info, t):
    n = info['path'].split('::')[-1]
    return adt('fmtarg', n, (('v', s.deep(args[0])),))


def parse_template(bs):
    """pieces of a compiled format template: ('lit', str) or ('arg', index or None, flags, width, precision)"""
    out = []
    i = 0
    n = len(bs)
    auto = 0
    while i < n:
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(('lit', bs[i:i + b].decode('utf8', 'replace')))
            i += b
        elif b == 0x80:
            l = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(('lit', bs[i:i + l].decode('utf8', 'replace')))
            i += l
        else:
            flags = width = prec = arg = None
            if b & 1:
                flags = int.from_bytes(bs[i:i + 4], 'little')
                i += 4
            if b & 2:
                width = int.from_bytes(bs[i:i + 2], 'little')
                i += 2
            if b & 4:
                prec = int.from_bytes(bs[i:i + 2], 'little')
                i += 2
            if b & 8:
                arg = int.from_bytes(bs[i:i + 2], 'little')
                i += 2
            if arg is None:
                arg = auto
            auto = arg + 1
            out.append(('arg', arg, flags, width, prec, b & 0x10, b & 0x20))
    return out


@model('Arguments::new')
def args_new(s, args, info, t):
    tpl = s.deep(args[0])
    arr = s.deep(args[1])
    if tpl.op == 'seq':
        try:
            bs = bytes(e.a[0] for st, e in tpl.a[0])
        except Exception:
            return None
    elif tpl.op == 'bytes':
        bs = tpl.a[0]
    else:
        return None
    if isinstance(bs, str):
        bs = bs.encode('latin1')
    vals = [e for st, e in as_segs(arr)]
    segs = []
    for p in parse_template(bs):
        if p[0] == 'lit':
            segs.append(((), mk('lit', p[1])))
        else:
            _, ix, flags, width, prec, wi, pi = p
            a = vals[ix]
            if a.op != 'adt' or a.a[0] != 'fmtarg':
                return None
            v = a.a[2][0][1]
            spec = {'new_display': '', 'new_debug': '?', 'new_lower_hex': 'x', 'new_upper_hex': 'X'}[a.a[1]]
            pre = ''
            if flags is not None:
                fill = flags & 0x1fffff
                if flags & (1 << 21):
                    pre += '+'
                rest = flags & ~(0x1fffff | 1 << 21 | 1 << 28 | 1 << 27)
                if rest != 0x60000000 and rest != 0xe0000000 or (fill != 0x20 and fill):
                    pre = 'f%x' % flags if prec is None or width is not None else pre
            w = ''
            if wi:
                w = 'w$%d' % width
                v = tup(v, proj(vals[width], 'v'))
            elif width is not None:
                w = str(width)
            pr = ''
            if pi:
                pr = '.p$%d' % prec
                v = tup(v, proj(vals[prec], 'v'))
            elif prec is not None:
                pr = '.%d' % prec
            sp = '{' + (':' if pre or w or pr or spec else '') + pre + w + pr + spec + '}'
            x = to_str(v, sp)
            segs.append(((), piece(x)))
    return mk_cat(segs)


@model('Arguments::from_str', 'Arguments::new_const', 'Arguments::as_statically_known_str')
def args_from_str(s, args, info, t):
    return s.deep(args[0])


@model('fmt::format', 'Arguments::to_string')
def fmt_format(s, args, info, t):
    return s.deep(args[0])


@model('Write::write_fmt', 'Formatter::write_fmt', 'Write::write_all', 'Write::write_str', 'Formatter::write_str', 'Formatter::pad')
def write_fmt(s, args, info, t):
    dest = args[0]
    d = s.load(dest)
    at = ((t or {}).get('at') or [''])[0]
    v = s.deep(args[1])
    if d.op in ('cat',) and 'String' in at:
        s.store(dest, cat(d, v))
        return Ok(UNIT)
    s.effect('write', s.deep(dest), v)
    c = atom(mk('ioerr', s.deep(dest), v))
    return mkphi([(bnot(c), Ok(UNIT)), (c, Err(mk('errval', v)))])


@model('__private::format_err', 'error::msg', 'Error::msg', 'anyhow::Error::msg', 'anyhow::error::msg')
def format_err(s, args, info, t):
    return mk('errval', s.deep(args[0]))


@model('Cow::to_mut')
def _cow(s, args, info, t):
    return args[0]


@model('String::from_utf8')
def _utf8(s, args, info, t):
    return None


# ------------------------------------------------------------ containers of the graph library
def graph_of(v):
    """the graph view of the items only depends on their edges (rule P10 checks the trait impls)"""
    if v.op == 'phi':
        return mkphi([(g, graph_of(x)) for g, x in v.a[0]])
    if v.op == 'adt' and v.a[0] == 'twiggy_ir::Items':
        return mk('graph', proj(v, 'edges'), proj(v, 'items'))
    return v


@model('Dfs::new')
def dfs_new(s, args, info, t):
    return mk('dfs', graph_of(s.deep(args[0])), s.deep(args[1]))


@model('Walker::iter', 'WalkerIter::iter')
def walker_iter(s, args, info, t):
    return s.deep(args[0])


@model('Dominators::immediate_dominator')
def idom(s, args, info, t):
    return mk('idom', s.deep(args[0]), s.deep(args[1]))


@model('dominators::simple_fast')
def simple_fast(s, args, info, t):
    return mk('dominators', graph_of(s.deep(args[0])), s.deep(args[1]))


@model('panicking::panic', 'panicking::panic_fmt', 'rt::begin_panic', 'panicking::assert_failed', 'panicking::unreachable_display', 'rt::panic_fmt', 'process::exit', 'panicking::panic_display',
       'option::expect_failed', 'result::unwrap_failed')
def panic(s, args, info, t):
    s.effect('panic', mk('name', short(info['path'])), *[s.deep(a) for a in args])
    return mk('bottom', 'never')


# ------------------------------------------------------------ further library functions
@model('Ord::clamp', 'num::clamp')
def clamp_(s, args, info, t):
    a, lo, hi = (s.deep(x) for x in args)
    return minmax('min', minmax('max', a, lo), hi)


@model('num::abs_diff')
def abs_diff(s, args, info, t):
    return M['num::abs'](s, [sub(s.deep(args[0]), s.deep(args[1]))], info, t)


@model('num::pow')
def num_pow(s, args, info, t):
    a, n = s.deep(args[0]), s.deep(args[1])
    if n.op != 'int' or not 0 <= n.a[0] <= 8:
        return None
    r = I(1)
    for _ in range(n.a[0]):
        r = mul(r, a)
    return r


@model('num::checked_div')
def checked_div(s, args, info, t):
    a, b = s.deep(args[0]), s.deep(args[1])
    c = eq(b, I(0))
    return mkphi([(bnot(c), Some(idiv(a, b))), (c, NONE)])


@model('MulAssign::mul_assign')
def mul_assign(s, args, info, t):
    s.store(args[0], mul(s.load(args[0]), s.deep(args[1])))
    return UNIT


@model('Option::flatten')
def opt_flatten(s, args, info, t):
    v = V(s, args[0])
    return opt_case(s, v, lambda: payload(v), lambda: NONE)


@model('Option::insert')
def opt_insert(s, args, info, t):
    if args[0].op != 'ptr':
        return None
    s.store(args[0], Some(s.deep(args[1])))
    return subptr(s, args[0], 'Some')


@model('Option::replace')
def opt_replace(s, args, info, t):
    if args[0].op != 'ptr':
        return None
    old = s.load(args[0])
    s.store(args[0], Some(s.deep(args[1])))
    return old


@model('Iterator::rfind', 'DoubleEndedIterator::rfind')
def it_rfind(s, args, info, t):
    q = it(s, args[0])
    if q is None or len(as_segs(q)) != 1:
        return None
    return first_opt(add_stage(it_filter(s, q, lambda e: as_bool(s.call_value(args[1], [e], t))), ('rev',)))


@model('Iterator::skip_while')
def it_skip_while(s, args, info, t):
    q = it(s, args[0])
    if q is None or len(as_segs(q)) != 1:
        return None
    segs = s.each(q, lambda e: as_bool(s.call_value(args[1], [e], t)))
    st, e = s.open_seg(*as_segs(q)[0])
    kept = norm_stages(tuple(st) + (('while', segs[0][1]),))
    if kept == norm_stages(st):
        return SEQ0
    if kept[:-1] == norm_stages(st) and kept[-1][0] == 'take':
        return add_stage(q, ('skip', kept[-1][1]))
    return add_stage(q, ('skip', length(mk_seq([(kept, e)]))))


@model('Iterator::map_while')
def it_map_while(s, args, info, t):
    q = it(s, args[0])
    if q is None or len(as_segs(q)) != 1:
        return None
    segs = s.each(q, lambda e: s.call_value(args[1], [e], t))
    st, e = segs[0]
    return mk_seq([(tuple(st) + (('while', some_cond(e)),), payload(e))])


@model('iter::repeat_n')
def repeat_n(s, args, info, t):
    r = M['iter::repeat'](s, args[:1], info, t)
    return None if r is None else add_stage(r, ('take', s.deep(args[1])))


@model('Iterator::eq')
def it_eq(s, args, info, t):
    a, b = it(s, args[0]), it(s, args[1])
    return None if a is None or b is None else eq(a, b)


@model('Iterator::ne')
def it_ne(s, args, info, t):
    a, b = it(s, args[0]), it(s, args[1])
    return None if a is None or b is None else bnot(eq(a, b))


@model('str::strip_prefix')
def strip_prefix(s, args, info, t):
    x, p = s.deep(args[0]), s.deep(args[1])
    if len(t['at']) > 1 and not re.match(r"^&('\w+ )?(str|std::string::String)$", t['at'][1]):
        return None
    n = lit_of(p)
    c = as_bool(ext('str::starts_with', x, p))
    k = I(len(n.encode())) if n is not None else M['str::len'](s, [p], info, t)
    return mkphi([(c, Some(mk('substr', x, adt('RangeFrom', 'RangeFrom', [('start', k)])))), (bnot(c), NONE)])


@model('str::strip_suffix')
def strip_suffix(s, args, info, t):
    x, p = s.deep(args[0]), s.deep(args[1])
    n = lit_of(p)
    if n is None:
        return None
    c = as_bool(ext('str::ends_with', x, p))
    return mkphi([(c, Some(mk('substr', x, adt('RangeTo', 'RangeTo', [('end', sub(M['str::len'](s, [x], info, t), I(len(n.encode()))))])))), (bnot(c), NONE)])


@model('String::clear')
def string_clear(s, args, info, t):
    s.store(args[0], S(''))
    return UNIT


@model('String::insert_str', 'String::insert')
def string_insert(s, args, info, t):
    if s.deep(args[1]) is not I(0):
        return None
    s.store(args[0], cat(s.deep(args[2]), s.load(args[0])))
    return UNIT


@model('Vec::remove')
def vec_remove(s, args, info, t):
    v, i = s.load(args[0]), s.deep(args[1])
    if len(as_segs(v)) != 1 or i is not I(0):
        return None
    s.store(args[0], add_stage(v, ('skip', I(1))))
    f = first_opt(v)
    s.mayfail(some_cond(f), 'Vec::remove', v, i)
    return payload(f)


@model('slice::split_first')
def split_first(s, args, info, t):
    v = s.deep(args[0])
    f = first_opt(v)
    return opt_case(s, f, lambda: Some(tup(payload(f), add_stage(v, ('skip', I(1))))), lambda: NONE)


@model('BTreeSet::difference', 'HashSet::difference')
def set_difference(s, args, info, t):
    b = s.deep(args[1])
    q = it(s, s.deep(args[0]))
    return None if q is None else it_filter(s, q, lambda e: bnot(as_bool(set_has(b, e))))


@model('BTreeSet::intersection', 'HashSet::intersection')
def set_intersection(s, args, info, t):
    b = s.deep(args[1])
    q = it(s, s.deep(args[0]))
    return None if q is None else it_filter(s, q, lambda e: as_bool(set_has(b, e)))


@model('BTreeSet::union', 'HashSet::union')
def set_union(s, args, info, t):
    a, b = it(s, s.deep(args[0])), it(s, s.deep(args[1]))
    if a is None or b is None:
        return None
    v = set_of('HashSet' if 'Hash' in info['path'] else 'BTreeSet', concat(a, b))
    return it(s, v)


# ------------------------------------------------------------ the two kinds of map entries
def entry_of(s, a):
    e = s.load(a) if a.op == 'ptr' else a
    return e if e.op == 'entry' and e.a[0].op == 'ptr' else None


def slot(e):
    p, k = e.a
    return mk('ptr', p.a[0], p.a[1] + (('at', k),))


@model('OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_mut')
def occ_get(s, args, info, t):
    e = entry_of(s, args[0])
    return e and slot(e)


@model('OccupiedEntry::insert')
def occ_insert(s, args, info, t):
    e = entry_of(s, args[0])
    if e is None:
        return None
    old = s.load(slot(e))
    s.store(slot(e), s.deep(args[1]))
    return old


@model('OccupiedEntry::remove')
def occ_remove(s, args, info, t):
    e = entry_of(s, args[0])
    if e is None:
        return None
    old = s.load(slot(e))
    s.modify(e.a[0], lambda m: mk('mapdel', m, e.a[1]))
    return old


@model('VacantEntry::insert')
def vac_insert(s, args, info, t):
    e = entry_of(s, args[0])
    if e is None:
        return None
    s.store(slot(e), s.deep(args[1]))
    return slot(e)


@model('OccupiedEntry::key', 'VacantEntry::key', 'VacantEntry::into_key', 'Entry::key')
def entry_key(s, args, info, t):
    e = entry_of(s, args[0])
    return e and e.a[1]


@model('Entry::or_insert_with_key')
def or_insert_with_key(s, args, info, t):
    e = entry_of(s, args[0])
    if e is None:
        return None
    p, k = e.a
    r = mk('ptr', p.a[0], p.a[1] + (('ent', k, s.call_value(args[1], [k], t)),))
    s.store(r, s.load(r))
    return r
