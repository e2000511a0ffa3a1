"""Transfer functions of the library functions the crate uses."""
from terms import *
from engine import *
from engine import Imprecise, CF, ORD, UNDEF
from facts import short, fnkey
import struct

CF_CONT, CF_BREAK = 0, 1
FMTERR = adt('std::fmt::Error', 0)
SELFCHAR = mk('selfchar')
SINKERR = mk('sinkerr')
SINKOK = mk('sinkok')
N = {}


def nat(*names):
    def reg(fn):
        for n in names:
            N[n] = fn
        return fn
    return reg


def install(E):
    E.natives.update(N)


def pure(fn):
    return lambda E, st, a, c: [(st, fn(E, st, a, c))]


def ident(*names):
    for n in names:
        N[n] = lambda E, st, a, c: [(st, a[0])] if a else None


ident('Arc::new', 'Box::new', 'Rc::new', 'Deref::deref', 'DerefMut::deref_mut', 'Clone::clone', 'ToOwned::to_owned',
      'Borrow::borrow', 'BorrowMut::borrow_mut', 'AsMut::as_mut', 'String::as_str', 'Vec::as_slice', 'String::into_boxed_str',
      'Box::pin', 'NonZero::get', 'slice::to_vec',
      'slice::into_vec', 'Vec::into_boxed_slice', 'str::to_string', 'str::to_owned', 'str::into_string', 'hint::black_box',
      'Option::copied', 'Option::cloned', 'Option::as_deref', 'Arc::unwrap_or_clone', 'Arc::clone', 'intrinsics::likely',
      'String::as_bytes', 'str::as_bytes', 'Cow::into_owned', 'NonZero::new_unchecked', 'convert::identity', 'slice::as_ref',
      'Arguments::as_statically_known_str', 'String::into_bytes', 'Iterator::by_ref', 'Option::as_ref', 'Result::as_ref',
      'Vec::into_iter', 'Vec::drain_all', 'BigInt::clone', 'mem::copy', 'Vec::leak', 'ops::deref')


@nat('Box::new_uninit')
def box_uninit(E, st, a, c):
    s, cell = st.alloc(UNDEF)
    return [(s, mk('ptr', cell, ()))]


@nat('boxed::box_assume_init_into_vec_unsafe')
def box_init(E, st, a, c):
    return [(st, E.deref(st, a[0]))]


@nat('AsRef::as_ref')
def as_ref(E, st, a, c):
    v = E.deref(st, a[0]) if a[0].k == 'ptr' else a[0]
    it = E.dispatch(st, dict(c.f, trait='std::convert::AsRef', name='as_ref'), [v], c)
    if it is not None:
        return E.enter(st, it['inst'], it['path'], [v], c)
    return [(st, v)]


@nat('From::from')
def from_(E, st, a, c):
    if c.f.get('inst') in E.F.bodies and c.f.get('local'):
        return None
    it = E.dispatch(st, dict(c.f), a, c)
    if c.ty is not None:
        p = E.F.path(c.ty)
        src = c.argtys[0] if c.argtys else None
        if p == OPT and not (src is not None and E.F.path(src) == OPT):
            return [(st, some(a[0]))]
        t = E.F.types[E.F.strip(c.ty)]
        if t['k'] == 'float':
            return [(st, app('tofloat', a[0], ty=c.ty))]
        for it in E.F.trait_items('From', 'from'):
            if it['self'] == c.ty and src is not None and len(it.get('targs', [])) > 1 and it['targs'][1] == src:
                return E.enter(st, it['inst'], it['path'], a, c)
        if t['k'] == 'str' or E.F.is_str(c.ty):
            return [(st, text([a[0]]))] if a[0].k == 'char' else [(st, a[0])]
    return [(st, a[0])]


@nat('Into::into')
def into(E, st, a, c):
    if c.f.get('inst') in E.F.bodies:
        return None
    return from_(E, st, a, c)


@nat('TryFrom::try_from', 'TryInto::try_into')
def try_from(E, st, a, c):
    args = c.f.get('rargs') or c.f.get('args') or []
    t = E.F.types[c.ty] if c.ty is not None else None
    if t and t['k'] == 'adt' and t['path'] == RES:
        to = t['args'][0]
        r = E.F.intrange(to)
        if r:
            out = []
            for s, b in E.truth(st, E.rng(a[0], r[0], r[1])):
                out.append((s, ok(a[0]) if b else err(adt('std::num::TryFromIntError', 0, UNIT))))
            return out
        if a[0].k == 'seq' or E.F.is_coll(to):
            return None
    return None


def default_of(E, ty):
    F = E.F
    i = F.strip(ty)
    t = F.types[i]
    k = t['k']
    if k == 'int':
        return I(0)
    if k == 'bool':
        return FALSE
    if k == 'float':
        return mk('float', 0.0)
    if k == 'char':
        return char('\0')
    if k == 'str':
        return text([])
    if k == 'tuple':
        return tup(*[default_of(E, x) for x in t['of']])
    if k == 'adt':
        p = t['path']
        if p == OPT:
            return NONE
        if F.is_str(i):
            return text([])
        if F.is_coll(i):
            return empty_coll(F, i)
        if short(p) == 'Error' and 'fmt' in p:
            return FMTERR
    if k in ('slice', 'array'):
        return seq([])
    return None


def empty_coll(F, i):
    p = short(F.types[F.strip(i)].get('path', ''))
    if p in ('HashMap', 'BTreeMap'):
        return mk('map', ())
    if p in ('HashSet', 'BTreeSet'):
        return mk('set', ())
    return seq([])


@nat('Default::default')
def default(E, st, a, c):
    if c.f.get('inst') in E.F.bodies and c.f.get('local'):
        return None
    ty = c.ty if c.ty is not None else (c.f.get('args') or [None])[0]
    if ty is None:
        return None
    v = default_of(E, ty)
    if v is None:
        for it in E.F.trait_items('Default', 'default'):
            if E.F.strip(it['self']) == E.F.strip(ty):
                return E.enter(st, it['inst'], it['path'], [], c)
        return None
    return [(st, v)]


@nat('Vec::new', 'Vec::with_capacity', 'VecDeque::new')
def vec_new(E, st, a, c):
    return [(st, seq([]))]


@nat('HashMap::new', 'HashMap::with_capacity', 'BTreeMap::new')
def map_new(E, st, a, c):
    return [(st, mk('map', ()))]


@nat('HashSet::new', 'HashSet::with_capacity', 'BTreeSet::new')
def set_new(E, st, a, c):
    return [(st, mk('set', ()))]


@nat('String::new', 'String::with_capacity')
def string_new(E, st, a, c):
    return [(st, text([]))]


# ---------------------------------------------------------------- panics

@nat('option::expect_failed', 'option::unwrap_failed', 'result::unwrap_failed', 'panicking::panic', 'panicking::panic_fmt',
     'panicking::panic_display', 'panicking::unreachable_display', 'rt::begin_panic', 'panicking::panic_explicit',
     'panicking::panic_str_2015', 'panicking::assert_failed', 'panicking::panic_bounds_check', 'process::exit',
     'process::abort', 'panicking::panic_nounwind', 'rt::panic_fmt', 'panicking::assert_failed_inner',
     'panicking::panic_str_literal', 'slice::slice_index_fail', 'panicking::panic_const')
def panics(E, st, a, c):
    m = ''
    if a and a[0].k == 'str':
        m = show(a[0])
    if a and a[0].k == 'fmtargs':
        m = show(text([p for p in a[0].a[0] if isinstance(p, str)]))
    E.panic(st, short(c.f.get('path', 'panic')) + ' ' + m)
    return []


# ---------------------------------------------------------------- memory

@nat('mem::take')
def mem_take(E, st, a, c):
    p = a[0]
    v = E.load(st, p)
    ty = c.ty
    d = default_of(E, ty)
    if d is None:
        out = []
        for s, dv in default(E, st, [], Cx({}, ty)) or []:
            out.append((E.store(s, p, dv), v))
        if not out:
            raise Imprecise('mem::take')
        return out
    return [(E.store(st, p, d), v)]


@nat('mem::replace')
def mem_replace(E, st, a, c):
    return [(E.store(st, a[0], a[1]), E.load(st, a[0]))]


@nat('mem::swap')
def mem_swap(E, st, a, c):
    x, y = E.load(st, a[0]), E.load(st, a[1])
    return [(E.store(E.store(st, a[0], y), a[1], x), UNIT)]


@nat('mem::drop', 'mem::forget', 'intrinsics::assume', 'hint::assert_unchecked')
def nop(E, st, a, c):
    return [(st, UNIT)]


@nat('Option::take')
def opt_take(E, st, a, c):
    return [(E.store(st, a[0], NONE), E.load(st, a[0]))]


@nat('Option::replace')
def opt_replace(E, st, a, c):
    return [(E.store(st, a[0], some(a[1])), E.load(st, a[0]))]


@nat('Option::insert', 'Option::get_or_insert', 'Option::get_or_insert_with')
def opt_insert(E, st, a, c):
    n = short(c.f['path'])
    v = E.load(st, a[0])
    inner = mk('ptr', a[0].a[0], a[0].a[1] + ((1, 0),))
    out = []
    if n == 'insert':
        return [(E.store(st, a[0], some(a[1])), inner)]
    for s, k in E.cases(st, v):
        if k:
            out.append((s, inner))
        elif n == 'get_or_insert':
            out.append((E.store(s, a[0], some(a[1])), inner))
        else:
            for s2, x in E.callv(s, a[1], []):
                out.append((E.store(s2, a[0], some(x)), inner))
    return out


@nat('Option::as_mut', 'Option::as_deref_mut')
def opt_as_mut(E, st, a, c):
    if a[0].k != 'ptr':
        return [(st, a[0])]
    v = E.load(st, a[0])
    return [(s, some(mk('ptr', a[0].a[0], a[0].a[1] + ((1, 0),))) if k else NONE) for s, k in E.cases(st, v)]


@nat('Arc::make_mut', 'Arc::get_mut_unchecked', 'Rc::make_mut')
def make_mut(E, st, a, c):
    return [(st, a[0])]


@nat('Arc::get_mut')
def get_mut(E, st, a, c):
    raise Imprecise('Arc::get_mut')


@nat('Arc::try_unwrap')
def try_unwrap(E, st, a, c):
    b = mk('app', 'unique', (a[0],))
    return [(s, ok(a[0]) if x else err(a[0])) for s, x in E.truth(st, b)]


@nat('Arc::ptr_eq', 'Rc::ptr_eq', 'ptr::eq', 'ptr::addr_eq')
def ptr_eq(E, st, a, c):
    """The same object is the same value; equal values may be different objects."""
    x, y = E.deref(st, a[0]), E.deref(st, a[1])
    out = []
    for s, b in E.truth(st, mk('app', 'ptr_eq', (x, y))):
        if not b:
            out.append((s, FALSE))
            continue
        for s2, e in E.eq(s, x, y):
            if e:
                out.append((s2, TRUE))
    return out


@nat('intrinsics::discriminant_value', 'mem::discriminant')
def discr_value(E, st, a, c):
    v = E.deref(st, a[0])
    if v.k == 'adt':
        return [(st, I(v.a[1]))]
    return [(st, mk('discr', v))]


@nat('NonZero::new')
def nz_new(E, st, a, c):
    return [(s, NONE if b else some(a[0])) for s, b in E.truth(st, E.rng(a[0], 0, 0))]


# ---------------------------------------------------------------- integers

def maxmin(E, st, op, x, y):
    d = sub(x, y)
    l, h = E.bounds(st, d)
    if l is not None and l >= 0:
        return x if op == 'max' else y
    if h is not None and h <= 0:
        return y if op == 'max' else x
    xs = []
    for z in (x, y):
        # max(a+k, b+k) is kept as it is; nested maxima are flattened
        xs += list(z.a[1]) if z.k == 'app' and z.a[0] == op else [z]
    xs = sorted(set(xs), key=lambda t: t.id)
    if len(xs) == 1:
        return xs[0]
    # move a common constant out
    ks = [lin_parts(z)[1] for z in xs]
    k = min(ks)
    if k and all(z.k != 'int' for z in xs) and len(set(ks)) == 1:
        xs = sorted((sub(z, I(k)) for z in xs), key=lambda t: t.id)
        r = mk('app', op, tuple(xs), ty=x.ty)
        return add(r, I(k))
    return mk('app', op, tuple(xs), ty=x.ty if x.ty is not None else y.ty)


@nat('cmp::max', 'Ord::max', 'cmp::min', 'Ord::min')
def n_max(E, st, a, c):
    op = short(c.f['path'])
    x, y = a
    if c.ty is not None and not E.F.is_int(c.ty) and E.F.path(c.ty) not in BIG:
        return None
    return [(st, maxmin(E, st, op, x, y))]


@nat('Ord::clamp', 'num::clamp')
def n_clamp(E, st, a, c):
    return [(st, maxmin(E, st, 'min', maxmin(E, st, 'max', a[0], a[1]), a[2]))]


def mapkeys(x, y):
    """Positions of two keys of one map; keys are numbered in their order."""
    if x.k == y.k == 'elem' and x.a[0] is y.a[0] and isinstance(x.a[1], tuple) and isinstance(y.a[1], tuple) \
            and x.a[1][1] == y.a[1][1] == 'k':
        return x.a[1][0], y.a[1][0]
    return None


def order(E, st, x, y):
    """Order of two values: (state, Less 0 / Equal 1 / Greater 2) alternatives, or None."""
    x, y = E.deref(st, x), E.deref(st, y)
    if x is y:
        return [(st, 1)]
    m = mapkeys(x, y)
    if m is not None:
        return [(st, 0 if m[0] < m[1] else 2 if m[0] > m[1] else 1)]
    ints = all(v.k in ('int', 'lin') or E.isint(v) for v in (x, y))
    if ints:
        return [(s, v.a[1]) for s, v in E.binop(st, 'Cmp', x, y, None)]
    if any(v.k == 'str' or (v.ty is not None and E.F.is_str(v.ty)) for v in (x, y)):
        if all(v.k == 'str' and all(isinstance(q, str) for q in v.a[0]) for v in (x, y)):
            p, q = (''.join(v.a[0]).encode() for v in (x, y))
            return [(st, 0 if p < q else 2 if p > q else 1)]
        out = []
        for s, b in E.eq(st, x, y):
            if b:
                out.append((s, 1))
                continue
            u, w, flip = (x, y, False) if x.id < y.id else (y, x, True)
            for s2, l in E.truth(s, mk('app', 'strlt', (u, w))):
                out.append((s2, 0 if l != flip else 2))
        return out
    if x.k == 'tup' and y.k == 'tup' and len(x.a[0]) == len(y.a[0]):
        cur, out = [st], []
        for u, w in zip(x.a[0], y.a[0]):
            nxt = []
            for s in cur:
                r = order(E, s, u, w)
                if r is None:
                    return None
                for s2, o in r:
                    if o == 1:
                        nxt.append(s2)
                    else:
                        out.append((s2, o))
            cur = nxt
        return out + [(s, 1) for s in cur]
    if x.k == 'adt' and y.k == 'adt' and short(x.a[0]) == short(y.a[0]) == 'Reverse':
        r = order(E, st, x.a[2][0], y.a[2][0])
        return r and [(s, 2 - o) for s, o in r]
    return None


@nat('Ord::cmp', 'PartialOrd::partial_cmp')
def n_cmp(E, st, a, c):
    part = short(c.f['path']) == 'partial_cmp'
    r = order(E, st, a[0], a[1])
    if r is None:
        return None
    return [(s, some(adt(ORD, o)) if part else adt(ORD, o)) for s, o in r]


@nat('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def n_lt(E, st, a, c):
    x, y = E.deref(st, a[0]), E.deref(st, a[1])
    op = short(c.f['path']).capitalize()
    if all(v.k in ('int', 'lin', 'char') or (v.ty is not None and (E.F.is_int(v.ty) or E.F.path(v.ty) in BIG or
                                                                 E.F.types[E.F.strip(v.ty)]['k'] == 'char')) for v in (x, y)):
        return E.binop(st, op, x, y, None)
    return None


@nat('num::checked_add', 'num::checked_sub', 'num::checked_mul', 'num::checked_neg')
def n_checked(E, st, a, c):
    n = short(c.f['path'])
    v = {'checked_add': lambda: add(a[0], a[1]), 'checked_sub': lambda: sub(a[0], a[1]),
         'checked_mul': lambda: E.mul(a[0], a[1]), 'checked_neg': lambda: lin_sum([(-1, a[0])])}[n]()
    t = E.F.types[c.ty]
    r = E.F.intrange(t['args'][0])
    return [(s, some(v) if b else NONE) for s, b in E.truth(st, E.rng(v, r[0], r[1]))]


@nat('num::checked_add_unsigned', 'num::checked_add_signed', 'num::checked_sub_unsigned')
def n_checked2(E, st, a, c):
    n = short(c.f['path'])
    v = add(a[0], a[1]) if 'add' in n else sub(a[0], a[1])
    r = E.F.intrange(E.F.types[c.ty]['args'][0])
    return [(s, some(v) if b else NONE) for s, b in E.truth(st, E.rng(v, r[0], r[1]))]


@nat('num::overflowing_add', 'num::overflowing_sub')
def n_overflowing(E, st, a, c):
    v = add(a[0], a[1]) if 'add' in c.f['path'] else sub(a[0], a[1])
    ty = E.F.types[c.ty]['of'][0]
    r = E.F.intrange(ty)
    return [(s, tup(v, FALSE) if b else tup(app('wrap', v, ty=ty), TRUE)) for s, b in E.truth(st, E.rng(v, r[0], r[1]))]


@nat('num::saturating_add', 'num::saturating_sub', 'num::saturating_mul')
def n_sat(E, st, a, c):
    n = short(c.f['path'])
    v = {'saturating_add': lambda: add(a[0], a[1]), 'saturating_sub': lambda: sub(a[0], a[1]),
         'saturating_mul': lambda: E.mul(a[0], a[1])}[n]()
    lo, hi = E.F.intrange(c.ty)
    out = []
    for s, b in E.truth(st, E.rng(v, lo, hi)):
        if b:
            out.append((s, v))
        else:
            l, h = E.bounds(s, v)
            if h is not None and h < lo:
                out.append((s, I(lo)))
            elif l is not None and l > hi:
                out.append((s, I(hi)))
            else:
                raise Imprecise('saturation of ' + show(v))
    return out


@nat('num::wrapping_add', 'num::wrapping_sub', 'num::wrapping_mul', 'num::unchecked_add', 'num::unchecked_sub')
def n_wrapping(E, st, a, c):
    n = short(c.f['path'])
    v = add(a[0], a[1]) if 'add' in n else sub(a[0], a[1]) if 'sub' in n else E.mul(a[0], a[1])
    lo, hi = E.F.intrange(c.ty)
    out = []
    for s, b in E.truth(st, E.rng(v, lo, hi)):
        out.append((s, v if b else app('wrap', v, ty=c.ty)))
    return out


@nat('num::checked_shl')
def n_shl(E, st, a, c):
    ty = E.F.types[c.ty]['args'][0]
    lo, hi = E.F.intrange(ty)
    bits = (hi - lo).bit_length()
    out = []
    for s, b in E.truth(st, E.rng(a[1], 0, bits - 1)):
        out.append((s, some(shl(a[0], a[1], ty)) if b else NONE))
    return out


def shl(x, n, ty):
    if x.k == 'int' and n.k == 'int':
        return I(x.a[0] << n.a[0])
    return app('shl', x, n, ty=ty)


@nat('num::pow', 'num::checked_pow')
def n_pow(E, st, a, c):
    chk = 'checked' in c.f['path']
    ty = E.F.types[c.ty]['args'][0] if chk else c.ty
    r = E.F.intrange(ty)
    if a[0].k == 'int' and a[0].a[0] == 2:
        bits = r[1].bit_length()
        out = []
        for s, b in E.truth(st, E.rng(a[1], 0, bits - 1)):
            if b:
                v = shl(I(1), a[1], ty)
                out.append((s, some(v) if chk else v))
            elif chk:
                out.append((s, NONE))
            else:
                E.panic(s, 'attempt to multiply with overflow (pow)')
        return out
    return None


@nat('num::abs_diff')
def n_absdiff(E, st, a, c):
    d = sub(a[0], a[1])
    return [(s, d if b else lin_sum([(-1, d)])) for s, b in E.truth(st, E.rng(d, 0, None))]


@nat('num::abs', 'num::unsigned_abs', 'BigInt::magnitude')
def n_abs(E, st, a, c):
    return [(s, a[0] if b else lin_sum([(-1, a[0])])) for s, b in E.truth(st, E.rng(a[0], 0, None))]


@nat('num::is_negative', 'Signed::is_negative')
def n_isneg(E, st, a, c):
    return [(st, E.rng(a[0], None, -1))]


@nat('num::is_positive', 'Signed::is_positive')
def n_ispos(E, st, a, c):
    return [(st, E.rng(a[0], 1, None))]


@nat('Zero::is_zero')
def n_iszero(E, st, a, c):
    return [(st, E.rng(a[0], 0, 0))]


@nat('num::leading_zeros')
def n_lz(E, st, a, c):
    ty = c.argtys[0] if c.argtys else None
    r = E.F.intrange(ty) if ty is not None else None
    if r is None:
        return None
    bits = (r[1] - r[0]).bit_length()
    if a[0].k == 'int':
        return [(st, I(bits - a[0].a[0].bit_length()))]
    return [(st, sub(I(bits), app('bitlen', a[0])))]


@nat('num::next_power_of_two', 'num::trailing_zeros', 'num::count_ones', 'num::ilog2', 'num::checked_ilog2', 'num::is_power_of_two',
     'num::div_ceil', 'num::rem_euclid')
def n_opaque_num(E, st, a, c):
    n = short(c.f['path'])
    x = a[0]
    if n == 'ilog2':
        out = []
        for s, b in E.truth(st, E.rng(x, 1, None)):
            if b:
                out.append((s, sub(app('bitlen', x), I(1))))
            else:
                E.panic(s, 'ilog2 of zero')
        return out
    if n == 'checked_ilog2':
        return [(s, some(sub(app('bitlen', x), I(1))) if b else NONE) for s, b in E.truth(st, E.rng(x, 1, None))]
    return [(st, mk('app', n, tuple(a), ty=c.ty))]


@nat('BigInt::bits', 'BigUint::bits')
def bigbits(E, st, a, c):
    x = E.deref(st, a[0])
    if x.k == 'int':
        return [(st, I(abs(x.a[0]).bit_length()))]
    return [(st, app('bitlen', x, ty=c.ty))]


@nat('Add::add', 'Sub::sub', 'Mul::mul', 'Neg::neg')
def bigadd(E, st, a, c):
    if c.ty is not None and E.F.path(c.ty) in BIG:
        n = short(c.f['path'])
        x = [E.deref(st, v) for v in a]
        return [(st, add(*x) if n == 'add' else sub(*x) if n == 'sub' else E.mul(*x) if n == 'mul' else lin_sum([(-1, x[0])]))]
    if c.ty is not None and E.F.is_str(c.ty):
        return [(st, text([a[0], a[1]]))]
    if c.ty is not None and E.F.is_int(c.ty):
        op = {'add': 'AddWithOverflow', 'sub': 'SubWithOverflow', 'mul': 'MulWithOverflow'}.get(short(c.f['path']))
        if op:
            out = []
            for s, v in E.binop(st, op, E.deref(st, a[0]), E.deref(st, a[1]), c.ty):
                for s2, o in E.truth(s, v.a[0][1]):
                    if o:
                        E.panic(s2, 'arithmetic overflow')
                    else:
                        out.append((s2, v.a[0][0]))
            return out
    return None


@nat('f64::fract')
def f_fract(E, st, a, c):
    if a[0].k == 'float':
        import math
        return [(st, mk('float', math.modf(a[0].a[0])[0]))]
    return [(st, app('fract', a[0], ty=c.ty))]


@nat('f64::is_finite', 'f64::is_nan', 'f64::is_infinite', 'f64::trunc', 'f64::floor', 'f64::abs', 'f64::ceil', 'f64::round',
     'f64::to_bits', 'f64::is_sign_negative')
def f_ops(E, st, a, c):
    return [(st, app(short(c.f['path']), a[0], ty=c.ty))]


# ---------------------------------------------------------------- equality

@nat('PartialEq::eq', 'PartialEq::ne')
def p_eq(E, st, a, c):
    neg = short(c.f['path']) == 'ne'
    x, y = E.deref(st, a[0]), E.deref(st, a[1])
    out = deq(E, st, x, y)
    return [(s, Bo(b != neg)) for s, b in out]


def eqimpl(E, v):
    p = E.pathof(v)
    if p is None:
        return None
    for it in E.F.trait_items('PartialEq', 'eq'):
        if E.F.path(it['self']) == p and (len(it.get('targs', [])) < 2 or it['targs'][0] == it['targs'][1] or E.F.path(it['targs'][1]) == p) \
                and it.get('inst') in E.F.bodies:
            return it
    return None


def deq(E, st, x, y):
    """Equality with the PartialEq implementations of local types."""
    if x.k in ('tup',) and y.k == 'tup':
        return conj(E, st, list(zip(x.a[0], y.a[0])))
    if x.k == 'seq' or y.k == 'seq' or (x.ty is not None and E.F.is_coll(x.ty)):
        if is_sym(x) and is_sym(y):
            if x is y:
                return [(st, True)]
            if not E.eq_expand or isinstance(E.F.elemty(x.ty), tuple):
                return E.atom_eq(st, x, y)
        out = []
        for s1, xs in E.expand(st, x):
            for s2, ys in E.expand(s1, y):
                out += [(s2, False)] if len(xs) != len(ys) else conj(E, s2, list(zip(xs, ys)))
        return out
    p = E.pathof(x) or E.pathof(y)
    if p == OPT or p == RES:
        out = []
        for s1, v in E.cases(st, x):
            for s2, w in E.cases(s1, y):
                if v != w:
                    out.append((s2, False))
                elif p == OPT and v == 0:
                    out.append((s2, True))
                else:
                    out += deq(E, s2, E.field(x, v, 0), E.field(y, v, 0))
        return out
    it = eqimpl(E, x) or eqimpl(E, y)
    if it is not None:
        out = []
        o = E.over.get(it['path'])
        r = o(E, st, [x, y], Cx()) if o is not None else None
        for s, v in r if r is not None else E.enter(st, it['inst'], it['path'], [x, y], Cx()):
            out += E.truth(s, v)
        return out
    return E.eq(st, x, y)


def conj(E, st, pairs):
    cur, out = [st], []
    for x, y in pairs:
        nxt = []
        for s in cur:
            for s2, r in deq(E, s, x, y):
                (nxt if r else out).append(s2 if r else (s2, False))
        cur = nxt
    return [(s, True) for s in cur] + out


# ---------------------------------------------------------------- strings and characters

def strval(E, st, v):
    v = E.deref(st, v)
    if v.k == 'char':
        return text([v])
    if v.k == 'charsof':
        return v.a[0]
    if v.k == 'input':
        return text(v.a[0])
    return v


def is_const(v):
    return v.k == 'str' and all(isinstance(p, str) for p in v.a[0])


def cstr(v):
    return ''.join(v.a[0])


@nat('str::is_empty', 'String::is_empty')
def str_is_empty(E, st, a, c):
    v = strval(E, st, a[0])
    if v.k == 'input':
        return E.input_empty(st, v)
    if v.k == 'str':
        if any(isinstance(p, str) for p in v.a[0]):
            return [(st, FALSE)]
        if not v.a[0]:
            return [(st, TRUE)]
    return [(st, E.rng(app('strlen', v), 0, 0))]


@nat('str::len', 'String::len')
def str_len(E, st, a, c):
    v = strval(E, st, a[0])
    return [(st, E.length(v))]


@nat('str::split_at')
def str_split_at(E, st, a, c):
    v = strval(E, st, a[0])
    ps = v.a[0] if v.k == 'str' else (v,)
    if a[1] is E.length(v):
        return [(st, tup(mk('input', ps), mk('input', ())))]
    if a[1].k == 'int' and a[1].a[0] == 0:
        return [(st, tup(mk('input', ()), mk('input', ps)))]
    lo = text_slice(E, st, v, mk('adt', 'std::ops::RangeTo', 0, (a[1],)), c)
    return [(s2, tup(mk('input', (x,)), mk('input', (y,)))) for s, x in lo for s2, y in text_slice(E, s, v, mk('adt', 'std::ops::RangeFrom', 0, (a[1],)), c)] if v.k != 'input' else None


@nat('str::contains', 'str::starts_with', 'str::ends_with', 'str::strip_prefix', 'str::find', 'str::eq_ignore_ascii_case')
def str_contains(E, st, a, c):
    n = short(c.f['path'])
    v = strval(E, st, a[0])
    if n == 'strip_prefix' and v.k == 'input':
        return E.input_strip(st, v, strval(E, st, a[1]))
    if is_const(v) and len(a) > 1:
        w = a[1]
        if w.k == 'char' or is_const(w):
            x = w.a[0] if w.k == 'char' else cstr(w)
            if n == 'contains':
                return [(st, Bo(x in cstr(v)))]
            if n == 'starts_with':
                return [(st, Bo(cstr(v).startswith(x)))]
            if n == 'ends_with':
                return [(st, Bo(cstr(v).endswith(x)))]
            if n == 'strip_prefix':
                return [(st, some(text([cstr(v)[len(x):]])) if cstr(v).startswith(x) else NONE)]
        if n in ('contains', 'starts_with', 'ends_with') and is_sym(w) and (w.ty is not None and E.F.types[w.ty]['k'] == 'char' or ('chr', w) in st.cons):
            x = cstr(v)
            x = x if n == 'contains' else x[:1] if n == 'starts_with' else x[-1:]
            return [(s, Bo(b)) for s, b in E.splitchar(st, w, lambda ch: ch in x)]
    return [(st, mk('app', 'str.' + n, tuple(a), ty=c.ty))]


@nat('String::push_str', 'String::push')
def str_push(E, st, a, c):
    p = a[0]
    v = E.load(st, p)
    return [(E.store(st, p, text([v, strval(E, st, a[1])])), UNIT)]


@nat('str::repeat')
def str_repeat(E, st, a, c):
    v = strval(E, st, a[0])
    if a[1].k == 'int':
        return [(st, text([v] * a[1].a[0]))]
    if is_const(v) and len(cstr(v)) == 1:
        return [(st, text([app('rep', cstr(v), a[1])]))]
    raise Imprecise('repeated text')


@nat('str::to_lowercase', 'str::to_uppercase', 'str::to_ascii_lowercase', 'str::to_ascii_uppercase')
def str_case(E, st, a, c):
    # a function of the text which different texts share
    n = short(c.f['path'])
    v = strval(E, st, a[0])
    if is_const(v):
        x = cstr(v)
        if x.isascii():
            return [(st, text([x.upper() if 'upper' in n else x.lower()]))]
    return [(st, mk('app', n, (v,), ty=c.ty))]


@nat('str::chars')
def str_chars(E, st, a, c):
    v = strval(E, st, a[0])
    if is_const(v):
        return [(st, mk('it', 'list', tuple(char(x) for x in cstr(v))))]
    return [(st, mk('it', 'chars', v))]


@nat('char::is_alphanumeric', 'char::is_numeric', 'char::is_alphabetic', 'char::is_ascii_digit', 'char::is_ascii_alphanumeric',
     'char::is_ascii_alphabetic', 'char::is_whitespace', 'char::is_ascii', 'char::is_control', 'char::is_uppercase', 'char::is_lowercase',
     'char::is_ascii_punctuation', 'char::is_ascii_hexdigit', 'char::is_ascii_control', 'char::is_ascii_graphic', 'char::is_ascii_whitespace',
     'char::is_ascii_uppercase', 'char::is_ascii_lowercase', 'char::is_digit')
def char_pred(E, st, a, c):
    n = short(c.f['path'])
    v = E.deref(st, a[0])
    asc = lambda f: (lambda x: ord(x) < 128 and f(x))
    import string
    f = {'is_alphanumeric': lambda x: x.isalpha() or x.isnumeric(), 'is_numeric': str.isnumeric, 'is_alphabetic': str.isalpha,
         'is_ascii_digit': asc(str.isdigit), 'is_ascii_alphanumeric': asc(str.isalnum), 'is_ascii_alphabetic': asc(str.isalpha),
         'is_whitespace': str.isspace, 'is_ascii': lambda x: ord(x) < 128, 'is_control': lambda x: ord(x) < 32 or 127 <= ord(x) < 160,
         'is_uppercase': str.isupper, 'is_lowercase': str.islower, 'is_ascii_punctuation': lambda x: x in string.punctuation,
         'is_ascii_hexdigit': lambda x: x in string.hexdigits, 'is_ascii_control': lambda x: ord(x) < 32 or ord(x) == 127,
         'is_ascii_graphic': lambda x: 32 < ord(x) < 127, 'is_ascii_whitespace': lambda x: x in ' \t\n\r\x0c',
         'is_ascii_uppercase': asc(str.isupper), 'is_ascii_lowercase': asc(str.islower)}.get(n)
    if n == 'is_digit':
        r = a[1].a[0]
        digs = '0123456789abcdefghijklmnopqrstuvwxyz'[:r]
        f = lambda x: x.lower() in digs and ord(x) < 128
    return [(s, Bo(b)) for s, b in E.splitchar(st, v, f)]


@nat('char::escape_default', 'char::escape_debug', 'char::escape_unicode')
def char_escape(E, st, a, c):
    n = short(c.f['path'])
    v = E.deref(st, a[0])
    out = []
    special = '\t\r\n\'"\\'
    work = [(st, None)]
    for x in special if n != 'escape_unicode' else '':
        nxt = []
        for s, d in work:
            if d is not None:
                nxt.append((s, d))
                continue
            for s2, b in E.splitchar(s, v, lambda y: y == x):
                nxt.append((s2, x if b else None))
        work = nxt
    for s, d in work:
        if d is not None:
            out.append((s, text(['\\' + {'\t': 't', '\r': 'r', '\n': 'n'}.get(d, d)])))
            continue
        if n == 'escape_default':
            plain = lambda y: 32 <= ord(y) < 127
        elif n == 'escape_debug':
            plain = lambda y: y.isprintable() or y == ' '
        else:
            plain = lambda y: False
        for s2, b in E.splitchar(s, v, plain):
            if b:
                out.append((s2, text([v])))
            else:
                # one character of the class stands for all of them
                out.append((s2.fact(('short', v), v), text(['\\u{%x}' % ord(sorted(E.atoms(s2, v))[0])])))
    return out


# ---------------------------------------------------------------- vectors and maps

@nat('Vec::push', 'VecDeque::push_back')
def vec_push(E, st, a, c):
    v = E.load(st, a[0])
    if v.k == 'seq':
        return [(E.store(st, a[0], seq(v.a[0] + (a[1],))), UNIT)]
    return [(E.store(st, a[0], app('push', v, a[1], ty=v.ty)), UNIT)]


@nat('Vec::pop')
def vec_pop(E, st, a, c):
    out = []
    for s, xs in E.expand(st, E.load(st, a[0])):
        if xs:
            out.append((E.store(s, a[0], seq(xs[:-1])), some(xs[-1])))
        else:
            out.append((s, NONE))
    return out


@nat('Vec::dedup', 'Vec::dedup_by_key')
def vec_dedup(E, st, a, c):
    out = []
    for s, xs in E.expand(st, E.load(st, a[0])):
        work = [(s, ())]
        for x in xs:
            nxt = []
            for s1, ys in work:
                if not ys:
                    nxt.append((s1, (x,)))
                    continue
                if len(a) > 1:
                    pairs = []
                    for s2, k in E.callv(s1, a[1], [x]):
                        for s3, l in E.callv(s2, a[1], [ys[-1]]):
                            pairs.append((s3, k, l))
                else:
                    pairs = [(s1, x, ys[-1])]
                for s3, k, l in pairs:
                    nxt += [(s4, ys if b else ys + (x,)) for s4, b in E.eq(s3, k, l)]
            work = nxt
        out += [(E.store(s1, a[0], seq(ys)), UNIT) for s1, ys in work]
    return out


@nat('Vec::insert')
def vec_insert(E, st, a, c):
    out = []
    if a[1].k != 'int':
        raise Imprecise('insertion at an unknown index')
    for s, xs in E.expand(st, E.load(st, a[0])):
        xs = list(xs)
        xs.insert(a[1].a[0], a[2])
        out.append((E.store(s, a[0], seq(xs)), UNIT))
    return out


@nat('Vec::clear', 'HashMap::clear', 'HashSet::clear', 'String::clear')
def vec_clear(E, st, a, c):
    v = E.load(st, a[0])
    if v.k in ('map', 'set'):
        return [(E.store(st, a[0], mk(v.k, ())), UNIT)]
    if v.k == 'str' or (v.ty is not None and E.F.is_str(v.ty)):
        return [(E.store(st, a[0], text([])), UNIT)]
    return [(E.store(st, a[0], seq([])), UNIT)]


@nat('Vec::reserve', 'String::reserve', 'HashMap::reserve', 'Vec::shrink_to_fit')
def vec_reserve(E, st, a, c):
    return [(st, UNIT)]


@nat('slice::len', 'Vec::len', 'HashMap::len', 'HashSet::len', 'ExactSizeIterator::len')
def coll_len(E, st, a, c):
    v = E.deref(st, a[0])
    if v.k == 'it':
        return [(s, I(len(xs))) for s, xs in drain(E, st, v)]
    return [(st, E.length(v))]


@nat('slice::is_empty', 'Vec::is_empty', 'HashMap::is_empty', 'HashSet::is_empty')
def coll_empty(E, st, a, c):
    v = E.deref(st, a[0])
    n = E.length(v)
    return [(st, E.rng(n, 0, 0))]


@nat('slice::first', 'slice::last', 'slice::get', 'Vec::first', 'Vec::last')
def coll_first(E, st, a, c):
    n = short(c.f['path'])
    out = []
    for s, xs in E.expand(st, E.deref(st, a[0])):
        if n == 'get':
            if a[1].k != 'int':
                raise Imprecise('element at an unknown index')
            i = a[1].a[0]
            out.append((s, some(xs[i]) if i < len(xs) else NONE))
        else:
            out.append((s, some(xs[0 if n == 'first' else -1]) if xs else NONE))
    return out


@nat('slice::split_first', 'slice::split_last')
def coll_split(E, st, a, c):
    n = short(c.f['path'])
    out = []
    for s, xs in E.expand(st, E.deref(st, a[0])):
        if not xs:
            out.append((s, NONE))
        elif n == 'split_first':
            out.append((s, some(tup(xs[0], seq(xs[1:])))))
        else:
            out.append((s, some(tup(xs[-1], seq(xs[:-1])))))
    return out


def text_slice(E, st, v, r, c):
    """A part of a text by byte offsets: panics outside and between the bytes of a character."""
    if r.k != 'adt':
        raise Imprecise('part of a text')
    p, fs = short(r.a[0]), list(r.a[2])
    if p == 'RangeFull':
        return [(st, v)]
    b = {'RangeFrom': [fs[0], None], 'RangeTo': [None, fs[0]], 'Range': fs[:2]}.get(p) if fs else None
    if b is None:
        raise Imprecise('part of a text')
    n = E.length(text(list(v.a[0])) if v.k == 'input' else v)
    blank = mk('input', ()) if v.k == 'input' else text([])
    zero = [x is not None and x.k == 'int' and x.a[0] == 0 for x in b]
    if b[0] is n and (b[1] is None or b[1] is n) or zero[1] and (b[0] is None or zero[0]):
        return [(st, blank)]        # nothing is left
    if (b[0] is None or zero[0]) and (b[1] is None or b[1] is n):
        return [(st, v)]
    b = [x if x is not None and x is not n and not (x.k == 'int' and x.a[0] == 0) else None for x in b]
    if is_const(v) and all(x is None or x.k == 'int' for x in b):
        w = cstr(v).encode()
        lo, hi = (b[0].a[0] if b[0] else 0 if p != 'RangeFrom' or fs[0] is not n else len(w)), (b[1].a[0] if b[1] else len(w) if p == 'RangeFrom' or fs[-1] is n else 0)
        try:
            if lo > hi or hi > len(w):
                raise ValueError
            w[:lo].decode()
            return [(st, text([w[lo:hi].decode()]))]
        except ValueError:
            E.panic(st, 'part of a text outside of it or within a character')
            return []
    head = v.a[0][0] if v.k == 'str' and v.a[0] and isinstance(v.a[0][0], str) else ''
    out = []
    for x in b:
        if x is None:
            continue
        k = x.a[0] if x.k == 'int' else None
        if k is not None and k <= len(head.encode()) and head[:k].isascii():
            continue
        nxt = None
        for s, y in E.truth(st, E.rng(sub(n, x), 0, None)):
            if y:
                nxt = s
            else:
                E.panic(s, 'part of a text: the offset is beyond its end')
        if nxt is None:
            return []
        st = nxt
        if is_sym(v) and not any(f[0] in ('allin', 'str', 'short') and f[1] is v for f in st.cons):
            E.panic(st, 'part of a text: the offset can be within a character')
        else:
            E.note('offset within a character')
    return [(st, app('slice', v, r, ty=c.ty))]


@nat('String::truncate')
def string_truncate(E, st, a, c):
    v = E.load(st, a[0])
    out = []
    for s, shorter in E.truth(st, E.rng(sub(E.length(v), a[1]), None, 0)):
        if shorter:
            out.append((s, UNIT))
        else:
            out += [(E.store(s2, a[0], x), UNIT) for s2, x in text_slice(E, s, v, mk('adt', 'std::ops::RangeTo', 0, (a[1],)), c)]
    return out


@nat('Index::index')
def coll_index(E, st, a, c):
    v = E.deref(st, a[0])
    if v.k == 'input' or v.k == 'str' or (v.ty is not None and E.F.is_str(v.ty)):
        return text_slice(E, st, v, a[1], c)
    out = []
    for s, xs in E.expand(st, v):
        if a[1].k == 'adt':
            fs = [x.a[0] if x.k == 'int' else None for x in a[1].a[2]]
            p = short(a[1].a[0])
            if None in fs:
                raise Imprecise('range of unknown bounds')
            lo, hi = (fs[0], len(xs)) if p == 'RangeFrom' else (0, fs[0]) if p == 'RangeTo' else (fs[0], fs[1]) if p == 'Range' else (0, len(xs))
            if lo > hi or hi > len(xs):
                E.panic(s, 'slice index out of range')
            else:
                out.append((s, seq(xs[lo:hi])))
            continue
        if a[1].k != 'int':
            raise Imprecise('index of unknown value')
        if a[1].a[0] >= len(xs):
            E.panic(s, 'index out of bounds')
        else:
            out.append((s, xs[a[1].a[0]]))
    return out


@nat('slice::contains', 'Vec::contains', 'HashSet::contains')
def coll_contains(E, st, a, c):
    v, x = E.deref(st, a[0]), E.deref(st, a[1])
    if v.k == 'app' and v.a[0] in ('push', 'visited'):
        out = []
        for s, b in coll_contains(E, st, [v.a[1][0], x], c):
            for s2, y in E.truth(s, b):
                if y:
                    out.append((s2, TRUE))
                elif v.a[0] == 'push':
                    out += [(s3, Bo(z)) for s3, z in deq(E, s2, v.a[1][1], x)]
                else:
                    out.append((s2, mk('app', 'contains', (v, x))))
        return out
    if is_sym(v):
        return [(st, mk('app', 'contains', (v, x)))]
    out, cur = [], [st]
    if x.k != 'char' and x.ty is not None and E.F.types[E.F.strip(x.ty)]['k'] == 'char' and all(y.k == 'char' for y in v.a[0]):
        cs = set(y.a[0] for y in v.a[0])
        return [(s, Bo(b)) for s, b in E.splitchar(st, x, lambda z: z in cs)]
    for y in v.a[0]:
        nxt = []
        for s in cur:
            for s2, b in deq(E, s, y, x):
                if b:
                    out.append((s2, TRUE))
                else:
                    nxt.append(s2)
        cur = nxt
    return out + [(s, FALSE) for s in cur]


@nat('HashSet::insert', 'BTreeSet::insert')
def set_insert(E, st, a, c):
    v = E.load(st, a[0])
    out = []
    for s, b in coll_contains(E, st, [v, a[1]], c):
        for s2, x in E.truth(s, b):
            if x:
                out.append((s2, FALSE))
            elif v.k == 'set':
                out.append((E.store(s2, a[0], mk('set', v.a[0] + (a[1],))), TRUE))
            else:
                out.append((E.store(s2, a[0], app('push', v, a[1], ty=v.ty)), TRUE))
    return out


def map_find(E, st, m, k):
    """(state, found value or None, index)"""
    out, cur = [], [st]
    for i, kv in enumerate(m.a[0]):
        nxt = []
        for s in cur:
            for s2, b in deq(E, s, kv.a[0][0], k):
                if b:
                    out.append((s2, kv.a[0][1], i))
                else:
                    nxt.append(s2)
        cur = nxt
    return out + [(s, None, None) for s in cur]


@nat('HashMap::get', 'BTreeMap::get')
def map_get(E, st, a, c):
    m, k = E.deref(st, a[0]), E.deref(st, a[1])
    if m.k == 'map':
        return [(s, NONE if v is None else some(v)) for s, v, _ in map_find(E, st, m, k)]
    r = E.mapget(st, m, k, c) if hasattr(E, 'mapget') else None
    if r is not None:
        return r
    return [(st, mk('app', 'get', (m, k), ty=c.ty))]


@nat('HashMap::contains_key', 'BTreeMap::contains_key')
def map_has(E, st, a, c):
    m, k = E.deref(st, a[0]), E.deref(st, a[1])
    if m.k == 'map':
        return [(s, Bo(v is not None)) for s, v, _ in map_find(E, st, m, k)]
    return [(st, mk('app', 'haskey', (m, k)))]


@nat('HashMap::insert', 'BTreeMap::insert')
def map_insert(E, st, a, c):
    m = E.load(st, a[0])
    if m.k == 'map':
        out = []
        for s, v, i in map_find(E, st, m, a[1]):
            ps = list(m.a[0])
            if v is None:
                ps.append(tup(a[1], a[2]))
            else:
                ps[i] = tup(ps[i].a[0][0], a[2])
            out.append((E.store(s, a[0], mk('map', tuple(ps))), NONE if v is None else some(v)))
        return out
    st = E.store(st, a[0], app('ins', m, a[1], a[2], ty=m.ty))
    return [(st, mk('app', 'get', (m, a[1]), ty=c.ty))]


@nat('HashMap::get_mut', 'BTreeMap::get_mut')
def map_get_mut(E, st, a, c):
    m = E.load(st, a[0])
    if m.k != 'map':
        return None
    return [(s, NONE if v is None else some(mk('ptr', a[0].a[0], a[0].a[1] + (('m', i),)))) for s, v, i in map_find(E, st, m, E.deref(st, a[1]))]


@nat('HashMap::entry', 'BTreeMap::entry')
def map_entry(E, st, a, c):
    return [(st, mk('mapentry', a[0], a[1]))] if E.load(st, a[0]).k == 'map' else None


def entry_parts(E, st, e):
    """(state, map, pointer to the map, key, index or None)"""
    if e.k != 'mapentry':
        raise Imprecise('map entry ' + show(e, 2))
    p, k = e.a
    m = E.load(st, p)
    return [(s, m, p, k, i) for s, v, i in map_find(E, st, m, k)]


def entry_fill(E, st, e, values):
    out = []
    for s, m, p, k, i in entry_parts(E, st, e):
        if i is not None:
            out.append((s, mk('ptr', p.a[0], p.a[1] + (('m', i),))))
            continue
        for s2, v in values(s):
            m2 = E.load(s2, p)
            s3 = E.store(s2, p, mk('map', m2.a[0] + (tup(k, v),), ty=m2.ty))
            out.append((s3, mk('ptr', p.a[0], p.a[1] + (('m', len(m2.a[0])),))))
    return out


@nat('Entry::or_insert')
def entry_or_insert(E, st, a, c):
    return entry_fill(E, st, a[0], lambda s: [(s, a[1])])


@nat('Entry::or_insert_with')
def entry_or_insert_with(E, st, a, c):
    return entry_fill(E, st, a[0], lambda s: [(s2, v) for s2, v in E.callv(s, a[1], [])])


@nat('Entry::and_modify')
def entry_and_modify(E, st, a, c):
    out = []
    for s, m, p, k, i in entry_parts(E, st, a[0]):
        if i is None:
            out.append((s, a[0]))
        else:
            out += [(s2, a[0]) for s2, _ in E.callv(s, a[1], [mk('ptr', p.a[0], p.a[1] + (('m', i),))])]
    return out


@nat('HashMap::remove', 'BTreeMap::remove')
def map_remove(E, st, a, c):
    m = E.load(st, a[0])
    k = E.deref(st, a[1])
    if m.k == 'map':
        out = []
        for s, v, i in map_find(E, st, m, k):
            ps = [p for j, p in enumerate(m.a[0]) if j != i]
            out.append((E.store(s, a[0], mk('map', tuple(ps))), NONE if v is None else some(v)))
        return out
    st = E.store(st, a[0], app('del', m, k, ty=m.ty))
    return [(st, mk('app', 'get', (m, k), ty=c.ty))]


@nat('HashSet::remove', 'BTreeSet::remove')
def set_remove(E, st, a, c):
    v, x = E.load(st, a[0]), E.deref(st, a[1])
    out = []
    if v.k != 'set':
        return [(E.store(st, a[0], app('del', v, x, ty=v.ty)), mk('app', 'contains', (v, x)))]
    cur = [st]
    for i, y in enumerate(v.a[0]):
        nxt = []
        for s in cur:
            for s2, b in deq(E, s, y, x):
                if b:
                    out.append((E.store(s2, a[0], mk('set', tuple(z for j, z in enumerate(v.a[0]) if j != i))), TRUE))
                else:
                    nxt.append(s2)
        cur = nxt
    return out + [(s, FALSE) for s in cur]


@nat('slice::sort_by_key', 'slice::sort', 'slice::sort_by', 'slice::sort_unstable', 'slice::sort_unstable_by_key',
     'slice::sort_unstable_by', 'slice::sort_by_cached_key', 'slice::reverse')
def coll_sort(E, st, a, c):
    p = a[0]
    v = E.load(st, p)
    how = short(c.f['path'])
    out = []
    for s, xs in E.expand(st, v):
        if how == 'reverse':
            out.append((E.store(s, p, seq(tuple(reversed(xs)))), UNIT))
        elif len(xs) < 2:
            out.append((s, UNIT))
        else:
            for s2, ys in sorted_elems(E, s, xs, how, a[1] if len(a) > 1 else None):
                out.append((s2 if ys == tuple(xs) and v.k != 'seq' else E.store(s2, p, seq(ys)), UNIT))
    return out


def sorted_elems(E, st, xs, how, f):
    """Stable sort: (state, elements) alternatives."""
    def compare(s, x, y):
        if f is None:
            r = order(E, s, x, y)
        elif callable(f):
            r = order(E, s, f(x), f(y))
        elif 'key' in how:
            r = []
            for s2, k in E.callv(s, f, [x]):
                for s3, l in E.callv(s2, f, [y]):
                    o = order(E, s3, k, l)
                    if o is None:
                        raise Imprecise('order of ' + show(k))
                    r += o
        else:
            r = []
            for s2, o in E.callv(s, f, [x, y]):
                r += E.cases(s2, o)
        if r is None:
            raise Imprecise('order of ' + show(x))
        return r
    cur = [(st, ())]
    for x in xs:
        nxt = []
        for s, ys in cur:
            # insert before the elements which are greater
            work = [(s, len(ys))]
            while work:
                s1, i = work.pop()
                if i == 0:
                    nxt.append((s1, (x,) + ys))
                    continue
                for s2, o in compare(s1, ys[i - 1], x):
                    if o == 2:
                        work.append((s2, i - 1))
                    else:
                        nxt.append((s2, ys[:i] + (x,) + ys[i:]))
        cur = nxt
    return cur


def hash_order(E, xs, btree=False):
    """The order in which a hash table is iterated: arbitrary.  E.hash_seed picks one of two opposite orders."""
    if len(xs) > 1 and not btree and E.hash_seed is not None:
        E.hash_used = True
        if E.hash_seed:
            return tuple(reversed(xs))
    return tuple(xs)


def has_btree(E):
    if not hasattr(E.F, '_btree'):
        E.F._btree = any(short(t.get('path', '')) in ('BTreeMap', 'BTreeSet') for t in E.F.types)
    return E.F._btree


def is_btree(E, v, c=None):
    k = fnkey(c.f) if c is not None and c.f.get('path') else ''
    if k.startswith('BTree'):
        return True
    if k.startswith('Hash'):
        return False
    if is_sym(v) and v.ty is not None:
        return short(E.F.path(v.ty) or '') not in ('HashMap', 'HashSet')
    if v.k not in ('map', 'set'):
        return True
    if has_btree(E) and E.hash_seed is not None:
        raise Imprecise('order of a hash table or of a tree')
    return False


# ---------------------------------------------------------------- iterators

def it(kind, *a):
    return mk('it', kind, *a)


def to_iter(E, st, v, c=None):
    """(state, iterator) alternatives for anything iterable."""
    v0 = v
    if v.k == 'ptr':
        w = E.load(st, v)
        if w.k == 'it' or w.k == 'ptr':
            return [(st, it('ref', v))]
        if w.k == 'adt' and localiter(E, w):
            return [(st, it('ref', v))]
        if w.k == 'seq' or (is_sym(w) and w.ty is not None and E.F.is_coll(w.ty)):
            # mutable iteration
            return [(s, it('list', tuple(mk('ptr', v.a[0], v.a[1] + (('i', i),)) for i in range(len(xs))))) for s, xs in E.expand(st, w)]
        v = E.deref(st, v)
    if v.k == 'it':
        return [(st, v)]
    if v.k in ('map', 'set'):
        return [(st, it('list', hash_order(E, v.a[0], is_btree(E, v, c))))]
    if v.k == 'seq':
        return [(st, it('list', v.a[0]))]
    if v.k == 'adt':
        p = short(v.a[0])
        if p in ('Range', 'RangeInclusive', 'RangeFrom'):
            lo = v.a[2][0]
            hi = v.a[2][1] if p != 'RangeFrom' else None
            if p == 'RangeInclusive':
                hi = add(hi, I(1))
            return [(st, it('range', lo, hi))]
        if p == 'Option':
            return [(st, it('list', (v.a[2][0],) if v.a[1] else ()))]
        if p == 'Result':
            return [(st, it('list', (v.a[2][0],) if not v.a[1] else ()))]
        if localiter(E, v):
            return [(st, it('local', v))]
    if is_sym(v) and v.ty is not None:
        p = E.F.path(v.ty)
        if p == OPT:
            return [(s, it('list', (E.field(v, 1, 0),) if k else ())) for s, k in E.cases(st, v)]
        if E.F.is_coll(v.ty):
            return [(s, it('list', hash_order(E, xs, is_btree(E, v, c)))) for s, xs in E.expand(st, v)]
        if any(E.F.path(i['self']) == p for i in E.F.trait_items('Iterator', 'next')):
            return [(st, it('local', v))]
        if E.F.types[E.F.strip(v.ty)]['k'] in ('alias', 'param', 'dyn') or 'ter' in (p or ''):
            return [(st, it('opaque', v))]
    if v.k == 'clo' or v.k == 'tup':
        pass
    raise Imprecise('iteration over ' + show(v0))


def localiter(E, v):
    for i in E.F.trait_items('Iterator', 'next'):
        if E.F.path(i['self']) == v.a[0]:
            return i
    return None


def has_into_iter(E, v):
    p = E.pathof(v)
    for i in E.F.trait_items('IntoIterator', 'into_iter'):
        if p and E.F.path(i['self']) == p:
            return i
    return None


@nat('IntoIterator::into_iter')
def into_iter(E, st, a, c):
    i = has_into_iter(E, a[0])
    if i is not None:
        return E.enter(st, i['inst'], i['path'], a, c)
    return to_iter(E, st, a[0])


@nat('slice::iter', 'HashMap::iter', 'HashMap::into_iter', 'HashSet::iter', 'Vec::iter', 'BTreeMap::iter', 'Option::iter')
def coll_iter(E, st, a, c):
    return to_iter(E, st, E.deref(st, a[0]), c)


@nat('slice::iter_mut', 'Vec::iter_mut')
def coll_iter_mut(E, st, a, c):
    return to_iter(E, st, a[0])


@nat('HashMap::keys', 'HashMap::into_keys', 'BTreeMap::keys')
def map_keys(E, st, a, c):
    return [(s, it('list', hash_order(E, tuple(x.a[0][0] for x in xs), is_btree(E, a[0], c)))) for s, xs in E.expand(st, E.deref(st, a[0]))]


@nat('HashMap::values', 'HashMap::into_values', 'BTreeMap::values')
def map_values(E, st, a, c):
    return [(s, it('list', hash_order(E, tuple(x.a[0][1] for x in xs), is_btree(E, a[0], c)))) for s, xs in E.expand(st, E.deref(st, a[0]))]


@nat('iter::once')
def it_once(E, st, a, c):
    return [(st, it('list', (a[0],)))]


@nat('iter::empty')
def it_empty(E, st, a, c):
    return [(st, it('list', ()))]


@nat('iter::from_fn')
def it_from_fn(E, st, a, c):
    return [(st, it('fromfn', a[0]))]


@nat('iter::successors')
def it_succ(E, st, a, c):
    return [(st, it('succ', a[0], a[1]))]


@nat('iter::repeat')
def it_repeat(E, st, a, c):
    return [(st, it('repeat', a[0]))]


def adaptor(*names):
    def reg(fn):
        for n in names:
            def f(E, st, a, c, fn=fn):
                return [(s, fn(E, i, a)) for s, i in to_iter(E, st, a[0])]
            N['Iterator::' + n] = f
        return fn
    return reg


for _n in ('map', 'filter', 'filter_map', 'flat_map', 'take_while', 'skip_while', 'map_while', 'inspect'):
    adaptor(_n)(lambda E, i, a, _n=_n: it(_n if _n != 'flat_map' else 'flat_map', i, a[1], *((NONE,) if _n == 'flat_map' else ())))
adaptor('flatten')(lambda E, i, a: it('flatten', i, NONE))
adaptor('enumerate')(lambda E, i, a: it('enumerate', i, I(0)))
adaptor('cloned', 'copied', 'fuse')(lambda E, i, a: i)
adaptor('peekable')(lambda E, i, a: it('peekable', i, NONE))
adaptor('rev')(lambda E, i, a: it('rev', i))
adaptor('take')(lambda E, i, a: it('take', i, a[1]))
adaptor('skip')(lambda E, i, a: it('skip', i, a[1]))
adaptor('scan')(lambda E, i, a: it('scan', i, a[1], a[2]))


@nat('Iterator::chain', 'Iterator::zip', 'iter::zip')
def it_chain(E, st, a, c):
    n = short(c.f['path'])
    return [(s2, it(n, i, j)) for s, i in to_iter(E, st, a[0]) for s2, j in to_iter(E, s, a[1])]


def inext(E, st, i):
    """(state, iterator afterwards, Option item)"""
    k = i.a[0]
    a = i.a[1:]
    if k == 'list':
        if a[0]:
            return [(st, it('list', a[0][1:]), some(a[0][0]))]
        return [(st, i, NONE)]
    if k == 'more':         # any number of any items
        return [(st, it('list', ()), NONE), (st, it('more', a[0], a[1], a[2] + 1), some(sym('%s.%d' % (a[1], a[2]), a[0])))]
    if k == 'ref':
        p = a[0]
        w = E.load(st, p)
        out = []
        if w.k == 'ptr':
            return [(s, i, v) for s, _, v in inext(E, st, it('ref', w))]
        if w.k == 'it':
            for s, j, v in inext(E, st, w):
                out.append((E.store(s, p, j), i, v))
            return out
        li = localiter(E, w) if w.k == 'adt' else None
        if li is None and is_sym(w):
            li = next((x for x in E.F.trait_items('Iterator', 'next') if E.F.path(x['self']) == E.F.path(w.ty)), None)
        if li is None:
            raise Imprecise('iterator ' + show(w))
        return [(s, i, v) for s, v in E.enter(st, li['inst'], li['path'], [p], Cx())]
    if k == 'local':
        s0, cell = st.alloc(a[0])
        li = localiter(E, a[0]) if a[0].k == 'adt' else next(x for x in E.F.trait_items('Iterator', 'next') if E.F.path(x['self']) == E.F.path(a[0].ty))
        out = []
        for s, v in E.enter(s0, li['inst'], li['path'], [mk('ptr', cell, ())], Cx()):
            w = s.store[cell]
            out.append((s.free(cell), it('local', w), v))
        return out
    if k == 'map':
        out = []
        for s, j, v in inext(E, st, a[0]):
            if v is NONE:
                out.append((s, it(k, j, a[1]), NONE))
            else:
                for s2, r, f in E.callm(s, a[1], [v.a[2][0]]):
                    out.append((s2, it(k, j, f), some(r)))
        return out
    if k in ('filter', 'filter_map', 'skip_while', 'inspect', 'map_while', 'take_while'):
        out = []
        work = [(st, a[0], a[1])]
        n = 0
        while work:
            n += 1
            if n > 400:
                raise Imprecise('filter')
            s, j, f = work.pop()
            for s1, j1, v in inext(E, s, j):
                if v is NONE:
                    out.append((s1, it(k, j1, f), NONE))
                    continue
                x = v.a[2][0]
                for s2, r, f2 in E.callm(s1, f, [x]):
                    if k in ('filter_map', 'map_while'):
                        for s3, b in E.cases(s2, r):
                            if b:
                                out.append((s3, it(k, j1, f2), some(E.field(r, 1, 0))))
                            elif k == 'map_while':
                                out.append((s3, it('list', ()), NONE))
                            else:
                                work.append((s3, j1, f2))
                    elif k == 'inspect':
                        out.append((s2, it(k, j1, f2), v))
                    else:
                        for s3, b in E.truth(s2, r):
                            if k == 'filter':
                                if b:
                                    out.append((s3, it(k, j1, f2), v))
                                else:
                                    work.append((s3, j1, f2))
                            elif k == 'skip_while':
                                if b:
                                    work.append((s3, j1, f2))
                                else:
                                    out.append((s3, j1, v))
                            else:
                                out.append((s3, it(k, j1, f2), v) if b else (s3, it('list', ()), NONE))
        return out
    if k in ('flat_map', 'flatten'):
        inner, outer = a[-1], a[0]
        f = a[1] if k == 'flat_map' else None
        out = []
        work = [(st, outer, f, inner)]
        n = 0
        while work:
            n += 1
            if n > 400:
                raise Imprecise('flat_map')
            s, o, f, inn = work.pop()
            if inn is not NONE:
                for s1, j, v in inext(E, s, inn):
                    if v is NONE:
                        work.append((s1, o, f, NONE))
                    else:
                        out.append((s1, it(k, o, f, j) if f is not None else it(k, o, j), v))
                continue
            for s1, o1, v in inext(E, s, o):
                if v is NONE:
                    out.append((s1, it(k, o1, f, NONE) if f is not None else it(k, o1, NONE), NONE))
                    continue
                x = v.a[2][0]
                rs = E.callm(s1, f, [x]) if f is not None else [(s1, x, None)]
                for s2, r, f2 in rs:
                    for s3, j in to_iter(E, s2, r):
                        work.append((s3, o1, f2, j))
        return out
    if k == 'chain':
        out = []
        for s, j, v in inext(E, st, a[0]):
            if v is NONE:
                for s2, l, w in inext(E, s, a[1]):
                    out.append((s2, it('chain', it('list', ()), l), w))
            else:
                out.append((s, it('chain', j, a[1]), v))
        return out
    if k == 'zip':
        out = []
        for s, j, v in inext(E, st, a[0]):
            if v is NONE:
                out.append((s, it('list', ()), NONE))
                continue
            for s2, l, w in inext(E, s, a[1]):
                out.append((s2, it('zip', j, l), NONE if w is NONE else some(tup(v.a[2][0], w.a[2][0]))))
        return out
    if k == 'enumerate':
        return [(s, it(k, j, add(a[1], I(1))), v if v is NONE else some(tup(a[1], v.a[2][0]))) for s, j, v in inext(E, st, a[0])]
    if k == 'peekable':
        if a[1] is not NONE:
            return [(st, it(k, a[0], NONE), a[1].a[2][0])]
        return [(s, it(k, j, NONE), v) for s, j, v in inext(E, st, a[0])]
    if k == 'rev':
        if a[0].a[0] == 'range':
            lo, hi = a[0].a[1:]
            out = []
            for s, b in E.truth(st, E.rng(sub(hi, lo), 1, None)):
                out.append((s, it('rev', it('range', lo, sub(hi, I(1)))), some(sub(hi, I(1)))) if b else (s, i, NONE))
            return out
        out = []
        for s, xs in drain(E, st, a[0]):
            xs = tuple(reversed(xs))
            out.append((s, it('list', xs[1:]), some(xs[0])) if xs else (s, it('list', ()), NONE))
        return out
    if k == 'take':
        if a[0].k == 'it' and a[0].a[0] == 'repeat' and a[1].k != 'int':
            return [(s, j, v if v is NONE else some(a[0].a[1])) for s, j, v in accel_first(E, st, ('range', I(0), a[1]))]
        out = []
        for s, b in E.truth(st, E.rng(a[1], 1, None)):
            if not b:
                out.append((s, i, NONE))
            else:
                for s2, j, v in inext(E, s, a[0]):
                    out.append((s2, it(k, j, sub(a[1], I(1))), v))
        return out
    if k == 'skip':
        out, work = [], [(st, a[0], a[1])]
        while work:
            s, j, n = work.pop()
            for s1, b in E.truth(s, E.rng(n, 1, None)):
                for s2, j2, v in inext(E, s1, j):
                    if b and v is not NONE:
                        work.append((s2, j2, sub(n, I(1))))
                    else:
                        out.append((s2, it(k, j2, I(0)), v))
        return out
    if k == 'range':
        lo, hi = a
        if hi is None:
            return [(st, it(k, add(lo, I(1)), hi), some(lo))]
        l, h = E.bounds(st, sub(hi, lo))
        if hi.k == 'int' and lo.k == 'int' or (h is not None and h <= 4):
            out = []
            for s, b in E.truth(st, E.rng(sub(hi, lo), 1, None)):
                out.append((s, it(k, add(lo, I(1)), hi), some(lo)) if b else (s, i, NONE))
            return out
        return accel_first(E, st, ('range', lo, hi))
    if k == 'chars':
        return accel_first(E, st, ('chars', a[0]))
    if k == 'accel':
        return accel_again(E, st, i)
    if k == 'fromfn':
        return [(s, it(k, f), r) for s, r, f in E.callm(st, a[0], [])]
    if k == 'succ':
        out = []
        for s, b in E.cases(st, a[0]):
            if not b:
                out.append((s, i, NONE))
            else:
                x = E.field(a[0], 1, 0)
                for s2, r, f in E.callm(s, a[1], [x]):
                    out.append((s2, it(k, r, f), some(x)))
        return out
    if k == 'repeat':
        return [(st, i, some(a[0]))]
    if k == 'nomiter':
        return E.nomiter_next(st, i)
    if k == 'opaque' and E.anyitems is not None:
        # the items of an unknown iterator; what is left is counted like the elements of collections
        n = i.a[2] if len(i.a) > 2 else 0
        out = [(st, it('list', ()), NONE)]
        if n < E.max_elems:
            out += [(s, it(k, i.a[1], n + 1), some(v)) for s, v in E.anyitems(st)]
        return out
    raise Imprecise('iterator ' + k)


# Loops over a symbolic number of rounds or over the characters of a symbolic string: the body is
# interpreted for one arbitrary round; if all it does is to append to texts, the loop appends the
# repeated piece (or the text with every character replaced).

_ACC = {}


def accel_first(E, st, what):
    out = []
    key = mk('accelkey', *what)
    if what[0] == 'range':
        n = sub(what[2], what[1])
        for s, b in E.truth(st, E.rng(n, 1, None)):
            if not b:
                out.append((s, it('list', ()), NONE))
            else:
                x = sym('round%d' % key.id)
                s2 = s.fact(('int', x), E.bounds(s, what[1])[:1] + (None,))
                out.append((s2, accel_state(E, s2, what, n, x), some(x)))
        return out
    sv = what[1]
    if any(isinstance(p, str) for p in pieces(sv)) or len(pieces(sv)) > 1:
        raise Imprecise('characters of a compound text')
    c = mk('sym', 'c@%d' % sv.id, ty=E.F.named('char'))
    for s, b in E.truth(st, E.rng(app('strlen', sv), 0, 0)):
        if b:
            out.append((s, it('list', ()), NONE))
        else:
            at = E.charset(sv) if hasattr(E, 'charset') else ATOMS
            s2 = s.fact(('chr', c), at)
            out.append((s2, accel_state(E, s2, what, None, c), some(c)))
    return out


def accel_state(E, st, what, n, x):
    snap = (dict(st.store), list(E.curloc) if E.curloc is not None else None, E.curtag, what, n, x)
    k = ('snap', what, n, x, tuple(sorted((a, b.id) for a, b in st.store.items())))
    i = len(_ACC)
    _ACC[i] = snap
    return it('accel', i)


def accel_again(E, st, i):
    store0, loc0, tag, what, n, x = _ACC[i.a[1]]
    st2 = st
    for cell, v in st.store.items():
        old = store0.get(cell)
        if old is v or (v.k == 'it') or cell not in store0:
            continue
        delta = appended(old, v)
        if delta is None:
            raise Imprecise('loop with state over an unbounded range')
        st2 = st2.put(cell, text([old, loop_piece(E, st, what, n, x, delta)]))
    cur = E.curloc
    if loc0 is not None and cur is not None and tag == E.curtag:
        for o, v in zip(loc0, cur):
            if o is not None and o is not v and o.__class__ is not tuple and v is not None and o.k not in ('it', 'ptr', 'undef'):
                if o.k == 'adt' and o.a[0] in (OPT, RES, CF):
                    continue
                raise Imprecise('loop with state over an unbounded range')
    return [(st2, it('list', ()), NONE)]


def appended(old, new):
    """The pieces appended to a text."""
    po, pn = pieces(old), pieces(new)
    if len(pn) < len(po):
        return None
    for j, p in enumerate(po):
        q = pn[j]
        if p is q or p == q:
            continue
        if isinstance(p, str) and isinstance(q, str) and j == len(po) - 1 and q.startswith(p):
            return ([q[len(p):]] if q != p else []) + list(pn[j + 1:])
        return None
    return list(pn[len(po):])


def loop_piece(E, st, what, n, x, delta):
    if what[0] == 'range':
        if len(delta) == 1 and isinstance(delta[0], str) and len(delta[0]) == 1:
            return app('rep', delta[0], n)
        if not delta:
            return text([])
        raise Imprecise('repeated text')
    at = E.atoms(st, x)
    return mk('app', 'esc', (what[1], ((at, tuple(SELFCHAR if p is x else p for p in delta)),)))


def drain(E, st, i):
    """All items of an iterator: (state, tuple)."""
    return [(s, xs) for s, xs, _ in drainj(E, st, i)]


def drainj(E, st, i):
    """All items of an iterator: (state, tuple, iterator afterwards)."""
    out = []
    work = [(st, i, ())]
    n = 0
    while work:
        n += 1
        if n > 3000:
            raise Imprecise('unbounded iteration')
        s, j, xs = work.pop()
        if j.a[0] == 'list':
            out.append((s, xs + j.a[1], it('list', ())))
            continue
        for s2, j2, v in inext(E, s, j):
            if v is NONE:
                out.append((s2, xs, j2))
            elif v.k != 'adt':
                for s3, b in E.cases(s2, v):
                    if b:
                        work.append((s3, j2, xs + (E.field(v, 1, 0),)))
                    else:
                        out.append((s3, xs, j2))
            else:
                work.append((s2, j2, xs + (v.a[2][0],)))
    return out


def norm_next(E, outs):
    """Make the items returned by next explicit."""
    r = []
    for s, j, v in outs:
        if v.k == 'adt':
            r.append((s, j, v))
        else:
            for s2, b in E.cases(s, v):
                r.append((s2, j, some(E.field(v, 1, 0)) if b else NONE))
    return r


@nat('Iterator::next')
def it_next(E, st, a, c):
    p = a[0]
    if p.k != 'ptr':
        raise Imprecise('next on ' + show(p))
    w = E.load(st, p)
    if w.k != 'it':
        if w.k == 'adt' and not localiter(E, w):
            out = []
            for s, i in to_iter(E, st, w):
                for s2, j, v in inext(E, s, i):
                    out.append((E.store(s2, p, j), v))
            return out
        return [(s, v) for s, _, v in inext(E, st, it('ref', p))]
    return [(E.store(s, p, j), v) for s, j, v in inext(E, st, w)]


@nat('Peekable::peek')
def it_peek(E, st, a, c):
    w = E.load(st, a[0])
    if w.a[2] is not NONE:
        return [(st, w.a[2].a[2][0])]
    return [(E.store(s, a[0], it('peekable', j, some(v))), v) for s, j, v in inext(E, st, w.a[1])]


@nat('DoubleEndedIterator::next_back')
def it_next_back(E, st, a, c):
    out = []
    for s, xs in drain(E, st, E.load(st, a[0])):
        out.append((E.store(s, a[0], it('list', xs[:-1])), some(xs[-1]) if xs else NONE))
    return out


def iterate(E, st, i, init, step):
    """Fold: step(state, acc, item) -> (state, 'go'|'stop', acc).  Returns (state, acc, iterator)."""
    out = []
    work = [(st, i, init)]
    n = 0
    while work:
        n += 1
        if n > 3000:
            raise Imprecise('unbounded iteration')
        s, j, acc = work.pop()
        for s2, j2, v in norm_next(E, inext(E, s, j)):
            if v is NONE:
                out.append((s2, acc, j2))
                continue
            for s3, k, acc2 in step(s2, acc, v.a[2][0]):
                if k == 'go':
                    work.append((s3, j2, acc2))
                else:
                    out.append((s3, acc2, j2))
    return out


def source(E, st, v):
    """Iterator behind a receiver, and how to store it back."""
    if v.k == 'ptr':
        w = E.load(st, v)
        if w.k == 'it':
            return [(st, w, v)]
        return [(s, i, None) for s, i in to_iter(E, st, v)]
    return [(s, i, None) for s, i in to_iter(E, st, v)]


def back(E, s, p, j):
    return E.store(s, p, j) if p is not None else s


def special_consume(E, st, i, f, init, kind):
    """Loops over symbolic ranges and texts by native adaptors."""
    if i.a[0] not in ('chars', 'range', 'map', 'flat_map', 'filter'):
        return None
    return None


def is_try_cont(E, s, r):
    """Classify a Try value: (state, continue?, payload)."""
    out = []
    p = E.pathof(r)
    for s2, v in E.cases(s, r):
        if p == OPT:
            out.append((s2, v == 1, E.field(r, 1, 0) if v == 1 else None))
        elif p == RES:
            out.append((s2, v == 0, E.field(r, 0, 0) if v == 0 else None))
        else:
            out.append((s2, v == CF_CONT, E.field(r, CF_CONT, 0) if v == CF_CONT else None))
    return out


def mkok(E, ty, p, x):
    path = p or (E.F.path(ty) if ty is not None else RES)
    if path == OPT:
        return some(x)
    if path == RES:
        return ok(x)
    return adt(CF, CF_CONT, x)


@nat('Iterator::try_for_each', 'Iterator::try_fold')
def it_try_fold(E, st, a, c):
    fold = short(c.f['path']) == 'try_fold'
    f = a[2] if fold else a[1]
    init = a[1] if fold else UNIT
    out = []
    rp = E.F.path(c.ty) if c.ty is not None else None
    if rp not in (OPT, RES, CF):
        rp = RES

    def step(s, acc, x):
        fv, av = acc
        r = []
        for s2, v, f2 in E.callm(s, fv, ([av] if fold else []) + [x]):
            for s3, go, w in is_try_cont(E, s2, v):
                if go:
                    r.append((s3, 'go', (f2, w)))
                else:
                    r.append((s3, 'stop', (f2, ('brk', v))))
        return r
    for s, i, p in source(E, st, a[0]):
        for s2, (f2, acc), j in iterate(E, s, i, (f, init), step):
            s2 = back(E, s2, p, j)
            if isinstance(acc, tuple):
                out.append((s2, acc[1]))
            else:
                out.append((s2, mkok(E, c.ty, rp, acc)))
    return E.merged(out)


@nat('Iterator::for_each', 'Iterator::fold')
def it_fold(E, st, a, c):
    fold = short(c.f['path']) == 'fold'
    f = a[2] if fold else a[1]
    init = a[1] if fold else UNIT

    def step(s, acc, x):
        fv, av = acc
        return [(s2, 'go', (f2, v if fold else UNIT)) for s2, v, f2 in E.callm(s, fv, ([av] if fold else []) + [x])]
    out = []
    for s, i, p in source(E, st, a[0]):
        for s2, (f2, acc), j in iterate(E, s, i, (f, init), step):
            out.append((back(E, s2, p, j), acc))
    return E.merged(out)


@nat('Iterator::all', 'Iterator::any', 'Iterator::find', 'Iterator::position', 'Iterator::find_map')
def it_all(E, st, a, c):
    n = short(c.f['path'])

    def step(s, acc, x):
        fv, _, k = acc
        r = []
        for s2, v, f2 in E.callm(s, fv, [x]):
            if n == 'find_map':
                for s3, b in E.cases(s2, v):
                    r.append((s3, 'stop', (f2, v, k)) if b else (s3, 'go', (f2, NONE, k)))
                continue
            for s3, b in E.truth(s2, v):
                if n == 'all':
                    r.append((s3, 'go', (f2, TRUE, k)) if b else (s3, 'stop', (f2, FALSE, k)))
                elif n == 'any':
                    r.append((s3, 'stop', (f2, TRUE, k)) if b else (s3, 'go', (f2, FALSE, k)))
                elif n == 'find':
                    r.append((s3, 'stop', (f2, some(x), k)) if b else (s3, 'go', (f2, NONE, k)))
                else:
                    r.append((s3, 'stop', (f2, some(I(k)), k)) if b else (s3, 'go', (f2, NONE, k + 1)))
        return r
    init = {'all': TRUE, 'any': FALSE}.get(n, NONE)
    out = []
    for s, i, p in source(E, st, a[0]):
        for s2, (f2, acc, k), j in iterate(E, s, i, (a[1], init, 0), step):
            out.append((back(E, s2, p, j), acc))
    return E.merged(out)


@nat('Iterator::count', 'Iterator::last', 'Iterator::nth', 'Iterator::sum', 'Iterator::max', 'Iterator::min')
def it_count(E, st, a, c):
    n = short(c.f['path'])
    out = []
    for s, i, p in source(E, st, a[0]):
        for s2, xs in drain(E, s, i):
            if n == 'count':
                out.append((s2, I(len(xs))))
            elif n == 'last':
                out.append((s2, some(xs[-1]) if xs else NONE))
            elif n == 'nth' and a[1].k == 'int':
                k = a[1].a[0]
                s2 = back(E, s2, p, it('list', xs[k + 1:]))
                out.append((s2, some(xs[k]) if k < len(xs) else NONE))
            else:
                return None
    return out


@nat('Iterator::eq')
def it_eq(E, st, a, c):
    out = []
    for s, i, _ in source(E, st, a[0]):
        for s1, xs in drain(E, s, i):
            for s2, j in to_iter(E, s1, a[1]):
                for s3, ys in drain(E, s2, j):
                    if len(xs) != len(ys):
                        out.append((s3, FALSE))
                    else:
                        out += [(q, Bo(b)) for q, b in conj(E, s3, list(zip(xs, ys)))]
    return out


@nat('Iterator::size_hint')
def it_size(E, st, a, c):
    return [(st, tup(I(0), NONE))]


def build(E, st, ty, xs):
    """A collection of the given type from items."""
    F = E.F
    i = F.strip(ty) if ty is not None else None
    if i is not None:
        t = F.types[i]
        p = t.get('path')
        if F.is_str(i):
            return [(st, text([strval(E, st, x) for x in xs]))]
        if p in (RES, OPT):
            good = 0 if p == RES else 1
            cur = [(st, ())]
            out = []
            for x in xs:
                nxt = []
                for s, acc in cur:
                    for s2, v in E.cases(s, x):
                        if v == good:
                            nxt.append((s2, acc + (E.field(x, v, 0),)))
                        else:
                            out.append((s2, err(E.field(x, 1, 0)) if p == RES else NONE))
                cur = nxt
            for s, acc in cur:
                for s2, v in build(E, s, t['args'][0], acc):
                    out.append((s2, ok(v) if p == RES else some(v)))
            return out
        if t['k'] == 'tuple' and not t['of']:
            return [(st, UNIT)]
        if p and short(p) in ('BTreeMap', 'BTreeSet') and len(xs) > 1:
            key = (lambda v: E.expose(st, v).a[0][0]) if short(p) == 'BTreeMap' else (lambda v: v)
            pairs = tuple(tup(key(x), x) for x in xs)
            ks = sorted_elems(E, st, pairs, 'sort_by_key', lambda v: v.a[0][0])
            if len(ks) != 1:
                raise Imprecise('order of a tree')
            st, xs = ks[0][0], tuple(x.a[0][1] for x in ks[0][1])
        if p and short(p) in ('HashMap', 'BTreeMap'):
            m = mk('map', ())
            cur = [(st, m)]
            for x in xs:
                nxt = []
                for s, m in cur:
                    s1, cell = s.alloc(m)
                    kv = E.expose(s, x)
                    for s2, _ in map_insert(E, s1, [mk('ptr', cell, ()), kv.a[0][0], kv.a[0][1]], Cx()):
                        nxt.append((s2.free(cell), s2.store[cell]))
                cur = nxt
            return cur
        if p and short(p) in ('HashSet', 'BTreeSet'):
            cur = [(st, mk('set', ()))]
            for x in xs:
                nxt = []
                for s, m in cur:
                    s1, cell = s.alloc(m)
                    for s2, _ in set_insert(E, s1, [mk('ptr', cell, ()), x], Cx()):
                        nxt.append((s2.free(cell), s2.store[cell]))
                cur = nxt
            return cur
        if t['k'] == 'adt' and t.get('local'):
            for itm in F.trait_items('FromIterator', 'from_iter'):
                if F.path(itm['self']) == p:
                    return E.enter(st, itm['inst'], itm['path'], [it('list', xs)], Cx({}, ty))
    return [(st, seq(xs))]


@nat('Iterator::collect', 'FromIterator::from_iter')
def it_collect(E, st, a, c):
    if c.f.get('name') == 'from_iter' and c.f.get('local') and c.f.get('inst') in E.F.bodies:
        return None
    out = []
    p = E.F.path(c.ty) if c.ty is not None else None
    # collecting into a Result or an Option stops at the first failure
    for s, i, q in source(E, st, a[0]):
        if p in (RES, OPT):
            good = 0 if p == RES else 1

            def step(s1, acc, x):
                return [(s2, 'go', acc + (E.field(x, v, 0),)) if v == good else (s2, 'stop', ('brk', x)) for s2, v in E.cases(s1, x)]
            for s2, acc, j in iterate(E, s, i, (), step):
                s2 = back(E, s2, q, j)
                if acc and acc[0] == 'brk':
                    out.append((s2, err(E.field(acc[1], 1, 0)) if p == RES else NONE))
                else:
                    for s3, v in build(E, s2, E.F.types[E.F.strip(c.ty)]['args'][0], acc):
                        out.append((s3, ok(v) if p == RES else some(v)))
            continue
        if i.a[0] in ('chars',) and p and E.F.is_str(c.ty):
            out.append((s, i.a[1]))
            continue
        r = esc_collect(E, s, i, c)
        if r is None:
            r = rep_collect(E, s, i, c)
        if r is not None:
            out += r
            continue
        for s2, xs, j in drainj(E, s, i):
            s2 = back(E, s2, q, j)
            out += build(E, s2, c.ty, xs)
    return E.merged(out)


def esc_collect(E, st, i, c):
    """`s.chars().map(..)/flat_map(..).collect::<String>()` for a symbolic text."""
    if c.ty is None or not E.F.is_str(c.ty):
        return None
    j = i
    while j.k == 'it' and j.a[0] in ('map', 'flat_map', 'flatten', 'filter'):
        j = j.a[1]
    if not (j.k == 'it' and j.a[0] == 'chars') or j is i:
        return None
    sv = j.a[1]
    out = []
    for s, j1, v in accel_first(E, st, ('chars', sv)):
        if v is NONE:
            out.append((s, text([])))
            continue
        x = v.a[2][0]
        k = rebase(i, it('list', (x,)))
        for s2, xs in drain(E, s, k):
            t = text([strval(E, s2, y) for y in xs])
            d = tuple(SELFCHAR if p is x else p for p in pieces(t)) if t is not x else (SELFCHAR,)
            out.append((s2, mk('app', 'esc', (sv, ((E.atoms(s2, x), d),)))))
    return out


def rep_collect(E, st, i, c):
    """`(0..n).map(|_| ' ').collect::<String>()`, `repeat(' ').take(n).collect::<String>()` for a symbolic number."""
    if c.ty is None or not E.F.is_str(c.ty):
        return None
    j, up = i, []
    while j.k == 'it' and j.a[0] in ('map', 'flat_map', 'flatten'):
        up.append(j)
        j = j.a[1]
    if j.k != 'it':
        return None
    if j.a[0] == 'range' and j.a[2] is not None:
        n, x = sub(j.a[2], j.a[1]), None
    elif j.a[0] == 'take' and j.a[1].k == 'it' and j.a[1].a[0] == 'repeat':
        n, x = j.a[2], j.a[1].a[1]
    else:
        return None
    if n.k == 'int':
        return None
    out = []
    for s, b in E.truth(st, E.rng(n, 1, None)):
        if not b:
            out.append((s, text([])))
            continue
        y = x
        if y is None:
            y = sym('round%d' % mk('repkey', j).id)
            s = s.fact(('int', y), E.bounds(s, j.a[1])[:1] + (None,))
        k = it('list', (y,))
        for u in reversed(up):
            k = it(u.a[0], k, *u.a[2:])
        for s2, xs in drain(E, s, k):
            t = pieces(text([strval(E, s2, z) for z in xs]))
            if len(t) != 1 or not isinstance(t[0], str) or len(t[0]) != 1:
                raise Imprecise('repeated text')
            out.append((s2, text([app('rep', t[0], n)])))
    return out


def rebase(i, new):
    if i.a[0] == 'chars':
        return new
    return it(i.a[0], rebase(i.a[1], new), *i.a[2:])


@nat('Extend::extend')
def extend(E, st, a, c):
    out = []
    for s, i in to_iter(E, st, a[1]):
        for s2, xs in drain(E, s, i):
            v = E.load(s2, a[0])
            if v.k == 'seq':
                out.append((E.store(s2, a[0], seq(v.a[0] + xs)), UNIT))
            elif v.k == 'map' or (is_sym(v) and v.ty is not None and short(E.F.path(v.ty) or '') == 'HashMap'):
                cur = [s2]
                for x in xs:
                    nxt = []
                    for s3 in cur:
                        kv = E.expose(s3, x)
                        nxt += [s4 for s4, _ in map_insert(E, s3, [a[0], kv.a[0][0], kv.a[0][1]], c)]
                    cur = nxt
                out += [(s3, UNIT) for s3 in cur]
            elif v.k == 'str' or (v.ty is not None and E.F.is_str(v.ty)):
                out.append((E.store(s2, a[0], text([v] + [strval(E, s2, x) for x in xs])), UNIT))
            elif is_sym(v):
                for x in xs:
                    v = app('push', v, x, ty=v.ty)
                out.append((E.store(s2, a[0], v), UNIT))
            else:
                raise Imprecise('extend')
    return out


@nat('Iterator::partition')
def it_partition(E, st, a, c):
    def step(s, acc, x):
        fv, y, n = acc
        return [(s3, 'go', (f2, y + (x,), n) if b else (f2, y, n + (x,))) for s2, v, f2 in E.callm(s, fv, [x]) for s3, b in E.truth(s2, v)]
    out = []
    for s, i, p in source(E, st, a[0]):
        for s2, (f2, y, n), j in iterate(E, s, i, (a[1], (), ()), step):
            out.append((s2, tup(seq(y), seq(n))))
    return out


# ---------------------------------------------------------------- formatting

@nat('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex', 'Argument::new_binary',
     'Argument::new_octal', 'Argument::new_lower_exp', 'Argument::new_upper_exp')
def arg_new(E, st, a, c):
    n = short(c.f['path'])[4:]
    args = c.f.get('args') or []
    return [(st, mk('arg', n, a[0], args[-1] if args else None))]


@nat('Argument::from_usize')
def arg_usize(E, st, a, c):
    return [(st, mk('arg', 'usize', a[0], None))]


@nat('Arguments::from_str', 'Arguments::from_str_nonconst')
def args_str(E, st, a, c):
    return [(st, mk('fmtargs', tuple(pieces(a[0]))))]


@nat('Arguments::new', 'Arguments::new_const', 'Arguments::new_v1')
def args_new(E, st, a, c):
    tpl = a[0]
    if tpl.k != 'bytes':
        if tpl.k == 'str':
            tpl = mk('bytes', cstr(tpl).encode('latin-1'))
        elif tpl.k == 'seq':
            tpl = mk('bytes', bytes(x.a[0] for x in tpl.a[0]))
        else:
            raise Imprecise('format template ' + show(tpl))
    args = a[1].a[0] if len(a) > 1 else ()
    return [(st, mk('fmtargs', tuple(decode(tpl.a[0], args))))]


def decode(b, args):
    out, i, nxt = [], 0, 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(b[i:i + x].decode())
            i += x
        elif x == 0x80:
            n = struct.unpack('<H', b[i:i + 2])[0]
            i += 2
            out.append(b[i:i + n].decode())
            i += n
        elif x >= 0xC0:
            flags = 0xE0000020
            width = prec = None
            if x & 1:
                flags = struct.unpack('<I', b[i:i + 4])[0]
                i += 4
            if x & 2:
                width = struct.unpack('<H', b[i:i + 2])[0]
                i += 2
                if x & 16:
                    width = args[width].a[1]
            if x & 4:
                prec = struct.unpack('<H', b[i:i + 2])[0]
                i += 2
                if x & 32:
                    prec = args[prec].a[1]
            if x & 8:
                nxt = struct.unpack('<H', b[i:i + 2])[0]
                i += 2
            out.append(('ph', args[nxt], flags, width, prec))
            nxt += 1
        else:
            raise Imprecise('format template')
    return [p if isinstance(p, str) else mk('ph', p[1], p[2], p[3], p[4]) for p in out]


def sink_of(E, st, p):
    """The pointer to the text behind a formatter or writer."""
    n = 0
    while True:
        n += 1
        if p.k != 'ptr' or n > 20:
            return None
        v = E.load(st, p)
        if v.k == 'ptr':
            p = v
            continue
        return p


def emit(E, st, p, v):
    """Append text to a sink: outcomes with a fmt::Result."""
    q = sink_of(E, st, p)
    if q is None:
        raise Imprecise('sink ' + show(p))
    w = E.load(st, q)
    if w.k == 'adt':
        for itm in E.F.trait_items('Write', 'write_str'):
            if E.F.path(itm['self']) == w.a[0]:
                return E.enter(st, itm['inst'], itm['path'], [q, v], Cx())
        raise Imprecise('custom writer')
    if E.sink_errors:
        if any(x is SINKERR for x in pieces(w)):
            E.after_error(st)
        if any(x is SINKERR or x is SINKOK for x in pieces(w)):
            return [(st, ok(UNIT)), (E.store(st, q, text([SINKERR])), err(FMTERR))]
    return [(E.store(st, q, text([w, v])), ok(UNIT))]


def then(E, outs, fn):
    """Continue with fn on the states whose result is Ok; errors are returned at once."""
    r = []
    for s, v in outs:
        for s2, k in E.cases(s, v):
            if k == 0:
                r += fn(s2)
            else:
                r.append((s2, v if v.k == 'adt' else err(FMTERR)))
    return r


def write_args(E, st, p, fa):
    outs = [(st, ok(UNIT))]
    fa = E.deref(st, fa)
    if fa.k != 'fmtargs':
        if fa.k == 'str' or is_sym(fa):
            return emit(E, st, p, fa)
        raise Imprecise('format arguments ' + show(fa))
    for x in fa.a[0]:
        if isinstance(x, str):
            outs = then(E, outs, lambda s, x=x: emit(E, s, p, text([x])))
        elif x.k != 'ph':
            outs = then(E, outs, lambda s, x=x: emit(E, s, p, x))
        else:
            outs = then(E, outs, lambda s, x=x: show_arg(E, s, p, x))
    return E.merged(outs)


def show_arg(E, st, p, ph):
    arg, flags, width, prec = ph.a
    kind, v, ty = arg.a
    v = E.deref(st, v)
    fill = chr(flags & 0x1fffff)
    if flags & (1 << 21 | 1 << 22) and v.k != 'str':
        raise Imprecise('output with a sign')
    if width is not None:
        width = I(width) if isinstance(width, int) else E.deref(st, width)
        if v.k == 'str' and not v.a[0]:
            return emit(E, st, p, text([app('rep', fill, width)]) if width.k != 'int' else text([fill * width.a[0]]))
        raise Imprecise('padded output')
    if kind == 'debug':
        return emit(E, st, p, text([app('debug', v)]))
    if kind != 'display':
        return emit(E, st, p, text([app('fmt_' + kind, v)]))
    if prec is not None:
        t = None if ty is None else E.F.types[ty]
        while t is not None and t['k'] in ('ref', 'ptr'):
            ty = t['of']
            t = E.F.types[ty]
        if t is not None and E.F.intrange(ty) is not None and t['k'] not in ('char', 'bool'):
            return display(E, st, p, v, ty)     # whole numbers have no precision
        if t is not None and t['k'] != 'float':
            raise Imprecise('output of limited precision')
        return emit(E, st, p, text([app('fmtfloatp', v, I(prec) if isinstance(prec, int) else E.deref(st, prec))]))
    return display(E, st, p, v, ty)


def display(E, st, p, v, ty=None):
    F = E.F
    v = E.deref(st, v)
    k = v.k
    if k == 'fmtargs':
        return write_args(E, st, p, v)
    if k in ('str', 'char'):
        return emit(E, st, p, text([v]))
    if k == 'int':
        return emit(E, st, p, text([str(v.a[0])]))
    if k == 'lin':
        return emit(E, st, p, text([app('fmtint', v)]))
    if k == 'bool':
        return emit(E, st, p, text(['true' if v.a[0] else 'false']))
    vty = v.ty if v.ty is not None else ty
    if is_sym(v) and vty is not None:
        if F.is_str(vty):
            return emit(E, st, p, text([v]))
        if F.is_int(vty) or F.path(vty) in BIG:
            return emit(E, st, p, text([app('fmtint', v)]))
        t = F.types[F.strip(vty)]
        if t['k'] == 'float':
            return emit(E, st, p, text([app('fmtfloat', v)]))
        if t['k'] == 'char':
            return emit(E, st, p, text([v]))
        if t['k'] == 'bool':
            out = []
            for s, b in E.truth(st, v):
                out += emit(E, s, p, text(['true' if b else 'false']))
            return out
    if k == 'float':
        return emit(E, st, p, text([app('fmtfloat', v)]))
    if E.display_hook is not None:
        r = E.display_hook(E, st, p, v, ty)
        if r is not None:
            return r
    inst = None
    for t in (ty, v.ty):
        if t is None:
            continue
        for u in (t, F.strip(t)):
            if u in F.displays:
                inst = F.displays[u]
                break
        if inst is not None:
            break
    path = E.pathof(v)
    if inst is None or inst not in F.bodies:
        for itm in F.trait_items('Display', 'fmt'):
            if F.path(itm['self']) == path:
                inst = itm['inst']
    if inst is None or inst not in F.bodies:
        if is_sym(v) or k == 'adt':
            return emit(E, st, p, text([app('display', v)]))
        raise Imprecise('display of ' + show(v))
    return E.enter(st, inst, F.bodies[inst]['path'], [v, p], Cx())


@nat('Formatter::write_fmt', 'Write::write_fmt')
def write_fmt(E, st, a, c):
    return write_args(E, st, a[0], a[1])


@nat('Formatter::write_str', 'Write::write_str', 'Formatter::pad')
def write_str(E, st, a, c):
    return emit(E, st, a[0], text([E.deref(st, a[1])]))


@nat('Write::write_char', 'Formatter::write_char')
def write_char(E, st, a, c):
    return emit(E, st, a[0], text([E.deref(st, a[1])]))


@nat('Formatter::alternate')
def fmt_alt(E, st, a, c):
    return [(st, FALSE)]


@nat('Formatter::width', 'Formatter::precision')
def fmt_width(E, st, a, c):
    return [(st, NONE)]


@nat('Display::fmt')
def display_fmt(E, st, a, c):
    ty = c.argtys[0] if c.argtys else None
    return display(E, st, a[1], a[0], ty)


@nat('ToString::to_string', 'fmt::format', 'string::format')
def to_string(E, st, a, c):
    ty = c.argtys[0] if c.argtys else None
    save, E.sink_errors = E.sink_errors, False
    try:
        s0, cell = st.alloc(text([]))
        out = []
        v = E.deref(st, a[0])
        outs = write_args(E, s0, mk('ptr', cell, ()), v) if v.k == 'fmtargs' else display(E, s0, mk('ptr', cell, ()), v, ty)
        for s, r in outs:
            for s2, k in E.cases(s, r):
                if k:
                    E.panic(s2, 'a Display implementation returned an error unexpectedly')
                else:
                    out.append((s2.free(cell), s2.store[cell]))
        return out
    finally:
        E.sink_errors = save


@nat('Formatter::debug_struct_field1_finish', 'Formatter::debug_struct_fields_finish', 'Formatter::debug_tuple_field1_finish',
     'Formatter::debug_struct_field3_finish', 'Formatter::debug_struct_field4_finish', 'Formatter::debug_struct_field5_finish',
     'Formatter::debug_tuple_field3_finish', 'Formatter::debug_tuple_fields_finish', 'Formatter::debug_struct_field2_finish', 'Formatter::debug_tuple_field2_finish')
def dbg(E, st, a, c):
    return [(st, ok(UNIT))]
