"""What the library functions the code calls do to the value domain."""
import re
from .terms import *
from . import terms as T
from .mir import strip_generics

MODELS = {}
PREFIX = []


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def prefix(p):
    def d(f):
        PREFIX.append((p, f))
        return f
    return d


def R(st, v):
    from .interp import Out
    return [Out('ret', st, v)]


def PANIC(st, why):
    from .interp import Out
    return [Out('panic', st, why)]


def chain(outs, f):
    """Continue each returning outcome with f(state, value)."""
    res = []
    for o in outs:
        if o.kind == 'panic':
            res.append(o)
        else:
            res.extend(f(o.st, o.val))
    return res


# ---- Option and Result

@model('std::option::Option::unwrap', 'std::option::Option::expect')
def _(I, st, c):
    out = []
    for s, some_, x in I.split_opt(st, c.args[0]):
        out.extend(R(s, x) if some_ else PANIC(s, ('unwrap', 'None')))
    return out


@model('std::result::Result::unwrap', 'std::result::Result::expect')
def _(I, st, c):
    out = []
    for s, ok_, x in I.split_res(st, c.args[0]):
        out.extend(R(s, x) if ok_ else PANIC(s, ('unwrap', 'Err', I.deep(s, x))))
    return out


@model('std::result::Result::unwrap_err', 'std::result::Result::expect_err')
def _(I, st, c):
    out = []
    for s, ok_, x in I.split_res(st, c.args[0]):
        out.extend(PANIC(s, ('unwrap_err',)) if ok_ else R(s, x))
    return out


@model('std::option::Option::is_some')
def _(I, st, c):
    v = I.load(st, c.args[0])
    return R(st, is_cond(I, st, v, 'Some', T.OPT))


@model('std::option::Option::is_none')
def _(I, st, c):
    return R(st, not_(is_cond(I, st, I.load(st, c.args[0]), 'Some', T.OPT)))


@model('std::result::Result::is_ok')
def _(I, st, c):
    return R(st, is_cond(I, st, I.load(st, c.args[0]), 'Ok', T.RES))


@model('std::result::Result::is_err')
def _(I, st, c):
    return R(st, not_(is_cond(I, st, I.load(st, c.args[0]), 'Ok', T.RES)))


def is_cond(I, st, v, name, adt):
    k = I.variant_of(st, v)
    if k is not None:
        return int(k == name)
    return ('is', v, name, adt)


@model('std::option::Option::is_some_and', 'std::option::Option::is_none_or')
def _(I, st, c):
    none = int(c.name.endswith('or'))
    out = []
    for s, p, x in I.split_opt(st, c.args[0]):
        out.extend(I.apply(s, c.args[1], [x]) if p else R(s, none))
    return out


@model('std::option::Option::map')
def _(I, st, c):
    out = []
    for s, p, x in I.split_opt(st, c.args[0]):
        out.extend(chain(I.apply(s, c.args[1], [x]), lambda s2, v: R(s2, some(v))) if p else R(s, NONE))
    return out


@model('std::option::Option::inspect', 'std::result::Result::inspect')
def _(I, st, c):
    out = []
    for s, p, x in (I.split_opt if 'Option' in c.name else I.split_res)(st, c.args[0]):
        if p:
            r = I.alloc(s, x)
            out.extend(chain(I.apply(s, c.args[1], [r]), lambda s2, v: R(s2, c.args[0])))
        else:
            out.extend(R(s, c.args[0]))
    return out


@model('std::result::Result::inspect_err')
def _(I, st, c):
    out = []
    for s, p, x in I.split_res(st, c.args[0]):
        if not p:
            r = I.alloc(s, x)
            out.extend(chain(I.apply(s, c.args[1], [r]), lambda s2, v: R(s2, c.args[0])))
        else:
            out.extend(R(s, c.args[0]))
    return out


@model('std::option::Option::and_then')
def _(I, st, c):
    out = []
    for s, p, x in I.split_opt(st, c.args[0]):
        out.extend(I.apply(s, c.args[1], [x]) if p else R(s, NONE))
    return out


@model('core::bool::then')
def _(I, st, c):
    return [o for s, t in I.decide(st, c.args[0]) for o in (chain(I.apply(s, c.args[1], []), lambda s2, v: R(s2, some(v))) if t else R(s, NONE))]


@model('core::bool::then_some')
def _(I, st, c):
    return [o for s, t in I.decide(st, c.args[0]) for o in R(s, some(c.args[1]) if t else NONE)]


@model('std::option::Option::filter')
def _(I, st, c):
    out = []
    for s, p, x in I.split_opt(st, c.args[0]):
        if not p:
            out.extend(R(s, NONE))
            continue
        r = I.alloc(s, x)

        def k(s2, b, x=x):
            return [o for s3, t in I.decide(s2, b) for o in R(s3, some(x) if t else NONE)]
        out.extend(chain(I.apply(s, c.args[1], [r]), k))
    return out


@model('std::option::Option::or', 'std::result::Result::or')
def _(I, st, c):
    o = 'Option' in c.name
    out = []
    for s, p, x in (I.split_opt if o else I.split_res)(st, c.args[0]):
        out.extend(R(s, (some(x) if o else ok(x)) if p else c.args[1]))
    return out


@model('std::option::Option::and', 'std::result::Result::and')
def _(I, st, c):
    o = 'Option' in c.name
    out = []
    for s, p, x in (I.split_opt if o else I.split_res)(st, c.args[0]):
        out.extend(R(s, c.args[1] if p else (NONE if o else err(x))))
    return out


@model('std::option::Option::or_else')
def _(I, st, c):
    out = []
    for s, p, x in I.split_opt(st, c.args[0]):
        out.extend(R(s, some(x)) if p else I.apply(s, c.args[1], []))
    return out


@model('std::option::Option::xor')
def _(I, st, c):
    out = []
    for s, p, x in I.split_opt(st, c.args[0]):
        for s2, q, y in I.split_opt(s, c.args[1]):
            out.extend(R(s2, some(x) if p and not q else some(y) if q and not p else NONE))
    return out


@model('std::option::Option::zip')
def _(I, st, c):
    out = []
    for s, p, x in I.split_opt(st, c.args[0]):
        if not p:
            out.extend(R(s, NONE))
            continue
        for s2, q, y in I.split_opt(s, c.args[1]):
            out.extend(R(s2, some(tup(x, y)) if q else NONE))
    return out


@model('std::option::Option::unwrap_or', 'std::result::Result::unwrap_or')
def _(I, st, c):
    out = []
    for s, p, x in (I.split_opt if 'Option' in c.name else I.split_res)(st, c.args[0]):
        out.extend(R(s, x if p else c.args[1]))
    return out


@model('std::option::Option::unwrap_or_else', 'std::result::Result::unwrap_or_else')
def _(I, st, c):
    o = 'Option' in c.name
    out = []
    for s, p, x in (I.split_opt if o else I.split_res)(st, c.args[0]):
        out.extend(R(s, x) if p else I.apply(s, c.args[1], [] if o else [x]))
    return out


@model('std::option::Option::unwrap_or_default', 'std::result::Result::unwrap_or_default')
def _(I, st, c):
    out = []
    for s, p, x in (I.split_opt if 'Option' in c.name else I.split_res)(st, c.args[0]):
        out.extend(R(s, x) if p else R(s, default_of(c.retty)))
    return out


@model('std::option::Option::map_or', 'std::result::Result::map_or')
def _(I, st, c):
    out = []
    for s, p, x in (I.split_opt if 'Option' in c.name else I.split_res)(st, c.args[0]):
        out.extend(I.apply(s, c.args[2], [x]) if p else R(s, c.args[1]))
    return out


@model('std::option::Option::map_or_else', 'std::result::Result::map_or_else')
def _(I, st, c):
    o = 'Option' in c.name
    out = []
    for s, p, x in (I.split_opt if o else I.split_res)(st, c.args[0]):
        out.extend(I.apply(s, c.args[2], [x]) if p else I.apply(s, c.args[1], [] if o else [x]))
    return out


@model('std::option::Option::ok_or')
def _(I, st, c):
    return [o for s, p, x in I.split_opt(st, c.args[0]) for o in R(s, ok(x) if p else err(c.args[1]))]


@model('std::option::Option::ok_or_else')
def _(I, st, c):
    out = []
    for s, p, x in I.split_opt(st, c.args[0]):
        out.extend(R(s, ok(x)) if p else chain(I.apply(s, c.args[1], []), lambda s2, v: R(s2, err(v))))
    return out


@model('std::result::Result::ok')
def _(I, st, c):
    return [o for s, p, x in I.split_res(st, c.args[0]) for o in R(s, some(x) if p else NONE)]


@model('std::result::Result::err')
def _(I, st, c):
    return [o for s, p, x in I.split_res(st, c.args[0]) for o in R(s, NONE if p else some(x))]


@model('std::result::Result::map')
def _(I, st, c):
    out = []
    for s, p, x in I.split_res(st, c.args[0]):
        out.extend(chain(I.apply(s, c.args[1], [x]), lambda s2, v: R(s2, ok(v))) if p else R(s, err(x)))
    return out


@model('std::result::Result::map_err')
def _(I, st, c):
    out = []
    for s, p, x in I.split_res(st, c.args[0]):
        out.extend(R(s, ok(x)) if p else chain(I.apply(s, c.args[1], [x]), lambda s2, v: R(s2, err(v))))
    return out


@model('std::result::Result::and_then')
def _(I, st, c):
    out = []
    for s, p, x in I.split_res(st, c.args[0]):
        out.extend(I.apply(s, c.args[1], [x]) if p else R(s, err(x)))
    return out


@model('std::result::Result::or_else')
def _(I, st, c):
    out = []
    for s, p, x in I.split_res(st, c.args[0]):
        out.extend(R(s, ok(x)) if p else I.apply(s, c.args[1], [x]))
    return out


@model('std::result::Result::as_ref', 'std::result::Result::as_mut', 'std::option::Option::as_ref', 'std::option::Option::as_mut',
       'std::option::Option::as_deref', 'std::option::Option::as_deref_mut', 'std::option::Option::as_pin_mut')
def _(I, st, c):
    r, p = I.deref(st, c.args[0])
    v = I.read(st, r, p)
    o = 'Option' in c.name
    out = []
    for s, n in I.split_variant(st, v, T.OPT if o else T.RES):
        if n == 'None':
            out.extend(R(s, NONE))
            continue
        cur = I.read(s, r, p)
        q = p + ('0',) if isagg(cur) else p + ('v:' + n, '0')
        ref = ('ref', r, q)
        if 'deref' in c.name:
            x = I.read(s, r, q)
            if isinstance(x, tuple) and x[0] == 'ref':
                ref = x
        out.extend(R(s, ('agg', T.OPT if o else T.RES, n, (('0', ref),))))
    return out


@model('std::option::Option::take')
def _(I, st, c):
    v = I.load(st, c.args[0])
    I.store(st, c.args[0], NONE)
    return R(st, v)


@model('std::option::Option::take_if')
def _(I, st, c):
    r, p = I.deref(st, c.args[0])
    v = I.read(st, r, p)
    out = []
    for s, pr, x in I.split_opt(st, v):
        if not pr:
            out.extend(R(s, NONE))
            continue
        ref = ('ref', r, p + ('0',)) if isagg(I.read(s, r, p)) else ('ref', r, p + ('v:Some', '0'))

        def k(s2, b):
            o2 = []
            for s3, t in I.decide(s2, b):
                if t:
                    w = I.read(s3, r, p)
                    I.write(s3, r, p, NONE)
                    o2.extend(R(s3, w))
                else:
                    o2.extend(R(s3, NONE))
            return o2
        out.extend(chain(I.apply(s, c.args[1], [ref]), k))
    return out


@model('std::option::Option::replace')
def _(I, st, c):
    v = I.load(st, c.args[0])
    I.store(st, c.args[0], some(c.args[1]))
    return R(st, v)


@model('std::option::Option::insert')
def _(I, st, c):
    I.store(st, c.args[0], some(c.args[1]))
    r, p = I.deref(st, c.args[0])
    return R(st, ('ref', r, p + ('0',)))


@model('std::option::Option::get_or_insert', 'std::option::Option::get_or_insert_with')
def _(I, st, c):
    r, p = I.deref(st, c.args[0])
    out = []
    for s, pr, x in I.split_opt(st, I.read(st, r, p)):
        if pr:
            I.write(s, r, p, some(x))
            out.extend(R(s, ('ref', r, p + ('0',))))
        else:
            def k(s2, v):
                I.write(s2, r, p, some(v))
                return R(s2, ('ref', r, p + ('0',)))
            out.extend(chain(I.apply(s, c.args[1], []) if c.name.endswith('with') else R(s, c.args[1]), k))
    return out


@model('std::option::Option::cloned', 'std::option::Option::copied')
def _(I, st, c):
    return [o for s, p, x in I.split_opt(st, c.args[0]) for o in R(s, some(I.load(s, x)) if p else NONE)]


@model('std::option::Option::flatten')
def _(I, st, c):
    return [o for s, p, x in I.split_opt(st, c.args[0]) for o in R(s, x if p else NONE)]


@model('std::option::Option::transpose')
def _(I, st, c):
    out = []
    for s, p, x in I.split_opt(st, c.args[0]):
        if not p:
            out.extend(R(s, ok(NONE)))
            continue
        for s2, q, y in I.split_res(s, x):
            out.extend(R(s2, ok(some(y)) if q else err(y)))
    return out


@model('std::result::Result::transpose')
def _(I, st, c):
    out = []
    for s, p, x in I.split_res(st, c.args[0]):
        if not p:
            out.extend(R(s, some(err(x))))
            continue
        for s2, q, y in I.split_opt(s, x):
            out.extend(R(s2, some(ok(y)) if q else NONE))
    return out


@model('std::ops::Try::branch')
def _(I, st, c):
    CF = 'std::ops::ControlFlow'
    v = c.args[0]
    ty = c.argtys[0]
    out = []
    if strip_generics(ty).endswith('Option'):
        for s, p, x in I.split_opt(st, v):
            out.extend(R(s, ('agg', CF, 'Continue', (('0', x),)) if p else ('agg', CF, 'Break', (('0', NONE),))))
        return out
    if strip_generics(ty).endswith('Result'):
        for s, p, x in I.split_res(st, v):
            out.extend(R(s, ('agg', CF, 'Continue', (('0', x),)) if p else ('agg', CF, 'Break', (('0', err(x)),))))
        return out
    return None


@model('std::ops::FromResidual::from_residual')
def _(I, st, c):
    v = c.args[0]
    if isagg(v) and v[2] == 'None':
        return R(st, NONE)
    if isagg(v) and v[2] == 'Err':
        # The error goes through From::from.
        x = v[3][0][1]
        src = result_err(c.argtys[0])
        dst = result_err(c.retty)
        if src == dst or src is None or dst is None:
            return R(st, v)
        b = from_impl(I, src, dst)
        if b is not None:
            return chain(I.exec_body(b, [x], st), lambda s, w: R(s, err(w)))
        return R(st, err(('into', dst, x)))
    return None


def result_err(ty):
    a = type_args(ty)
    return a[1] if len(a) == 2 else None


def type_args(ty):
    i = ty.find('<')
    if i < 0 or not ty.endswith('>'):
        return []
    out, d, cur = [], 0, ''
    for ch in ty[i + 1:-1]:
        if ch in '<([{':
            d += 1
        elif ch in '>)]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def from_impl(I, src, dst):
    for b in I.P.by_name('from'):
        if b.get('self') == dst and b.get('trait') and b['argc'] == 1 and b['locals'][1]['ty'] == src:
            return b
    return None


# ---- memory

@model('std::mem::take')
def _(I, st, c):
    v = I.load(st, c.args[0])
    I.store(st, c.args[0], default_of(c.retty))
    return R(st, v)


@model('std::mem::replace')
def _(I, st, c):
    v = I.load(st, c.args[0])
    I.store(st, c.args[0], c.args[1])
    return R(st, v)


@model('std::mem::swap')
def _(I, st, c):
    a, b = I.load(st, c.args[0]), I.load(st, c.args[1])
    I.store(st, c.args[0], b)
    I.store(st, c.args[1], a)
    return R(st, UNIT)


@model('std::mem::forget')
def _(I, st, c):
    st.log('forget', c.argtys[0], I.deep(st, c.args[0]))
    return R(st, UNIT)


@model('std::mem::drop')
def _(I, st, c):
    return I.drop_value(st, c.args[0], c.argtys[0])


@model('std::mem::size_of')
def _(I, st, c):
    n = {'u8': 1, 'i8': 1, 'bool': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'char': 4, 'f32': 4, 'u64': 8, 'i64': 8, 'usize': 8,
         'isize': 8, 'u128': 16, 'i128': 16, 'f64': 8}.get(c.gen[0] if c.gen else '')
    return R(st, n) if n else R(st, ('size_of', c.gen[0] if c.gen else ''))


def default_of(ty):
    n = strip_generics(ty)
    from .interp import int_range
    if int_range(ty):
        return 0
    if n in ('std::option::Option',):
        return NONE
    if n in ('std::vec::Vec', 'std::collections::VecDeque', 'std::string::String', 'std::collections::HashMap',
             'std::collections::BTreeMap', 'std::collections::HashSet', 'std::collections::BTreeSet'):
        return ('empty', n) if 'Map' in n or 'Set' in n else ('agg', 'array', '', ())
    if ty == '()':
        return UNIT
    return ('default', ty)


@model('std::default::Default::default')
def _(I, st, c):
    ty = c.retty
    key = c.fn.get('rk')
    if key in I.P.bodies:
        return None
    v = default_of(ty)
    if strip_generics(ty) == 'std::sync::Mutex' and type_args(ty):
        v = ('agg', 'mutex', '', (('data', default_of(type_args(ty)[0])),))
    if strip_generics(ty).startswith('std::sync::atomic::Atomic'):
        v = 0
    return R(st, v)


# ---- pointers and wrappers

def ident(I, st, c):
    return R(st, c.args[0])


@model('std::pin::Pin::as_mut', 'std::pin::Pin::as_ref')
def _(I, st, c):
    # of a Pin<&mut T> this borrows again; of a Pin<Box<T>> it borrows what is in the box
    v = c.args[0]
    if isinstance(v, tuple) and v[0] == 'ref':
        x = I.load(st, v)
        if isinstance(x, tuple) and x[0] == 'ref':
            return R(st, x)
    return R(st, v)


@model('std::pin::Pin::set')
def _(I, st, c):
    v = c.args[0]
    p = I.load(st, v) if isinstance(v, tuple) and v[0] == 'ref' else v
    if not (isinstance(p, tuple) and p[0] == 'ref'):
        p = v
    I.store(st, p, c.args[1])
    return R(st, UNIT)


for _n in ('std::pin::Pin::new_unchecked', 'std::pin::Pin::new', 'std::pin::Pin::get_unchecked_mut',
           'std::pin::Pin::get_mut', 'std::pin::Pin::into_ref', 'std::pin::Pin::map_unchecked_mut_',
           'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow', 'std::borrow::BorrowMut::borrow_mut',
           'std::convert::identity', 'std::boxed::Box::leak', 'std::boxed::Box::into_pin',
           'std::boxed::Box::pin_', 'std::hint::black_box',
           'std::string::String::as_str', 'std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice',
           'core::slice::as_ptr', 'core::slice::as_mut_ptr', 'std::vec::Vec::as_ptr', 'std::vec::Vec::as_mut_ptr',
           'std::string::String::as_bytes', 'core::str::as_bytes', 'std::string::String::into_bytes',
           'std::ptr::mut_ptr::cast_const', 'std::ptr::const_ptr::cast_mut',
           'std::boxed::Box::from_raw', 'std::boxed::Box::into_raw', 'std::convert::AsMut::as_mut',
           'std::sync::atomic::Atomic::new', 'std::sync::atomic::Atomic::get_mut', 'std::sync::atomic::Atomic::into_inner',
           'std::cell::Cell::new', 'std::num::Wrapping', 'std::iter::IntoIterator::into_iter_',
           'tracing_futures::Instrument::instrument_', 'std::cmp::Reverse', 'std::ops::DerefMut::deref_mut_',
           'nonzero_ext::nonzero', 'core::slice::as_slice', 'std::slice::Iter::as_slice_'):
    MODELS[_n] = ident


@model('std::ptr::const_ptr::cast', 'std::ptr::mut_ptr::cast')
def _(I, st, c):
    # the first byte of an enum with a representation of that size is its discriminant
    v = c.args[0]
    if isinstance(v, tuple) and v[0] == 'ref' and c.retty.split(' ')[-1] in ('u8', 'i8', 'u16', 'u32'):
        x = I.load(st, v)
        if isagg(x) and x[2] and I.P.adts.get(strip_generics(x[1]), {}).get('kind') == 'enum':
            return R(st, I.alloc(st, I.discr_int(x[1], x[2])))
    return R(st, v)


@model('core::slice::into_vec', 'std::str::into_string')
def _(I, st, c):
    v = c.args[0]
    return R(st, I.load(st, v) if isinstance(v, tuple) and v[0] in ('ref', 'in') else v)


@model('std::boxed::Box::new', 'std::sync::Arc::new', 'std::rc::Rc::new', 'std::boxed::Box::pin', 'std::sync::Arc::pin',
       'std::vec::Vec::into_boxed_slice', 'std::string::String::into_boxed_str')
def _(I, st, c):
    return R(st, I.alloc(st, c.args[0]))


@model('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut')
def _(I, st, c):
    if (c.fn.get('rk') or '') in I.P.bodies:
        return None
    v = I.load(st, c.args[0])
    if isagg(v) and v[1] == 'guard':
        return R(st, v[3][0][1])
    if isinstance(v, tuple) and v[0] == 'ref':
        return R(st, v)
    ty = strip_generics(c.argtys[0].replace('&mut ', '').replace('&', ''))
    if any(ty.endswith(x) for x in ('Vec', 'String', 'PathBuf', 'OsString', 'CString', 'DivBuf', 'DivBufMut', 'Cow')):
        return R(st, c.args[0])
    if isinstance(v, tuple) and v[0] in ('in', '.', 'ret', '*', 'lv', 'app', 'out', 'hav'):
        return R(st, v)
    return R(st, c.args[0])


@model('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'std::slice::to_vec', 'core::slice::to_vec', 'std::slice::to_owned')
def _(I, st, c):
    b = I.P.bodies.get(c.fn.get('rk') or '')
    r, p = I.deref(st, c.args[0])
    v = I.read(st, r, p)
    # A clone is a copy; handwritten impls are read.
    if b is not None and not derived(b):
        return None
    return R(st, v)


def derived(b):
    return True if b.get('derived') else all(st[0] != '=' or True for blk in b['blocks'] for st in blk['s']) and b.get('derived', True)


@model('std::clone::Clone::clone_from')
def _(I, st, c):
    I.store(st, c.args[0], I.load(st, c.args[1]))
    return R(st, UNIT)


@model('std::sync::Arc::ptr_eq')
def _(I, st, c):
    return R(st, eq(I.load(st, c.args[0]), I.load(st, c.args[1])))


@model('std::convert::From::from', 'std::convert::Into::into')
def _(I, st, c):
    if (c.fn.get('rk') or '') in I.P.bodies and c.name.endswith('from'):
        return None
    src, dst = c.argtys[0], c.retty
    if src == dst:
        return R(st, c.args[0])
    from .interp import int_range
    if int_range(dst) and (int_range(src) or src == 'bool'):
        v = c.args[0]
        if src == 'bool' and isinstance(v, tuple):
            out = []
            for s, b in I.decide(st, v):
                out.extend(R(s, b))
            return out
        return R(st, v)
    b = from_impl(I, src, dst)
    if b is not None and I.may_inline(b, b['path']):
        return I.exec_body(b, c.args, st)
    d = strip_generics(dst)
    if d == 'std::option::Option':
        return R(st, some(c.args[0]))
    if d in ('std::boxed::Box', 'std::sync::Arc', 'std::rc::Rc'):
        ga = type_args(dst)
        if ga and ga[0] == src:
            return R(st, I.alloc(st, c.args[0]))
    if d in ('std::string::String', 'std::vec::Vec', 'std::path::PathBuf') and src.startswith('&'):
        return R(st, I.load(st, c.args[0]))
    if d in ('std::sync::Mutex',) or d.endswith('Mutex'):
        return R(st, ('agg', 'mutex', '', (('data', c.args[0]),)))
    if d.startswith('std::sync::atomic'):
        return R(st, c.args[0])
    return R(st, ('into', dst, I.deep(st, c.args[0])))


@model('std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into')
def _(I, st, c):
    if (c.fn.get('rk') or '') in I.P.bodies:
        return None
    from .interp import int_range
    a = type_args(c.retty)
    dst = a[0] if a else ''
    r = int_range(dst)
    if r and int_range(c.argtys[0]):
        v = c.args[0]
        E = ('const', 'TryFromIntError')
        out = []
        for s, b in I.decide(st, not_(lt(v, r[0]))):
            if not b:
                out.extend(R(s, err(E)))
                continue
            for s2, b2 in I.decide(s, not_(lt(r[1], v))):
                out.extend(R(s2, ok(v) if b2 else err(E)))
        return out
    if c.name.endswith('try_into'):
        for b in I.P.by_name('try_from'):
            if b.get('self') == dst and b['argc'] == 1 and b['locals'][1]['ty'] == c.argtys[0] and I.may_inline(b, b['path']):
                return I.exec_body(b, c.args, st)
    return None


# ---- integers

@model('std::cmp::min', 'std::cmp::Ord::min')
def _(I, st, c):
    return minmax(I, st, c, True)


@model('std::cmp::max', 'std::cmp::Ord::max')
def _(I, st, c):
    return minmax(I, st, c, False)


def minmax(I, st, c, mn):
    from .interp import int_range
    if (c.fn.get('rk') or '') in I.P.bodies:
        return None
    a, b = c.args
    if int_range(c.argtys[0]) or isinstance(a, int) and isinstance(b, int):
        k = I.known(st, lt(a, b))
        if k is None and I.known(st, lt(b, a)) == 1:
            k = 0
        if k is not None:
            return R(st, (a if k else b) if mn else (b if k else a))
        t = (tmin if mn else tmax)(a, b)
        return R(st, t)
    out = []
    for s, less in I.decide(st, ('lt', a, b)):
        out.extend(R(s, (a if less else b) if mn else (b if less else a)))
    return out


@model('std::cmp::Ord::clamp', 'core::num::clamp')
def _(I, st, c):
    return R(st, tmin(tmax(c.args[0], c.args[1]), c.args[2]))


@model('core::num::rem_euclid')
def _(I, st, c):
    if I.on_arith:
        I.on_arith(st, 'Rem', c.argtys[0], c.args[0], c.args[1], 0, c.frame.b if c.frame else None, c.line)
    lo = I.rng(c.args[1], st)[0]
    if lo is not None and lo > 0:
        return R(st, I.mod(st, c.args[0], c.args[1]))
    return R(st, I.divrem(st, 'Rem', c.args[0], c.args[1], True))


@model('core::num::div_euclid')
def _(I, st, c):
    return R(st, I.divrem(st, 'Div', c.args[0], c.args[1], True))


@model('core::num::div_ceil')
def _(I, st, c):
    a, b = c.args
    return R(st, I.fdiv(st, add(a, sub(b, 1)), b))


@model('core::num::is_multiple_of')
def _(I, st, c):
    return R(st, eq(I.divrem(st, 'Rem', c.args[0], c.args[1]), 0))


@model('core::num::next_multiple_of')
def _(I, st, c):
    a, b = c.args
    return R(st, mul(b, I.fdiv(st, add(a, sub(b, 1)), b)))


@model('core::num::abs', 'core::num::unsigned_abs')
def _(I, st, c):
    return [o for s, n in I.decide(st, lt(c.args[0], 0)) for o in R(s, neg(c.args[0]) if n else c.args[0])]


@model('core::num::abs_diff')
def _(I, st, c):
    a, b = c.args
    return [o for s, n in I.decide(st, lt(a, b)) for o in R(s, sub(b, a) if n else sub(a, b))]


@model('core::num::pow')
def _(I, st, c):
    a, b = c.args
    if isinstance(b, int) and b < 65:
        r = 1
        for _ in range(b):
            r = mul(r, a)
        return R(st, r)
    if a == 2:
        return R(st, ('shl', 1, b))
    return R(st, ('pow', a, b))


def checked(op):
    def f(I, st, c):
        from .interp import int_range
        v = (add if op == 'Add' else sub if op == 'Sub' else mul)(c.args[0], c.args[1])
        lo, hi = int_range(c.argtys[0])
        kind = c.name.split('::')[-1].split('_')[0]
        inb = cond_in(v, lo, hi)
        out = []
        for s, b in I.decide(st, inb):
            if kind == 'checked':
                out.extend(R(s, some(v) if b else NONE))
            elif kind == 'saturating':
                if b:
                    out.extend(R(s, v))
                else:
                    for s2, low in I.decide(s, lt(v, lo)):
                        out.extend(R(s2, lo if low else hi))
            elif kind == 'overflowing':
                out.extend(R(s, tup(v if b else ('trunc', c.argtys[0], v), 1 - b)))
            else:
                out.extend(R(s, v if b else ('trunc', c.argtys[0], v)))
        return out
    return f


def cond_in(v, lo, hi):
    a, b = not_(lt(v, lo)), not_(lt(hi, v))
    if a == 1:
        return b
    if b == 1:
        return a
    if a == 0 or b == 0:
        return 0
    return ('and', a, b)


for _k in ('checked', 'saturating', 'wrapping', 'overflowing'):
    for _o in ('Add', 'Sub', 'Mul'):
        MODELS[f'core::num::{_k}_{_o.lower()}'] = checked(_o)


@model('core::num::checked_div', 'core::num::checked_rem', 'core::num::wrapping_div', 'core::num::wrapping_rem')
def _(I, st, c):
    a, b = c.args
    op = 'Div' if c.name.endswith('div') else 'Rem'
    if 'wrapping' in c.name:
        return R(st, I.divrem(st, op, a, b))
    return [o for s, z in I.decide(st, eq(b, 0)) for o in R(s, NONE if z else some(I.divrem(s, op, a, b)))]


@model('core::num::wrapping_neg')
def _(I, st, c):
    return R(st, neg(c.args[0]))


@model('core::num::is_power_of_two')
def _(I, st, c):
    v = c.args[0]
    return R(st, int(v > 0 and v & (v - 1) == 0) if isinstance(v, int) else ('ispow2', v))


@model('core::num::trailing_zeros', 'core::num::leading_zeros', 'core::num::count_ones', 'core::num::ilog2', 'core::num::swap_bytes',
       'core::num::to_be', 'core::num::to_le', 'core::num::from_be', 'core::num::from_le', 'core::num::isqrt')
def _(I, st, c):
    v = c.args[0]
    n = c.name.split('::')[-1]
    if isinstance(v, int) and v > 0:
        if n == 'trailing_zeros':
            return R(st, (v & -v).bit_length() - 1)
        if n == 'count_ones':
            return R(st, bin(v).count('1'))
        if n == 'ilog2':
            return R(st, v.bit_length() - 1)
    if n in ('to_le', 'from_le'):
        return R(st, v)
    t = (n, v)
    I.ty.setdefault(t, c.retty)
    return R(st, t)


def binop(op):
    def f(I, st, c):
        from .interp import int_range
        if (c.fn.get('rk') or '') in I.P.bodies:
            return None
        tys = [t.lstrip('&') for t in c.argtys]
        if int_range(tys[0]) and int_range(tys[1]):
            a, b = [I.load(st, v) if t.startswith('&') else v for v, t in zip(c.args, c.argtys)]
            return R(st, I.arith(st, c.frame, op, a, b, tys[0], c.line))
        return None
    return f


for _t, _o in (('Add::add', 'Add'), ('Sub::sub', 'Sub'), ('Mul::mul', 'Mul'), ('Div::div', 'Div'), ('Rem::rem', 'Rem'), ('Shl::shl', 'Shl'),
               ('Shr::shr', 'Shr'), ('BitAnd::bitand', 'BitAnd'), ('BitOr::bitor', 'BitOr'), ('BitXor::bitxor', 'BitXor')):
    MODELS['std::ops::' + _t] = binop(_o)


def assignop(op):
    def f(I, st, c):
        from .interp import int_range
        if (c.fn.get('rk') or '') in I.P.bodies:
            return None
        ty = c.argtys[0].replace('&mut ', '')
        ty2 = c.argtys[1].lstrip('&')
        if int_range(ty) and int_range(ty2):
            b = I.load(st, c.args[1]) if c.argtys[1].startswith('&') else c.args[1]
            I.store(st, c.args[0], I.arith(st, c.frame, op, I.load(st, c.args[0]), b, ty, c.line))
            return R(st, UNIT)
        return None
    return f


for _t, _o in (('AddAssign::add_assign', 'Add'), ('SubAssign::sub_assign', 'Sub'), ('MulAssign::mul_assign', 'Mul'),
               ('DivAssign::div_assign', 'Div'), ('RemAssign::rem_assign', 'Rem'), ('ShlAssign::shl_assign', 'Shl'),
               ('BitOrAssign::bitor_assign', 'BitOr'), ('BitAndAssign::bitand_assign', 'BitAnd'), ('BitXorAssign::bitxor_assign', 'BitXor')):
    MODELS['std::ops::' + _t] = assignop(_o)


@model('std::ops::Neg::neg')
def _(I, st, c):
    from .interp import int_range
    t = c.argtys[0].lstrip('&')
    if int_range(t):
        return R(st, neg(I.load(st, c.args[0]) if c.argtys[0].startswith('&') else c.args[0]))


@model('std::ops::Not::not')
def _(I, st, c):
    t = c.argtys[0].lstrip('&')
    if t == 'bool':
        return R(st, not_(I.load(st, c.args[0]) if c.argtys[0].startswith('&') else c.args[0]))


# ---- comparison

def same_type(c):
    a = c.gen
    return len(a) < 2 or a[0] == a[1]


@model('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
def _(I, st, c):
    b = I.P.bodies.get(c.fn.get('rk') or '')
    if b is not None and not b.get('derived'):
        if c.name.endswith('ne'):
            return None
        return None
    tys = [t.lstrip('&') for t in c.argtys]
    out = []
    a, bb = I.load(st, c.args[0]), I.load(st, c.args[1])
    if not same_type(c) and b is None:
        # references on the way, or a local impl for another right-hand side
        for x in I.P.by_name('eq'):
            if x.get('trait') and x['argc'] == 2 and strip_generics(x.get('self') or '') == strip_generics(tys[0]) and \
                    x['locals'][2]['ty'].lstrip('&') == tys[1]:
                return [o for o in chain(I.exec_body(x, c.args, st), lambda s, v: R(s, v if c.name.endswith('eq') else not_(v)))]
    ne = c.name.endswith('ne')
    for s, e in I.equal(st, a, bb):
        out.extend(R(s, e ^ 1 if ne else e))
    return out


def local_impl(I, c, trait, meth, nargs=2):
    return None


@model('std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::gt', 'std::cmp::PartialOrd::ge')
def _(I, st, c):
    op = c.name.split('::')[-1]
    tys = [t.lstrip('&') for t in c.argtys]
    from .interp import int_range
    a, b = I.load(st, c.args[0]), I.load(st, c.args[1])
    while isinstance(a, tuple) and a[0] == 'ref' and isinstance(b, tuple) and b[0] == 'ref':
        a, b = I.load(st, a), I.load(st, b)
    for x in I.P.by_name('partial_cmp'):
        if x.get('trait') and x['argc'] == 2 and strip_generics(x.get('self') or '') == strip_generics(tys[0]) and \
                x['locals'][2]['ty'].lstrip('&') == tys[1] and not x.get('derived'):
            def k(s, v):
                out = []
                for s2, p, o in I.split_opt(s, v):
                    if not p:
                        out.extend(R(s2, 0))
                        continue
                    if isinstance(o, tuple) and o[0] == 'cmp':
                        for s3, n in I.split_cmp(s2, o):
                            out.extend(R(s3, ordres(op, n)))
                    elif isagg(o):
                        out.extend(R(s2, ordres(op, o[2])))
                    else:
                        for s3, n in I.split_variant(s2, o, 'std::cmp::Ordering'):
                            out.extend(R(s3, ordres(op, n)))
                return out
            return chain(I.exec_body(x, c.args, st), k)
    a, b = newtype(I, a), newtype(I, b)
    a, b = wrapped(I, st, a, tys[0]), wrapped(I, st, b, tys[0])
    if isinstance(a, (int, tuple)) and not isagg(a) and not isagg(b):
        r = {'lt': lambda: lt(a, b), 'gt': lambda: lt(b, a), 'le': lambda: not_(lt(b, a)), 'ge': lambda: not_(lt(a, b))}[op]()
        return R(st, r)
    r = ('cmp' + op, I.deep(st, a), I.deep(st, b))
    I.ty[r] = 'bool'
    return R(st, r)


def ordres(op, n):
    return int({'lt': n == 'Less', 'le': n != 'Greater', 'gt': n == 'Greater', 'ge': n != 'Less'}[op])


def newtype(I, v):
    if isagg(v) and len(v[3]) == 1 and v[3][0][0] == '0' and not v[2]:
        return v[3][0][1]
    return v


def wrapped(I, st, v, ty):
    """The number inside an unknown newtype of a number."""
    a = I.P.adts.get(strip_generics(ty))
    from .interp import int_range
    if isinstance(v, tuple) and a is not None and len(a['variants']) == 1 and len(a['variants'][0]['f']) == 1 and \
            not (isagg(v)) and int_range(a['variants'][0]['f'][0][1]):
        fn, ft = a['variants'][0]['f'][0][:2]
        x = proj(v, fn)
        I.ty.setdefault(x, ft)
        return x
    return v


@model('std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp')
def _(I, st, c):
    b = I.P.bodies.get(c.fn.get('rk') or '')
    if b is not None and not b.get('derived'):
        return None
    tys = [t.lstrip('&') for t in c.argtys]
    x, y = I.load(st, c.args[0]), I.load(st, c.args[1])
    x, y = wrapped(I, st, newtype(I, x), tys[0]), wrapped(I, st, newtype(I, y), tys[0])
    v = ('cmp', x, y)
    return R(st, some(v) if 'partial' in c.name else v)


@model('std::cmp::Ordering::reverse')
def _(I, st, c):
    v = c.args[0]
    if isinstance(v, tuple) and v[0] == 'cmp':
        return R(st, ('cmp', v[2], v[1]))
    return None


def ordtest(names):
    def f(I, st, c):
        v = c.args[0]
        if isinstance(v, tuple) and v[0] == 'cmp':
            return [o for s, n in I.split_cmp(st, v) for o in R(s, int(n in names))]
        return None
    return f


for _n, _s in (('is_lt', ('Less',)), ('is_le', ('Less', 'Equal')), ('is_gt', ('Greater',)), ('is_ge', ('Greater', 'Equal')),
               ('is_eq', ('Equal',)), ('is_ne', ('Less', 'Greater'))):
    MODELS['std::cmp::Ordering::' + _n] = ordtest(_s)


@model('std::intrinsics::discriminant_value', 'std::mem::discriminant')
def _(I, st, c):
    v = I.load(st, c.args[0])
    k = I.variant_of(st, v)
    ty = strip_generics(c.argtys[0].lstrip('&').replace("mut ", ''))
    return R(st, I.discr_int(ty, k) if k is not None else ('discrval', v, ty))


# ---- atomics

ORD = {'Relaxed', 'Acquire', 'Release', 'AcqRel', 'SeqCst'}


def atom_read(I, st, c):
    ref = c.args[0]
    r, p = I.deref(st, ref)
    if I.volatile and not r[0] == 'H' and r[0] != 'L':
        n = st.fresh(('at', r, p))
        v = ('at', r, p, n) + ((st.ctx,) if st.ctx else ())
        I.ty.setdefault(v, atomic_ty(c))
        return v
    return I.read(st, r, p)


@model('std::sync::atomic::Atomic::load')
def _(I, st, c):
    v = atom_read(I, st, c)
    st.log('atomic', 'load', c.args[0], v, v, I.deep(st, c.args[1]))
    return R(st, v)


@model('std::sync::atomic::Atomic::store')
def _(I, st, c):
    old = atom_read(I, st, c)
    st.log('atomic', 'store', c.args[0], old, c.args[1], I.deep(st, c.args[2]))
    I.store(st, c.args[0], c.args[1])
    return R(st, UNIT)


def fetch(op):
    def f(I, st, c):
        ty = atomic_ty(c)
        old = atom_read(I, st, c)
        a = c.args[1]
        if op == 'swap':
            new = a
        elif op in ('max', 'min'):
            new = (tmax if op == 'max' else tmin)(old, a)
        else:
            new = I.arith(st, c.frame, {'add': 'Add', 'sub': 'Sub', 'and': 'BitAnd', 'or': 'BitOr', 'xor': 'BitXor'}[op], old, a, ty, c.line)
        st.log('atomic', op, c.args[0], old, new, I.deep(st, c.args[2]))
        I.store(st, c.args[0], new)
        return R(st, old)
    return f


def atomic_ty(c):
    g = c.gen[0] if c.gen else None
    return g


for _o in ('add', 'sub', 'and', 'or', 'xor', 'max', 'min'):
    MODELS['std::sync::atomic::Atomic::fetch_' + _o] = fetch(_o)
MODELS['std::sync::atomic::Atomic::swap'] = fetch('swap')


@model('std::sync::atomic::Atomic::try_update', 'std::sync::atomic::Atomic::fetch_update')
def _(I, st, c):
    old = atom_read(I, st, c)

    def k(s, v):
        out = []
        for s2, p, x in I.split_opt(s, v):
            if p:
                s2.log('atomic', 'update', c.args[0], old, x, I.deep(s2, c.args[1]))
                I.store(s2, c.args[0], x)
                out.extend(R(s2, ok(old)))
            else:
                s2.log('atomic', 'load', c.args[0], old, old, I.deep(s2, c.args[2]))
                out.extend(R(s2, err(old)))
        return out
    return chain(I.apply(st, c.args[3], [old]), k)


@model('std::sync::atomic::Atomic::update')
def _(I, st, c):
    old = atom_read(I, st, c)

    def k(s, x):
        s.log('atomic', 'update', c.args[0], old, x, I.deep(s, c.args[1]))
        I.store(s, c.args[0], x)
        return R(s, old)
    return chain(I.apply(st, c.args[3], [old]), k)


@model('std::sync::atomic::Atomic::compare_exchange', 'std::sync::atomic::Atomic::compare_exchange_weak')
def _(I, st, c):
    old = atom_read(I, st, c)
    out = []
    for s, e in I.decide(st, eq(old, c.args[1])):
        if e:
            if 'weak' in c.name:
                s0 = s.copy()
                s0.log('atomic', 'load', c.args[0], old, old, I.deep(s0, c.args[4]))
                out.extend(R(s0, err(old)))
            s.log('atomic', 'cas', c.args[0], old, c.args[2], I.deep(s, c.args[3]))
            I.store(s, c.args[0], c.args[2])
            out.extend(R(s, ok(old)))
        else:
            s.log('atomic', 'load', c.args[0], old, old, I.deep(s, c.args[4]))
            out.extend(R(s, err(old)))
    return out


# ---- locks

@model('std::sync::Mutex::new', 'std::sync::RwLock::new', 'futures_locks::RwLock::new', 'futures_locks::Mutex::new',
       'futures::lock::Mutex::new')
def _(I, st, c):
    return R(st, ('agg', 'mutex', '', (('data', c.args[0]),)))


@model('std::sync::Mutex::lock', 'std::sync::RwLock::read', 'std::sync::RwLock::write', 'std::sync::Mutex::try_lock_')
def _(I, st, c):
    r, p = I.deref(st, c.args[0])
    ref = ('ref', r, p + ('data',))
    st.log('lock', ref, c.name.split('::')[-1])
    I.hooks.get('on_lock', lambda *a: None)(I, st, ref)
    return R(st, ok(('agg', 'guard', '', (('0', ref),))))


@model('std::sync::Mutex::get_mut', 'futures_locks::RwLock::get_mut_', 'std::sync::RwLock::get_mut')
def _(I, st, c):
    r, p = I.deref(st, c.args[0])
    return R(st, ok(('ref', r, p + ('data',))))


@model('std::sync::Mutex::into_inner')
def _(I, st, c):
    return R(st, ok(proj(c.args[0], 'data')))


# ---- sequences

SEQ = ('std::vec::Vec', 'std::collections::VecDeque', 'std::string::String')


@model('std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'std::collections::VecDeque::new', 'std::collections::VecDeque::with_capacity',
       'std::string::String::new', 'std::string::String::with_capacity')
def _(I, st, c):
    return R(st, ('agg', 'array', '', ()))


@model('std::vec::from_elem')
def _(I, st, c):
    return R(st, ('repeat', c.args[0], c.args[1]))


@model('core::slice::len', 'std::vec::Vec::len', 'std::collections::VecDeque::len', 'std::string::String::len', 'core::str::len')
def _(I, st, c):
    r, p = I.deref(st, c.args[0])
    return R(st, I.seq_len_at(st, r, p))


@model('core::slice::is_empty', 'std::vec::Vec::is_empty', 'std::collections::VecDeque::is_empty', 'std::string::String::is_empty',
       'core::str::is_empty')
def _(I, st, c):
    r, p = I.deref(st, c.args[0])
    return R(st, eq(I.seq_len_at(st, r, p), 0))


def pushed(v, x):
    if isagg(v) and v[1] == 'array':
        return ('agg', 'array', '', v[3] + ((('[]', len(v[3])), x),))
    return ('push', v, x)


@model('std::vec::Vec::push', 'std::collections::VecDeque::push_back')
def _(I, st, c):
    v = I.load(st, c.args[0])
    I.store(st, c.args[0], pushed(v, c.args[1]))
    st.log('push', c.args[0], I.deep(st, c.args[1]), 'back')
    return R(st, UNIT)


@model('std::collections::VecDeque::push_front')
def _(I, st, c):
    v = I.load(st, c.args[0])
    w = v[1] if isinstance(v, tuple) and v[0] == 'tail' else None
    x = None if w is None else I.seq_elem(st, w, 0)
    x = proj(w, ('[]', 0)) if w is not None and x is None else x
    if w is not None and c.args[1] == x:
        I.store(st, c.args[0], w)       # what was just taken is put back
    else:
        I.store(st, c.args[0], ('concat', ('agg', 'array', '', ((('[]', 0), c.args[1]),)), v))
    st.log('push', c.args[0], I.deep(st, c.args[1]), 'front')
    return R(st, UNIT)


def nonempty(I, st, v):
    return I.decide(st, not_(eq(I.length(v), 0)))


@model('std::collections::VecDeque::pop_front')
def _(I, st, c):
    v = I.load(st, c.args[0])
    out = []
    for s, n in nonempty(I, st, v):
        if not n:
            out.extend(R(s, NONE))
            continue
        x = I.seq_elem(s, v, 0)
        x = proj(v, ('[]', 0)) if x is None else x
        s.log('pop', c.args[0], x, 'front')
        I.store(s, c.args[0], tail(I, v))
        out.extend(R(s, some(x)))
    return out


def tail(I, v):
    if isagg(v) and v[1] == 'array':
        return ('agg', 'array', '', tuple((('[]', i), x) for i, (k, x) in enumerate(v[3][1:])))
    t = ('tail', v)
    return t


@model('std::vec::Vec::pop', 'std::collections::VecDeque::pop_back')
def _(I, st, c):
    v = I.load(st, c.args[0])
    out = []
    for s, n in nonempty(I, st, v):
        if not n:
            out.extend(R(s, NONE))
            continue
        if isagg(v) and v[1] == 'array':
            x, nv = v[3][-1][1], ('agg', 'array', '', v[3][:-1])
        elif isinstance(v, tuple) and v[0] == 'push':
            x, nv = v[2], v[1]
        else:
            x, nv = proj(v, ('[]', sub(I.length(v), 1))), ('init', v)
        s.log('pop', c.args[0], x, 'back')
        I.store(s, c.args[0], nv)
        out.extend(R(s, some(x)))
    return out


def known_list(v):
    """The elements of a list all of which are known."""
    xs = []
    while isinstance(v, tuple) and v and v[0] == 'push':
        xs.insert(0, v[2])
        v = v[1]
    return [x for _, x in v[3]] + xs if isagg(v) and v[1] == 'array' else None


def as_array(xs):
    return ('agg', 'array', '', tuple((('[]', i), x) for i, x in enumerate(xs)))


@model('std::vec::Vec::remove', 'std::vec::Vec::swap_remove', 'std::vec::Vec::insert')
def _(I, st, c):
    xs, i = known_list(I.load(st, c.args[0])), c.args[1]
    if xs is None or not isinstance(i, int):
        return None
    k = c.name.split('::')[-1]
    if i >= len(xs) + (k == 'insert'):
        from .interp import Out
        return [Out('panic', st, ('index', i, len(xs)))]
    if k == 'insert':
        I.store(st, c.args[0], as_array(xs[:i] + [c.args[2]] + xs[i:]))
        return R(st, UNIT)
    x = xs[i]
    I.store(st, c.args[0], as_array(xs[:i] + xs[i + 1:] if k == 'remove' or i == len(xs) - 1 else xs[:i] + [xs[-1]] + xs[i + 1:-1]))
    return R(st, x)


def elem_ref(I, st, ref, i):
    r, p = I.deref(st, ref)
    return ('ref', r, I.norm_path(p + (('[]', i),)))


@model('std::collections::VecDeque::front', 'std::collections::VecDeque::front_mut', 'core::slice::first', 'core::slice::first_mut')
def _(I, st, c):
    r, p = I.deref(st, c.args[0])
    out = []
    for s, n in I.decide(st, not_(eq(I.seq_len_at(st, r, p), 0))):
        out.extend(R(s, some(elem_ref(I, s, c.args[0], 0)) if n else NONE))
    return out


@model('std::collections::VecDeque::back', 'std::collections::VecDeque::back_mut', 'core::slice::last', 'core::slice::last_mut')
def _(I, st, c):
    r, p = I.deref(st, c.args[0])
    ln = I.seq_len_at(st, r, p)
    out = []
    for s, n in I.decide(st, not_(eq(ln, 0))):
        out.extend(R(s, some(elem_ref(I, s, c.args[0], sub(ln, 1))) if n else NONE))
    return out


@model('core::slice::get', 'core::slice::get_mut', 'std::collections::VecDeque::get', 'std::collections::VecDeque::get_mut')
def _(I, st, c):
    from .interp import int_range
    r, p = I.deref(st, c.args[0])
    out = []
    if not int_range(c.argtys[1]):
        n = I.seq_len_at(st, r, p)
        rs = range_of(I, st, c.argtys[1], c.args[1], lambda: n)
        if rs is None:
            return None
        for s, bad in [(s2, x or y) for s1, x in I.decide(st, lt(n, rs[1])) for s2, y in ([(s1, 0)] if x else I.decide(s1, lt(rs[1], rs[0])))]:
            out.extend(R(s, NONE if bad else some(('ref', r, I.norm_path(p + (('sub', rs[0], rs[1]),))))))
        return out
    for s, n in I.decide(st, lt(c.args[1], I.seq_len_at(st, r, p))):
        out.extend(R(s, some(elem_ref(I, s, c.args[0], c.args[1])) if n else NONE))
    return out


@model('core::slice::get_unchecked', 'core::slice::get_unchecked_mut')
def _(I, st, c):
    return R(st, elem_ref(I, st, c.args[0], c.args[1]))


@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def _(I, st, c):
    if (c.fn.get('rk') or '') in I.P.bodies:
        return None
    from .interp import int_range
    r, p = I.deref(st, c.args[0])
    ty = strip_generics(c.gen[0] if c.gen else '')
    i = c.args[1]
    ity = c.argtys[1]
    if ty.startswith('std::collections::HashMap') or ty.startswith('std::collections::BTreeMap'):
        return map_get(I, st, c.args[0], i, lambda s, ref: R(s, ref), lambda s: PANIC(s, ('index',)))
    if int_range(ity):
        return R(st, ('ref', r, I.norm_path(p + (('[]', i),))))
    if strip_generics(ity).endswith('RangeFull'):
        return R(st, ('ref', r, p))
    rs = range_of(I, st, ity, i, lambda: I.seq_len_at(st, r, p))
    if rs is not None:
        ref = ('ref', r, I.norm_path(p + (('sub', rs[0], rs[1]),)))
        st.log('slice', I.deep(st, c.args[0]), rs[0], rs[1])
        return R(st, ref)
    return None


def range_of(I, st, ity, i, n):
    k = strip_generics(ity)
    if k.endswith('RangeFull'):
        return 0, n()
    if not (isinstance(i, tuple)):
        return None
    if k.endswith('RangeFrom'):
        return proj(i, 'start'), n()
    if k.endswith('RangeTo'):
        return 0, proj(i, 'end')
    if k.endswith('RangeToInclusive'):
        return 0, add(proj(i, 'end'), 1)
    if k.endswith('RangeInclusive'):
        return proj(i, 'start'), add(proj(i, 'end'), 1)
    if k.endswith('Range'):
        return proj(i, 'start'), proj(i, 'end')
    return None


@model('core::slice::split_at', 'core::slice::split_at_mut')
def _(I, st, c):
    r, p = I.deref(st, c.args[0])
    n = I.seq_len_at(st, r, p)
    k = c.args[1]
    return R(st, tup(('ref', r, I.norm_path(p + (('sub', 0, k),))), ('ref', r, I.norm_path(p + (('sub', k, n),)))))


@model('core::slice::fill')
def _(I, st, c):
    r, p = I.deref(st, c.args[0])
    n = I.seq_len_at(st, r, p)
    st.log('write', 'fill', c.args[0], I.deep(st, c.args[1]), n)
    if p and isinstance(p[-1], tuple) and p[-1][0] == 'sub':
        I.write(st, r, p[:-1], ('splice', I.read(st, r, p[:-1]), p[-1][1], p[-1][2], ('repeat', c.args[1], n)))
    else:
        I.write(st, r, p, ('repeat', c.args[1], n))
    return R(st, UNIT)


@model('core::slice::copy_from_slice', 'core::slice::clone_from_slice')
def _(I, st, c):
    r, p = I.deref(st, c.args[0])
    rs, ps = I.deref(st, c.args[1])
    src = seq_value(I, st, rs, ps)
    n = I.seq_len_at(st, r, p)
    m = I.seq_len_at(st, rs, ps)
    out = []
    for s, e in I.decide(st, eq(n, m)):
        if not e:
            out.extend(PANIC(s, ('copy_from_slice length',)))
            continue
        s.log('write', 'copy', c.args[0], src, n)
        if p and isinstance(p[-1], tuple) and p[-1][0] == 'sub':
            I.write(s, r, p[:-1], ('splice', I.read(s, r, p[:-1]), p[-1][1], p[-1][2], src))
        else:
            I.write(s, r, p, src)
        out.extend(R(s, UNIT))
    return out


def seq_value(I, st, r, p):
    """The sequence at a place; a part of one as ('sub', base, from, to)."""
    if p and isinstance(p[-1], tuple) and p[-1][0] == 'sub':
        b = seq_value(I, st, r, p[:-1])
        a, z = p[-1][1], p[-1][2]
        if z is None:
            z = I.length(b)
        if a == 0 and z == I.length(b):
            return b
        if isinstance(b, tuple) and b[0] == 'sub' and len(b) == 4:
            return ('sub', b[1], add(b[2], a), add(b[2], z))
        return ('sub', b, a, z)
    return I.read(st, r, p)


@model('std::vec::Vec::extend_from_slice')
def _(I, st, c):
    rs, ps = I.deref(st, c.args[1])
    src = seq_value(I, st, rs, ps)
    v = I.load(st, c.args[0])
    st.log('write', 'extend', c.args[0], I.deep(st, src), I.length(src))
    I.store(st, c.args[0], cat(I, v, src))
    return R(st, UNIT)


def bulk(I, st, v):
    """The bytes an iterator value yields, when it yields a stretch of a sequence of them or repeats one; else None."""
    if isagg(v) and v[1] in ('it:copied', 'it:cloned') and isagg(fld(v, 'i')) and fld(v, 'i')[1] == 'it:slice':
        i = fld(v, 'i')
        r, p = I.deref(st, fld(i, 's'))
        b = seq_value(I, st, r, p)
        if isagg(b) or elem_known(b):
            return None
        a, z = fld(i, 'i'), fld(i, 'e')
        if a == 0 and z == I.length(b):
            return b
        return ('sub', b[1], add(b[2], a), add(b[2], z)) if b[0] == 'sub' and len(b) == 4 else ('sub', b, a, z)
    if isagg(v) and v[1] == 'it:take' and isagg(fld(v, 'i')) and fld(v, 'i')[1] == 'it:repeat' and is_int_like(fld(fld(v, 'i'), 'v')):
        return ('repeat', fld(fld(v, 'i'), 'v'), fld(v, 'c'))
    return None


def elem_known(b):
    return not isinstance(b, tuple) or b[0] in ('push', 'seqmap', 'with', 'lv')


def cat(I, a, b):
    if isagg(a) and a[1] == 'array' and not a[3]:
        return b
    if isagg(b) and b[1] == 'array' and not b[3]:
        return a
    return ('concat', a, b)


@model('std::vec::Vec::append')
def _(I, st, c):
    v, w = I.load(st, c.args[0]), I.load(st, c.args[1])
    I.store(st, c.args[0], cat(I, v, w))
    I.store(st, c.args[1], ('agg', 'array', '', ()))
    st.log('write', 'extend', c.args[0], I.deep(st, w), I.length(w))
    return R(st, UNIT)


@model('std::vec::Vec::clear', 'std::collections::VecDeque::clear', 'std::string::String::clear')
def _(I, st, c):
    I.store(st, c.args[0], ('agg', 'array', '', ()))
    return R(st, UNIT)


@model('std::vec::Vec::resize')
def _(I, st, c):
    v = I.load(st, c.args[0])
    n, x = c.args[1], c.args[2]
    ln = I.length(v)
    out = []
    for s, sh in I.decide(st, lt(n, ln)):
        if sh:
            I.store(s, c.args[0], ('sub', v, 0, n))
        elif n == ln:
            pass
        elif isagg(v) and v[1] == 'array' and isinstance(n, int) and n <= 16 and not is_int_like(x):
            I.store(s, c.args[0], ('agg', 'array', '', v[3] + tuple((('[]', i), x) for i in range(len(v[3]), n))))
        else:
            I.store(s, c.args[0], cat(I, v, ('repeat', x, sub(n, ln))))
        s.log('resize', c.args[0], n, x)
        out.extend(R(s, UNIT))
    return out


@model('std::vec::Vec::resize_with')
def _(I, st, c):
    v = I.load(st, c.args[0])
    n = c.args[1]
    ln = I.length(v)
    out = []
    for s, sh in I.decide(st, lt(n, ln)):
        if sh:
            I.store(s, c.args[0], ('sub', v, 0, n))
            out.extend(R(s, UNIT))
            continue
        k = len(s.effects())
        for o in I.apply(s, c.args[2], []):
            if o.kind != 'ret' or len(o.st.effects()) != k:
                # Not one value for all the new elements.
                return None
            if isagg(v) and v[1] == 'array' and isinstance(n, int) and n <= 16:
                w = ('agg', 'array', '', v[3] + tuple((('[]', i), o.val) for i in range(len(v[3]), n)))
            else:
                w = cat(I, v, ('repeat', o.val, sub(n, ln)))
            I.store(o.st, c.args[0], w)
            out.extend(R(o.st, UNIT))
    return out


@model('std::vec::Vec::truncate')
def _(I, st, c):
    v = I.load(st, c.args[0])
    out = []
    for s, sh in I.decide(st, lt(c.args[1], I.length(v))):
        if sh:
            I.store(s, c.args[0], ('sub', v, 0, c.args[1]))
        out.extend(R(s, UNIT))
    return out


@model('std::slice::from_raw_parts', 'std::slice::from_raw_parts_mut', 'std::ptr::slice_from_raw_parts', 'std::ptr::slice_from_raw_parts_mut')
def _(I, st, c):
    p, n = c.args
    if isinstance(p, tuple) and p[0] == 'ref':
        return R(st, ('ref', p[1], I.norm_path(p[2] + (('sub', 0, n),))))
    if isinstance(p, tuple) and p[0] == 'ptradd' and isinstance(p[1], tuple) and p[1][0] == 'ref':
        return R(st, ('ref', p[1][1], I.norm_path(p[1][2] + (('sub', p[2], add(p[2], n)),))))
    if isinstance(p, tuple):
        b, o = (p[1], p[2]) if p[0] == 'ptradd' else (p, 0)
        return R(st, ('ref', ('P', b), (('sub', o, add(o, n)),)))
    return None


@model('std::ptr::mut_ptr::add', 'std::ptr::const_ptr::add', 'std::ptr::mut_ptr::offset', 'std::ptr::const_ptr::offset')
def _(I, st, c):
    p, n = c.args
    if isinstance(p, tuple) and p[0] == 'ptradd':
        return R(st, ('ptradd', p[1], add(p[2], n)))
    return R(st, ('ptradd', p, n) if n != 0 else p)


# ---- maps

MAPS = ('std::collections::HashMap', 'std::collections::BTreeMap')


def keyval(I, st, k):
    """A key as a value."""
    if isinstance(k, tuple) and k[0] == 'ref':
        k = I.read(st, k[1], k[2])
    return I.deep(st, k)


def map_keys(v):
    out = []
    while isinstance(v, tuple) and v[0] == 'with':
        out.extend(k[1] for k, _ in v[2] if isinstance(k, tuple) and k[0] == '[]')
        v = v[1]
    return out


def canon_key(I, st, m, k):
    """[(state, key)]: k, or the key the map is already known to use for it."""
    ks = map_keys(m)
    extra = I.hooks.get('map_keys')
    if extra:
        ks = list(dict.fromkeys(ks + [x for x in extra if x not in ks]))
    if k in ks:
        return [(st, k)]
    out = []
    cur = [st]
    for x in ks:
        nxt = []
        for s in cur:
            for s2, e in I.equal(s, k, x):
                if e:
                    out.append((s2, x))
                else:
                    nxt.append(s2)
        cur = nxt
    return out + [(s, k) for s in cur]


def map_slot(I, st, ref, k):
    """[(state, root, path-of-slot)]; a slot holds an Option."""
    r, p = I.deref(st, ref)
    k = keyval(I, st, k)
    m = I.read(st, r, p)
    return [(s, r, p + (('[]', kk),)) for s, kk in canon_key(I, st, m, k)]


def slot_value(I, st, r, p):
    m = I.read(st, r, p[:-1])
    base = m
    while isinstance(base, tuple) and base[0] == 'with':
        base = base[1]
    v = I.read(st, r, p)
    if isinstance(base, tuple) and base[0] == 'empty' and v == ('.', base, p[-1]):
        return NONE
    return v


def map_get(I, st, ref, k, yes, no):
    out = []
    for s, r, p in map_slot(I, st, ref, k):
        v = slot_value(I, s, r, p)
        for s2, pr, x in I.split_opt(s, v):
            if pr:
                if not isagg(v):
                    I.write(s2, r, p, some(x))
                out.extend(yes(s2, ('ref', r, p + ('0',))))
            else:
                out.extend(no(s2))
    return out


def fld(v, k):
    return dict(v[3]).get(k)


def _mapnames(*ms):
    return [f'{t}::{m}' for t in MAPS for m in ms]


@model(*_mapnames('new', 'with_hasher', 'with_capacity', 'with_capacity_and_hasher'))
def _(I, st, c):
    return R(st, ('empty', 'map'))


@model(*_mapnames('get', 'get_mut'))
def _(I, st, c):
    return map_get(I, st, c.args[0], c.args[1], lambda s, ref: R(s, some(ref)), lambda s: R(s, NONE))


@model(*_mapnames('contains_key'))
def _(I, st, c):
    return map_get(I, st, c.args[0], c.args[1], lambda s, ref: R(s, 1), lambda s: R(s, 0))


@model(*_mapnames('insert'))
def _(I, st, c):
    out = []
    for s, r, p in map_slot(I, st, c.args[0], c.args[1]):
        old = slot_value(I, s, r, p)
        s.log('mapinsert', ('ref', r, p[:-1]), p[-1][1], I.deep(s, c.args[2]))
        I.write(s, r, p, some(c.args[2]))
        out.extend(R(s, old))
    return out


@model(*_mapnames('remove'))
def _(I, st, c):
    out = []
    for s, r, p in map_slot(I, st, c.args[0], c.args[1]):
        old = slot_value(I, s, r, p)
        s.log('mapremove', ('ref', r, p[:-1]), p[-1][1])
        I.write(s, r, p, NONE)
        out.extend(R(s, old))
    return out


@model(*_mapnames('clear'))
def _(I, st, c):
    I.store(st, c.args[0], ('empty', 'map'))
    return R(st, UNIT)


@model(*_mapnames('len'))
def _(I, st, c):
    v = I.load(st, c.args[0])
    t = ('count', v)
    return R(st, t)


@model(*_mapnames('is_empty'))
def _(I, st, c):
    v = I.load(st, c.args[0])
    if isinstance(v, tuple) and v[0] == 'empty':
        return R(st, 1)
    return R(st, eq(('count', v), 0))


# entries
@model(*_mapnames('entry'))
def _(I, st, c):
    out = []
    for s, r, p in map_slot(I, st, c.args[0], c.args[1]):
        v = slot_value(I, s, r, p)
        for s2, pr, x in I.split_opt(s, v):
            if pr and not isagg(v):
                I.write(s2, r, p, some(x))
            E = 'std::collections::hash_map::Entry' if 'Hash' in c.name else 'std::collections::btree_map::Entry'
            out.extend(R(s2, ('agg', E, 'Occupied' if pr else 'Vacant', (('0', ('agg', 'mapentry', '', (('0', ('ref', r, p)),))),))))
    return out


@prefix('std::collections::hash_map::Entry::')
def _(I, st, c):
    return entry_model(I, st, c)


@prefix('std::collections::btree_map::Entry::')
def _(I, st, c):
    return entry_model(I, st, c)


def entry_model(I, st, c):
    m = c.name.split('::')[-1]
    e = c.args[0]
    if not isagg(e):
        return None
    ref = e[3][0][1][3][0][1]
    r, p = ref[1], ref[2]
    val = ('ref', r, p + ('0',))
    if m in ('or_insert', 'or_insert_with', 'or_default'):
        if e[2] == 'Occupied':
            return R(st, val)
        if m == 'or_insert':
            outs = R(st, c.args[1])
        elif m == 'or_default':
            outs = R(st, default_of(c.retty.replace('&mut ', '')))
        else:
            outs = I.apply(st, c.args[1], [])

        def k(s, v):
            s.log('mapinsert', ('ref', r, p[:-1]), p[-1][1], I.deep(s, v))
            I.write(s, r, p, some(v))
            return R(s, val)
        return chain(outs, k)
    if m == 'and_modify':
        if e[2] == 'Occupied':
            return chain(I.apply(st, c.args[1], [val]), lambda s, v: R(s, e))
        return R(st, e)
    return None


def oe(I, st, c):
    m = c.name.split('::')[-1]
    e = c.args[0]
    if isinstance(e, tuple) and e[0] == 'ref':
        e = I.read(st, e[1], e[2])
    if not (isagg(e) and e[1] == 'mapentry'):
        return None
    ref = e[3][0][1]
    r, p = ref[1], ref[2]
    if m in ('get', 'get_mut', 'into_mut'):
        return R(st, ('ref', r, p + ('0',)))
    if m == 'remove':
        v = I.read(st, r, p + ('0',))
        st.log('mapremove', ('ref', r, p[:-1]), p[-1][1])
        I.write(st, r, p, NONE)
        return R(st, v)
    if m == 'remove_entry':
        v = I.read(st, r, p + ('0',))
        st.log('mapremove', ('ref', r, p[:-1]), p[-1][1])
        I.write(st, r, p, NONE)
        return R(st, tup(p[-1][1], v))
    if m == 'insert':
        old = I.read(st, r, p)
        st.log('mapinsert', ('ref', r, p[:-1]), p[-1][1], I.deep(st, c.args[1]))
        I.write(st, r, p, some(c.args[1]))
        return R(st, I.read(st, r, p + ('0',)) if 'Vacant' not in c.name else ('ref', r, p + ('0',))) if 'Vacant' in c.name else R(st, proj(old, '0'))
    if m == 'key':
        return R(st, I.alloc(st, p[-1][1]))
    return None


for _m in ('hash_map', 'btree_map'):
    PREFIX.append((f'std::collections::{_m}::OccupiedEntry::', oe))
    PREFIX.append((f'std::collections::{_m}::VacantEntry::', oe))


# ---- iterators

def iter_of(I, st, v, ty):
    """An iterator value for a collection or iterator v of type ty."""
    t = ty or ''
    k = strip_generics(t.replace('&mut ', '').replace('&', ''))
    if t.startswith('&'):
        if isinstance(v, tuple) and v[0] == 'ref':
            w = I.read(st, v[1], v[2])
            if isagg(w) and (w[1].startswith('it:') or w[1].endswith('Range') or w[1].endswith('RangeInclusive')):
                return ('agg', 'it:by_ref', '', (('i', v),))
        r, p = I.deref(st, v)
        if 'Map' in k or 'Set' in k:
            return None
        if k.startswith('[') or k == '' or any(k.endswith(x) for x in ('Vec', 'VecDeque', 'DivBuf')):
            return ('agg', 'it:slice', '', (('s', ('ref', r, p)), ('i', 0), ('e', I.seq_len_at(st, r, p))))
        return None
    if isagg(v) and v[1].startswith('it:'):
        return v
    if k.endswith('ops::Range') or k.endswith('ops::RangeInclusive') or k.endswith('ops::RangeFrom'):
        return v if isagg(v) else v
    if k in ('std::vec::Vec', 'std::collections::VecDeque') or k.startswith('['):
        ref = I.alloc(st, v)
        return ('agg', 'it:into', '', (('s', ref), ('i', 0), ('e', I.length(v))))
    if k == 'std::option::Option':
        ref = v
        return ('agg', 'it:opt', '', (('v', ref),))
    return None


@model('std::iter::IntoIterator::into_iter', 'core::slice::iter', 'core::slice::iter_mut', 'std::collections::VecDeque::iter',
       'std::collections::VecDeque::iter_mut')
def _(I, st, c):
    if (c.fn.get('rk') or '') in I.P.bodies:
        return None
    ty = c.argtys[0]
    v = iter_of(I, st, c.args[0], ty)
    if v is not None:
        return R(st, v)
    if c.name.endswith('into_iter') and c.argtys[0] == c.retty:
        return R(st, c.args[0])
    k = strip_generics(ty.replace('&mut ', '').replace('&', ''))
    if c.name.endswith('into_iter') and not ('Map' in k or 'Set' in k or k.endswith('FuturesUnordered')):
        return R(st, c.args[0])
    return None


@model('std::option::Option::iter', 'std::option::Option::into_iter', 'std::option::Option::iter_mut')
def _(I, st, c):
    if 'into' in c.name:
        return R(st, ('agg', 'it:opt', '', (('v', c.args[0]),)))
    r, p = I.deref(st, c.args[0])
    out = []
    for s, pr, x in I.split_opt(st, I.read(st, r, p)):
        q = p + ('0',) if isagg(I.read(s, r, p)) else p + ('v:Some', '0')
        out.extend(R(s, ('agg', 'it:opt', '', (('v', some(('ref', r, q)) if pr else NONE),))))
    return out


def adaptor(name, fields):
    def f(I, st, c):
        if (c.fn.get('rk') or '') in I.P.bodies:
            return None
        args = list(c.args)
        if name in ('zip', 'chain'):
            w = iter_of(I, st, args[1], c.argtys[1])
            if w is not None:
                args[1] = w
        if name == 'take' and isagg(args[0]) and args[0][1] == 'it:ones' and fld(args[0], 'n') == 0:
            # counted by the same counter as the ones are
            return R(st, ('agg', 'it:ones', '', (('s', fld(args[0], 's')), ('n', 0), ('lim', args[1]))))
        if name in ('filter', 'take_while') and isagg(args[0]) and args[0][1] == 'it:ones' and len(args[0][3]) == 2 and fld(args[0], 'n') == 0:
            # the members come in order: those below a bound are the first so many
            k = bound_of(I, st, args[1], fld(args[0], 's'))
            if k is not None:
                lim = ('count1', fld(args[0], 's'), k)
                I.ty.setdefault(lim, 'usize')
                return R(st, ('agg', 'it:ones', '', (('s', fld(args[0], 's')), ('n', 0), ('lim', lim), ('below', k))))
        if name == 'step_by' and isagg(args[0]) and isinstance(args[1], int) and args[1] > 0:
            k = args[0][1].rsplit('::', 1)[-1]
            if k in ('Range', 'RangeFrom', 'RangeInclusive'):
                end = None if k == 'RangeFrom' else add(fld(args[0], 'end'), 1) if k == 'RangeInclusive' else fld(args[0], 'end')
                return R(st, ('agg', 'it:arith', '', (('start', fld(args[0], 'start')), ('end', end), ('c', args[1]))))
        more = ()
        if name == 'zip':
            pa, pb = position(args[0]), position(args[1])
            if pa and pb:
                more = (('lock', ('lock',) + pa + pb),)
        return R(st, ('agg', 'it:' + name, '', tuple(zip(fields, args)) + EXTRA.get(name, ()) + more))
    return f


@model('itertools::multizip', 'itertools::izip')
def _(I, st, c):
    t = c.args[0]
    if not (isagg(t) and t[1] == 'tuple' and len(t[3]) > 1):
        return None
    xs = [iter_of(I, st, x, None) for _, x in t[3]]
    if any(x is None for x in xs):
        return None
    v = xs[0]
    for x in xs[1:]:
        v = ('agg', 'it:zip', '', (('i', v), ('j', x)))
    return R(st, ('agg', 'it:untuple', '', (('i', v), ('n', len(xs)))))


def position(v):
    """(path, value) of where an iterator that moves by one at a time is; None for any other."""
    path = ()
    while isagg(v) and v[1] in ('it:map', 'it:enumerate', 'it:copied', 'it:cloned', 'it:inspect'):
        path += ('i',)
        v = fld(v, 'i')
    if not isagg(v):
        return None
    f = {'it:slice': 'i', 'it:into': 'i', 'it:chunkq': 'i', 'it:ones': 'n'}.get(v[1]) or ('start' if v[1].endswith(('ops::Range', 'ops::RangeFrom')) else None)
    return (path + (f,), fld(v, f)) if f else None


def bound_of(I, st, f, set_):
    """k if the predicate f of a reference says that its argument is less than k."""
    s = st.copy()
    x = ('one', set_, ('any', s.fresh('one')))
    I.ty.setdefault(x, 'usize')
    n = len(s.effects())
    outs = I.apply(s, f, [I.alloc(s, x)])
    if len(outs) != 1 or outs[0].kind != 'ret' or len(outs[0].st.effects()) != n:
        return None
    v = outs[0].val
    if isinstance(v, tuple) and v and v[0] == 'pos':
        k = add(v[1], x)
        if not mentions(k, x) and v == lt(x, k):
            return k
    return None


EXTRA = {'enumerate': (('n', 0),), 'chain': (('first', 1),), 'peekable': (('p', NONE),), 'step_by': (('first', 1),), 'skip_while': (('done', 0),),
         'take_while': (('done', 0),), 'fuse': ()}
for _n, _f in (('map', ('i', 'f')), ('enumerate', ('i',)), ('zip', ('i', 'j')), ('rev', ('i',)), ('filter', ('i', 'f')), ('filter_map', ('i', 'f')),
               ('take', ('i', 'c')), ('skip', ('i', 'c')), ('chain', ('i', 'j')), ('cloned', ('i',)), ('copied', ('i',)),
               ('inspect', ('i', 'f')), ('step_by', ('i', 'c')), ('peekable', ('i',)), ('fuse', ('i',)), ('take_while', ('i', 'f')),
               ('skip_while', ('i', 'f')), ('flat_map', ('i', 'f')), ('flatten', ('i',)), ('map_while', ('i', 'f')), ('scan', ('i', 's', 'f'))):
    MODELS['std::iter::Iterator::' + _n] = adaptor(_n, _f)


@model('std::iter::Iterator::by_ref')
def _(I, st, c):
    return R(st, c.args[0])


@model('std::iter::repeat')
def _(I, st, c):
    return R(st, ('agg', 'it:repeat', '', (('v', c.args[0]),)))


@model('std::iter::once')
def _(I, st, c):
    return R(st, ('agg', 'it:opt', '', (('v', some(c.args[0])),)))


@model('std::iter::empty')
def _(I, st, c):
    return R(st, ('agg', 'it:opt', '', (('v', NONE),)))


@model('std::iter::repeat_with')
def _(I, st, c):
    return R(st, ('agg', 'it:repeatw', '', (('f', c.args[0]),)))


@model('std::iter::from_fn')
def _(I, st, c):
    return R(st, ('agg', 'it:fromfn', '', (('f', c.args[0]),)))


@model('std::iter::successors')
def _(I, st, c):
    return R(st, ('agg', 'it:succ', '', (('n', c.args[0]), ('f', c.args[1]))))


@model('core::slice::chunks', 'core::slice::chunks_exact', 'core::slice::chunks_mut', 'core::slice::chunks_exact_mut')
def _(I, st, c):
    r, p = I.deref(st, c.args[0])
    e, n = I.seq_len_at(st, r, p), c.args[1]
    q = exact(e, n) if e != n and I.known(st, lt(0, n)) == 1 else None
    if q is not None:
        # whole chunks only: counted
        return R(st, ('agg', 'it:chunkq', '', (('s', ('ref', r, p)), ('i', 0), ('e', q), ('n', n))))
    return R(st, ('agg', 'it:chunks', '', (('s', ('ref', r, p)), ('i', 0), ('e', I.seq_len_at(st, r, p)), ('n', c.args[1]),
                                            ('exact', int('exact' in c.name)))))


@model('std::ops::RangeInclusive::new')
def _(I, st, c):
    return R(st, ('agg', 'std::ops::RangeInclusive', '', (('start', c.args[0]), ('end', c.args[1]), ('exhausted', 0))))


@model('std::ops::RangeInclusive::start', 'std::ops::RangeInclusive::end')
def _(I, st, c):
    r, p = I.deref(st, c.args[0])
    return R(st, ('ref', r, p + (c.name.split('::')[-1],)))


@model('std::ops::RangeInclusive::contains', 'std::ops::Range::contains', 'std::ops::RangeBounds::contains', 'std::ops::RangeFrom::contains',
       'std::ops::RangeTo::contains')
def _(I, st, c):
    v = I.load(st, c.args[0])
    x = I.load(st, c.args[1])
    k = strip_generics(c.argtys[0]).lstrip('&')
    if not isagg(v):
        return None
    cs = []
    if 'RangeTo' not in k:
        cs.append(not_(lt(x, proj(v, 'start'))))
    if 'RangeFrom' not in k:
        e = proj(v, 'end')
        cs.append(not_(lt(e, x)) if 'Inclusive' in k else lt(x, e))
    r = 1
    from .interp import cond_and
    for q in cs:
        r = cond_and(r, q)
    return R(st, r)


@model('std::ops::Range::is_empty')
def _(I, st, c):
    v = I.load(st, c.args[0])
    return R(st, not_(lt(proj(v, 'start'), proj(v, 'end'))))


def next_of(I, st, r, p, d=0):
    """[(state, present, item)] of advancing the iterator stored at (r, p); None if its kind is unknown."""
    v = I.read(st, r, p)
    for _ in range(4):
        if isinstance(v, tuple) and v[0] == 'ref':
            r, p = v[1], v[2]
            v = I.read(st, r, p)
        else:
            break
    if not isagg(v):
        return None
    k = v[1]
    g = lambda f: proj(v, f)
    if k.endswith('ops::Range'):
        a, b = g('start'), g('end')
        out = []
        for s, t in I.decide(st, lt(a, b)):
            if t:
                I.write(s, r, p + ('start',), add(a, 1))
                out.append((s, 1, a))
            else:
                out.append((s, 0, None))
        return out
    if k.endswith('ops::RangeFrom'):
        I.write(st, r, p + ('start',), add(g('start'), 1))
        return [(st, 1, g('start'))]
    if k.endswith('ops::RangeInclusive'):
        a, b = g('start'), g('end')
        out = []
        for s, t in I.decide(st, not_(lt(b, a))):
            if t:
                I.write(s, r, p + ('start',), add(a, 1))
                out.append((s, 1, a))
            else:
                out.append((s, 0, None))
        return out
    if k in ('it:slice', 'it:into'):
        i, e = g('i'), g('e')
        out = []
        for s, t in I.decide(st, lt(i, e)):
            if t:
                I.write(s, r, p + ('i',), add(i, 1))
                ref = elem_ref(I, s, g('s'), i)
                out.append((s, 1, ref if k == 'it:slice' else I.load(s, ref)))
            else:
                out.append((s, 0, None))
        return out
    if k == 'it:arith':
        # start, start + c, start + 2c, … below the end
        out = []
        for s, t in [(st, True)] if g('end') is None else I.decide(st, lt(g('start'), g('end'))):
            if t:
                I.write(s, r, p + ('start',), add(g('start'), g('c')))
                out.append((s, 1, g('start')))
            else:
                out.append((s, 0, None))
        return out
    if k == 'it:chunkq':
        i, n = g('i'), g('n')
        out = []
        for s, t in I.decide(st, lt(i, g('e'))):
            if t:
                I.write(s, r, p + ('i',), add(i, 1))
                sr, sp = I.deref(s, g('s'))
                out.append((s, 1, ('ref', sr, I.norm_path(sp + (('sub', mul(i, n), mul(add(i, 1), n)),)))))
            else:
                out.append((s, 0, None))
        return out
    if k == 'it:chunks':
        i, e, n = g('i'), g('e'), g('n')
        out = []
        c0 = lt(i, e) if g('exact') == 0 else not_(lt(sub(e, i), n))
        for s, t in I.decide(st, c0):
            if not t:
                out.append((s, 0, None))
                continue
            for s2, full in I.decide(s, not_(lt(sub(e, i), n))):
                z = add(i, n) if full else e
                I.write(s2, r, p + ('i',), z)
                sr, sp = I.deref(s2, g('s'))
                out.append((s2, 1, ('ref', sr, I.norm_path(sp + (('sub', i, z),)))))
        return out
    if k == 'it:by_ref':
        return next_of(I, st, g('i')[1], g('i')[2], d + 1)
    if k == 'it:ones':
        out = []
        all_ = ('count1', g('s'), None)
        I.ty.setdefault(all_, 'usize')
        lim, below = (dict(I.read(st, r, p)[3]).get(q) for q in ('lim', 'below'))
        for s, t in I.decide(st, lt(g('n'), all_)) if lim is None else \
                [(s2, t and u) for s1, u in I.decide(st, lt(g('n'), lim)) for s2, t in (I.decide(s1, lt(g('n'), all_)) if u else [(s1, 0)])]:
            if t:
                x = ('one', g('s'), g('n'))
                I.ty.setdefault(x, 'usize')
                s.facts[('has', g('s'), x)] = 1
                if below is not None:
                    I.assume(s, lt(x, below))
                I.write(s, r, p + ('n',), add(g('n'), 1))
                out.append((s, 1, x))
            else:
                out.append((s, 0, None))
        return out
    if k == 'it:opt':
        out = []
        for s, pr, x in I.split_opt(st, g('v')):
            I.write(s, r, p + ('v',), NONE)
            out.append((s, int(pr), x))
        return out
    if k == 'it:repeat':
        return [(st, 1, g('v'))]
    if k in ('it:repeatw', 'it:fromfn'):
        out = []
        for o in I.apply(st, ('ref', r, p + ('f',)), []):
            if o.kind == 'panic':
                out.append((o, 'panic', None))
            elif k == 'it:repeatw':
                out.append((o.st, 1, o.val))
            else:
                out.extend((s, int(pr), x) for s, pr, x in I.split_opt(o.st, o.val))
        return out
    if k == 'it:succ':
        out = []
        for s, pr, x in I.split_opt(st, g('n')):
            if not pr:
                out.append((s, 0, None))
                continue
            for o in I.apply(s, ('ref', r, p + ('f',)), [I.alloc(s, x)]):
                if o.kind == 'panic':
                    out.append((o, 'panic', None))
                else:
                    I.write(o.st, r, p + ('n',), o.val)
                    out.append((o.st, 1, x))
        return out
    if k == 'it:chain':
        out = []
        if g('first') == 1:
            ns = next_of(I, st, r, p + ('i',), d + 1)
        else:
            ns = [(st, 0, None)]
        if ns is None:
            return None
        for s, pr, x in ns:
            if pr:
                out.append((s, pr, x))
            else:
                I.write(s, r, p + ('first',), 0)
                more = next_of(I, s, r, p + ('j',), d + 1)
                if more is None:
                    return None
                out.extend(more)
        return out
    if k == 'it:rev':
        return back_of(I, st, r, p + ('i',))
    if k == 'it:take':
        out = []
        for s, t in I.decide(st, lt(0, g('c'))):
            if not t:
                out.append((s, 0, None))
                continue
            I.write(s, r, p + ('c',), sub(g('c'), 1))
            more = next_of(I, s, r, p + ('i',), d + 1)
            if more is None:
                return None
            out.extend(more)
        return out
    if k == 'it:skip':
        cnt = g('c')
        if cnt == 0:
            return next_of(I, st, r, p + ('i',), d + 1)
        adv = advance(I, st, r, p + ('i',), cnt)
        if adv is None:
            return None
        out = []
        for s in adv:
            I.write(s, r, p + ('c',), 0)
            out.extend(next_of(I, s, r, p + ('i',), d + 1))
        return out
    if k == 'it:step_by':
        if g('first') == 1:
            I.write(st, r, p + ('first',), 0)
            return next_of(I, st, r, p + ('i',), d + 1)
        adv = advance(I, st, r, p + ('i',), sub(g('c'), 1))
        if adv is None:
            return None
        out = []
        for s in adv:
            out.extend(next_of(I, s, r, p + ('i',), d + 1))
        return out
    if k == 'it:zip':
        lock = dict(v[3]).get('lock')
        at = g('i')
        for f in lock[1] if lock else ():
            at = proj(at, f)
        ns = next_of(I, st, r, p + ('i',), d + 1)
        if ns is None:
            return None
        out = []
        for s, pr, x in ns:
            if pr != 1:
                out.append((s, pr, x))
                continue
            if lock:
                # the two move together: both are where the first is
                I.write(s, r, p + ('j',) + lock[3], add(lock[4], sub(at, lock[2])))
            ms = next_of(I, s, r, p + ('j',), d + 1)
            if ms is None:
                return None
            for s2, pr2, y in ms:
                out.append((s2, pr2, tup(x, y) if pr2 == 1 else y))
        return out
    if k in ('it:filter', 'it:filter_map'):
        out = []
        for o in search_next(I, st, r, p, k):
            if o.kind == 'panic':
                out.append((o, 'panic', None))
            else:
                pr = o.val[2] == 'Some'
                out.append((o.st, int(pr), o.val[3][0][1] if pr else None))
        return out
    if k in ('it:flat_map', 'it:flatten', 'it:skip_while'):
        return None
    if k.startswith('it:'):
        ns = next_of(I, st, r, p + ('i',), d + 1)
        if ns is None:
            return None
        out = []
        for s, pr, x in ns:
            if pr != 1:
                out.append((s, pr, x))
            elif k == 'it:enumerate':
                n = I.read(s, r, p + ('n',))
                I.write(s, r, p + ('n',), add(n, 1))
                out.append((s, 1, tup(n, x)))
            elif k == 'it:untuple':
                xs = ()
                for _ in range(g('n') - 1):
                    xs = (proj(x, '1'),) + xs
                    x = proj(x, '0')
                out.append((s, 1, tup(x, *xs)))
            elif k in ('it:cloned', 'it:copied'):
                out.append((s, 1, I.load(s, x)))
            elif k == 'it:map':
                for o in I.apply(s, ('ref', r, p + ('f',)), [x]):
                    out.append((o.st, 1, o.val) if o.kind == 'ret' else (o, 'panic', None))
            elif k == 'it:inspect':
                for o in I.apply(s, ('ref', r, p + ('f',)), [I.alloc(s, x)]):
                    out.append((o.st, 1, x) if o.kind == 'ret' else (o, 'panic', None))
            elif k == 'it:take_while':
                for o in I.apply(s, ('ref', r, p + ('f',)), [I.alloc(s, x)]):
                    if o.kind != 'ret':
                        out.append((o, 'panic', None))
                        continue
                    for s2, t in I.decide(o.st, o.val):
                        out.append((s2, int(t), x if t else None))
            elif k in ('it:fuse', 'it:peekable'):
                out.append((s, 1, x))
            else:
                return None
        return out
    if d and not k.startswith('it:'):
        # an iterator of the program, inside an adaptor
        b = next_body(I, v, type('C', (), {'gen': []}))
        if b is not None:
            out = []
            for o in I.exec_body(b, [('ref', r, p)], st):
                if o.kind == 'panic':
                    out.append((o, 'panic', None))
                else:
                    out.extend((s, int(pr), x) for s, pr, x in I.split_opt(o.st, o.val))
            return out
    return None


def advance(I, st, r, p, n):
    """[state] after dropping n items."""
    v = I.read(st, r, p)
    if not isagg(v):
        return None
    k = v[1]
    if k in ('it:slice', 'it:into'):
        i, e = proj(v, 'i'), proj(v, 'e')
        out = []
        for s, t in I.decide(st, not_(lt(sub(e, i), n))):
            I.write(s, r, p + ('i',), add(i, n) if t else e)
            out.append(s)
        return out
    if k.endswith('ops::Range'):
        a, b = proj(v, 'start'), proj(v, 'end')
        out = []
        for s, t in I.decide(st, not_(lt(sub(b, a), n))):
            I.write(s, r, p + ('start',), add(a, n) if t else b)
            out.append(s)
        return out
    if k.endswith('ops::RangeFrom'):
        I.write(st, r, p + ('start',), add(proj(v, 'start'), n))
        return [st]
    if k == 'it:ones':
        # next() compares the number taken with the number there are
        I.write(st, r, p + ('n',), add(proj(v, 'n'), n))
        return [st]
    if k in ('it:map', 'it:cloned', 'it:copied') and k != 'it:map':
        return advance(I, st, r, p + ('i',), n)
    if k == 'it:enumerate':
        out = advance(I, st, r, p + ('i',), n)
        if out is not None:
            for s in out:
                I.write(s, r, p + ('n',), add(I.read(s, r, p + ('n',)), n))
        return out
    return None


def back_of(I, st, r, p):
    v = I.read(st, r, p)
    if not isagg(v):
        return None
    k = v[1]
    if k.endswith('ops::Range') or k.endswith('ops::RangeInclusive'):
        a, b = proj(v, 'start'), proj(v, 'end')
        inc = k.endswith('Inclusive')
        out = []
        for s, t in I.decide(st, not_(lt(b, a)) if inc else lt(a, b)):
            if t:
                I.write(s, r, p + ('end',), sub(b, 1))
                out.append((s, 1, b if inc else sub(b, 1)))
            else:
                out.append((s, 0, None))
        return out
    if k in ('it:slice', 'it:into'):
        i, e = proj(v, 'i'), proj(v, 'e')
        out = []
        for s, t in I.decide(st, lt(i, e)):
            if t:
                I.write(s, r, p + ('e',), sub(e, 1))
                ref = elem_ref(I, s, proj(v, 's'), sub(e, 1))
                out.append((s, 1, ref if k == 'it:slice' else I.load(s, ref)))
            else:
                out.append((s, 0, None))
        return out
    if k == 'it:map':
        ns = back_of(I, st, r, p + ('i',))
        if ns is None:
            return None
        out = []
        for s, pr, x in ns:
            if pr != 1:
                out.append((s, pr, x))
                continue
            for o in I.apply(s, ('ref', r, p + ('f',)), [x]):
                out.append((o.st, 1, o.val) if o.kind == 'ret' else (o, 'panic', None))
        return out
    return None


@model('std::iter::Iterator::next', 'std::iter::DoubleEndedIterator::next_back')
def _(I, st, c):
    if (c.fn.get('rk') or '') in I.P.bodies:
        return None
    r, p = I.deref(st, c.args[0])
    ns = (next_of if c.name.endswith('next') else back_of)(I, st, r, p)
    if ns is None:
        v = I.read(st, r, p)
        if isagg(v) and v[1] in ('it:filter', 'it:filter_map', 'it:skip_while', 'it:flat_map', 'it:flatten'):
            return search_next(I, st, r, p, v[1])
        b = next_body(I, v, c)
        if b is not None:
            return I.exec_body(b, [c.args[0]], st)
        return None
    return wrap_next(I, ns)


def next_body(I, v, c):
    ty = strip_generics(c.gen[0]) if c.gen else ''
    for b in I.P.by_name('next'):
        if b.get('trait') and strip_generics(b.get('self') or '') == (v[1] if isagg(v) else ty) and I.may_inline(b, b['path']):
            return b
    return None


def wrap_next(I, ns):
    out = []
    for s, pr, x in ns:
        if pr == 'panic':
            out.append(s)
        else:
            out.extend(R(s, some(x) if pr else NONE))
    return out


def step_items(I, st, r, p):
    """Items of the iterator at (r, p): [(state, 'item'|'end'|'panic'|'skip', x)], one step of the underlying one."""
    v = I.read(st, r, p)
    for _ in range(4):
        if isinstance(v, tuple) and v[0] == 'ref':
            r, p = v[1], v[2]
            v = I.read(st, r, p)
    if isagg(v) and v[1] in ('it:filter', 'it:filter_map', 'it:map', 'it:enumerate', 'it:inspect', 'it:cloned', 'it:copied', 'it:by_ref'):
        k = v[1]
        if k == 'it:by_ref':
            return step_items(I, st, proj(v, 'i')[1], proj(v, 'i')[2])
        ns = step_items(I, st, r, p + ('i',))
        if ns is None:
            return None
        out = []
        for s, kind, x in ns:
            if kind != 'item':
                out.append((s, kind, x))
                continue
            f = ('ref', r, p + ('f',))
            if k == 'it:filter':
                for o in I.apply(s, f, [I.alloc(s, x)]):
                    if o.kind != 'ret':
                        out.append((o, 'panic', None))
                        continue
                    for s2, t in I.decide(o.st, o.val):
                        out.append((s2, 'item' if t else 'skip', x))
            elif k == 'it:filter_map':
                for o in I.apply(s, f, [x]):
                    if o.kind != 'ret':
                        out.append((o, 'panic', None))
                        continue
                    for s2, t, y in I.split_opt(o.st, o.val):
                        out.append((s2, 'item' if t else 'skip', y))
            elif k == 'it:map':
                for o in I.apply(s, f, [x]):
                    out.append((o.st, 'item', o.val) if o.kind == 'ret' else (o, 'panic', None))
            elif k == 'it:inspect':
                for o in I.apply(s, f, [I.alloc(s, x)]):
                    out.append((o.st, 'item', x) if o.kind == 'ret' else (o, 'panic', None))
            elif k == 'it:enumerate':
                n = I.read(s, r, p + ('n',))
                I.write(s, r, p + ('n',), add(n, 1))
                out.append((s, 'item', tup(n, x)))
            else:
                out.append((s, 'item', I.load(s, x)))
        return out
    ns = next_of(I, st, r, p)
    if ns is None:
        b = next_body(I, v, type('C', (), {'gen': []}))
        if b is None:
            # An iterator of unknown kind: an unknown number of unknown items.
            s1, s2 = st.copy(), st.copy()
            n = st.fresh(('iter', v))
            x = ('item', v, n) + ((st.ctx,) if st.ctx else ())
            c = ('more', v, n) + ((st.ctx,) if st.ctx else ())
            s1.facts[c] = 1
            s2.facts[c] = 0
            I.write(s1, r, p, v)
            return [(s1, 'item', x), (s2, 'end', None)]
        out = []
        for o in I.exec_body(b, [('ref', r, p)], st):
            if o.kind == 'panic':
                out.append((o, 'panic', None))
            else:
                out.extend((s, 'item' if pr else 'end', x) for s, pr, x in I.split_opt(o.st, o.val))
        return out
    return [(s, 'panic' if pr == 'panic' else 'item' if pr else 'end', x) for s, pr, x in ns]


def search_next(I, st, r, p, kind):
    def step(s):
        ns = step_items(I, s, r, p)
        if ns is None:
            return []
        out = []
        for s2, k, x in ns:
            if k == 'skip':
                out.append(('back', s2, None))
            elif k == 'panic':
                out.append(('panic', s2.st, s2.val))
            else:
                out.append(('exit', s2, some(x) if k == 'item' else NONE))
        return out
    if kind in ('it:flat_map', 'it:flatten', 'it:skip_while'):
        return None
    res = I.summarise(st, step, ('next', kind))
    return finish_loop(res)


def finish_loop(res):
    from .interp import Out
    out = []
    for kind, s, x in res:
        out.append(Out('panic', s, x) if kind == 'panic' else Out('ret', s, x))
    return out


def drive(I, st, itv, acc0, body, done=None):
    """Loop over an iterator value with an accumulator: body(state, acc, item) -> [(state, 'next'|'stop'|'panic', acc)]."""
    root = ('T', st.fresh('tmp'), st.ctx)
    st.mem[root] = ('agg', 'fold', '', (('it', itv), ('acc', acc0)))

    def step(s):
        ns = step_items(I, s, root, ('it',))
        out = []
        for s2, k, x in ns:
            if k == 'panic':
                out.append(('panic', s2.st, s2.val))
                continue
            if k == 'skip':
                out.append(('back', s2, None))
                continue
            acc = I.read(s2, root, ('acc',))
            if k == 'end':
                out.append(('exit', s2, 'end'))
                continue
            for s3, what, a in body(s2, acc, x):
                if what == 'panic':
                    out.append(('panic', s3.st, s3.val))
                    continue
                I.write(s3, root, ('acc',), a)
                out.append(('back' if what == 'next' else 'exit', s3, None if what == 'next' else 'stop'))
        return out
    res = I.summarise(st, step, ('fold',))
    from .interp import Out
    outs = []
    for kind, s, x in res:
        if kind == 'panic':
            outs.append(Out('panic', s, x))
            continue
        a = I.read(s, root, ('acc',))
        s.mem.pop(root, None)
        outs.append((s, a, x))
    return outs


def drive_ret(I, outs, f=None):
    from .interp import Out
    res = []
    for o in outs:
        if isinstance(o, Out):
            res.append(o)
        else:
            s, a, how = o
            res.extend(f(s, a, how) if f else R(s, a))
    return res


def lst(outs, f=lambda s, v: [(s, 'next', v)]):
    r = []
    for o in outs:
        if o.kind == 'panic':
            r.append((o, 'panic', None))
        else:
            r.extend(f(o.st, o.val))
    return r


def known_iter(I, st, c):
    v = c.args[0]
    w = iter_of(I, st, v, c.argtys[0])
    return w if w is not None else v


def by_ref_arg(I, st, c):
    """Receiver of the &mut self consumers (all, any, find, position, nth)."""
    return c.args[0]


@model('std::iter::Iterator::fold')
def _(I, st, c):
    return drive_ret(I, drive(I, st, known_iter(I, st, c), c.args[1], lambda s, a, x: lst(I.apply(s, c.args[2], [a, x]))))


@model('std::iter::Iterator::reduce')
def _(I, st, c):
    def body(s, a, x):
        r = []
        for s2, pr, b in I.split_opt(s, a):
            if not pr:
                r.append((s2, 'next', some(x)))
            else:
                r.extend(lst(I.apply(s2, c.args[1], [b, x]), lambda s3, v: [(s3, 'next', some(v))]))
        return r
    return drive_ret(I, drive(I, st, known_iter(I, st, c), NONE, body))


@model('std::iter::Iterator::for_each')
def _(I, st, c):
    return drive_ret(I, drive(I, st, known_iter(I, st, c), UNIT, lambda s, a, x: lst(I.apply(s, c.args[1], [x]))))


@model('std::iter::Iterator::sum')
def _(I, st, c):
    from .interp import int_range
    if not int_range(c.retty):
        return None

    def body(s, a, x):
        if isinstance(x, tuple) and x[0] == 'ref':
            x = I.load(s, x)
        return [(s, 'next', add(a, x))]
    return drive_ret(I, drive(I, st, known_iter(I, st, c), 0, body))


@model('std::iter::Iterator::count')
def _(I, st, c):
    v = c.args[0]
    if isagg(v) and v[1] == 'it:ones' and fld(v, 'n') == 0 and (len(v[3]) == 2 or 'below' in dict(v[3])):
        x = ('count1', fld(v, 's'), dict(v[3]).get('below'))
        I.ty.setdefault(x, 'usize')
        return R(st, x)
    return drive_ret(I, drive(I, st, known_iter(I, st, c), 0, lambda s, a, x: [(s, 'next', add(a, 1))]))


def whole_slice(v):
    return v[3] and dict(v[3])['s'] if isagg(v) and v[1] == 'it:slice' and fld(v, 'i') == 0 else None


def same_contents(I, st, a, b):
    """[(state, bool)] for two slices (references to places) having the same elements in the same order; None if the lengths are not known equal."""
    n, m = I.seq_len_at(st, a[1], a[2]), I.seq_len_at(st, b[1], b[2])
    if n != m and I.known(st, eq(n, m)) != 1:
        return None
    return I.equal(st, I.read(st, a[1], a[2]), I.read(st, b[1], b[2]))


def pairwise(I, st, c, anyp):
    """a.iter().zip(b).all(|(x, y)| x == y) over two whole slices is a comparison of their contents."""
    z = I.load(st, c.args[0])
    if not (isagg(z) and z[1] == 'it:zip'):
        return None
    a, b = whole_slice(fld(z, 'i')), whole_slice(fld(z, 'j'))
    if a is None or b is None or a == b:
        return None
    X, Y = ('pair', 'x', st.fresh('pair')), ('pair', 'y', st.fresh('pair'))
    s = st.copy()
    outs = I.apply(s, c.args[1], [tup(I.alloc(s, X), I.alloc(s, Y))])
    e = eq(X, Y)
    for o in outs:
        if o.kind != 'ret' or len(o.st.effects()) != len(st.effects()):
            return None
        k = I.known(o.st, e)
        v = o.val if o.val in (0, 1) or k is None else I.known(o.st, o.val)
        if o.val == (not_(e) if anyp else e):
            continue
        if k is None or v != (1 - k if anyp else k):
            return None
    r = same_contents(I, st, a, b)
    if r is None:
        return None
    out = []
    for s2, t in r:
        out.extend(R(s2, not_(t) if anyp and not isinstance(t, int) else (1 - t if anyp else t)))
    return out


@model('core::slice::starts_with', 'core::slice::ends_with')
def _(I, st, c):
    a, b = I.deref(st, c.args[0]), I.deref(st, c.args[1])
    r = same_contents(I, st, ('ref',) + tuple(a), ('ref',) + tuple(b))
    return None if r is None else [x for s, t in r for x in R(s, t)]


@model('std::iter::Iterator::eq', 'std::iter::Iterator::ne')
def _(I, st, c):
    a = whole_slice(iter_of(I, st, c.args[0], c.argtys[0]))
    b = whole_slice(iter_of(I, st, c.args[1], c.argtys[1]))
    if a is None or b is None:
        return None
    ne = c.name.endswith('ne')
    out = []
    for s, e in I.equal(st, I.read(st, a[1], a[2]), I.read(st, b[1], b[2])):
        out.extend(R(s, e if not ne else (1 - e if isinstance(e, int) else not_(e))))
    return out


@model('std::iter::Iterator::any', 'std::iter::Iterator::all')
def _(I, st, c):
    anyp = c.name.endswith('any')
    outs = pairwise(I, st, c, anyp)
    if outs is not None:
        return outs

    def body(s, a, x):
        r = []
        for o in I.apply(s, c.args[1], [x]):
            if o.kind == 'panic':
                r.append((o, 'panic', None))
                continue
            for s2, t in I.decide(o.st, o.val):
                r.append((s2, 'stop' if bool(t) == anyp else 'next', int(anyp) if bool(t) == anyp else a))
        return r
    return drive_ret(I, drive(I, st, by_ref_arg(I, st, c), int(not anyp), body))


@model('std::iter::Iterator::find', 'std::iter::Iterator::position', 'std::iter::Iterator::find_map')
def _(I, st, c):
    m = c.name.split('::')[-1]

    def body(s, a, x):
        r = []
        arg = I.alloc(s, x) if m == 'find' else x
        for o in I.apply(s, c.args[1], [arg]):
            if o.kind == 'panic':
                r.append((o, 'panic', None))
                continue
            if m == 'find_map':
                for s2, t, y in I.split_opt(o.st, o.val):
                    r.append((s2, 'stop' if t else 'next', some(y) if t else a))
                continue
            for s2, t in I.decide(o.st, o.val):
                if m == 'find':
                    r.append((s2, 'stop' if t else 'next', some(x) if t else a))
                else:
                    i = proj(a, 'i')
                    r.append((s2, 'stop' if t else 'next', upd(a, ('r',), some(i)) if t else upd(a, ('i',), add(i, 1))))
        return r
    a0 = NONE if m != 'position' else ('agg', 'pos', '', (('i', 0), ('r', NONE)))
    outs = drive(I, st, by_ref_arg(I, st, c), a0, body)
    return drive_ret(I, outs, (lambda s, a, h: R(s, a if h == 'stop' else NONE)) if m != 'position' else
                     (lambda s, a, h: R(s, proj(a, 'r') if h == 'stop' else NONE)))


@model('std::iter::DoubleEndedIterator::rfind')
def _(I, st, c):
    r, p = I.deref(st, c.args[0])
    ref = I.alloc(st, ('agg', 'it:rev', '', (('i', I.read(st, r, p)),)))

    def body(s, a, x):
        out = []
        for o in I.apply(s, c.args[1], [I.alloc(s, x)]):
            if o.kind == 'panic':
                out.append((o, 'panic', None))
                continue
            out.extend((s2, 'stop' if t else 'next', some(x) if t else a) for s2, t in I.decide(o.st, o.val))
        return out
    return drive_ret(I, drive(I, st, ref, NONE, body), lambda s, a, h: R(s, a if h == 'stop' else NONE))


@model('std::iter::Iterator::nth')
def _(I, st, c):
    if (c.fn.get('rk') or '') in I.P.bodies:
        return None
    r, p = I.deref(st, c.args[0])
    adv = advance(I, st, r, p, c.args[1])
    if adv is not None:
        out = []
        for s in adv:
            out.extend(wrap_next(I, next_of(I, s, r, p)))
        return out
    n = c.args[1]

    def body(s, a, x):
        r2 = []
        for s2, t in I.decide(s, eq(proj(a, 'i'), n)):
            if t:
                r2.append((s2, 'stop', upd(a, ('r',), some(x))))
            else:
                r2.append((s2, 'next', upd(a, ('i',), add(proj(a, 'i'), 1))))
        return r2
    outs = drive(I, st, c.args[0], ('agg', 'pos', '', (('i', 0), ('r', NONE))), body)
    return drive_ret(I, outs, lambda s, a, h: R(s, proj(a, 'r') if h == 'stop' else NONE))


@model('fixedbitset::FixedBitSet::ones')
def _(I, st, c):
    return R(st, ('agg', 'it:ones', '', (('s', I.deep(st, I.load(st, c.args[0]))), ('n', 0))))


@model('fixedbitset::FixedBitSet::contains')
def _(I, st, c):
    x = ('has', I.deep(st, I.load(st, c.args[0])), c.args[1])
    I.ty.setdefault(x, 'bool')
    return R(st, x)


@model('fixedbitset::FixedBitSet::count_ones')
def _(I, st, c):
    a = c.args[1]
    k = a[1].rsplit('::', 1)[-1] if isagg(a) else None
    if k == 'RangeTo':
        e = fld(a, 'end')
    elif k == 'RangeFull' or a == UNIT:
        e = None
    elif k == 'Range' and fld(a, 'start') == 0:
        e = fld(a, 'end')
    else:
        return None
    x = ('count1', I.deep(st, I.load(st, c.args[0])), e)
    I.ty.setdefault(x, 'usize')
    return R(st, x)


@model('std::iter::Iterator::last')
def _(I, st, c):
    return drive_ret(I, drive(I, st, known_iter(I, st, c), NONE, lambda s, a, x: [(s, 'next', some(x))]))


@model('std::iter::Iterator::max', 'std::iter::Iterator::min')
def _(I, st, c):
    mx = c.name.endswith('max')

    def body(s, a, x):
        y = I.load(s, x) if isinstance(x, tuple) and x[0] == 'ref' else x
        r = []
        for s2, pr, b in I.split_opt(s, a):
            if not pr:
                r.append((s2, 'next', some(y)))
            else:
                r.append((s2, 'next', some((tmax if mx else tmin)(b, y))))
        return r
    v = known_iter(I, st, c)
    from .interp import int_range
    ga = type_args(c.retty)
    if ga and int_range(ga[0].lstrip('&')):
        return drive_ret(I, drive(I, st, v, NONE, body))
    # Only the fact that the result is one of the items is kept.
    def plain(x):
        while isagg(x) and len(x[3]) == 1 and x[1] != 'array':
            x = x[3][0][1]
        return x if isinstance(x, int) else None

    def known(s, a, x):
        if I.unroll and isagg(a) and a[2] == 'Some':
            old = proj(a, '0')
            m, n = plain(old), plain(x)
            if m is not None and n is not None:
                return [(s, 'next', some(x if (n >= m if mx else n < m) else old))]
        if I.unroll and plain(x) is not None and a == NONE:
            return [(s, 'next', some(x))]
        return [(s, 'next', some(('extreme', int(mx), x)))]
    return drive_ret(I, drive(I, st, v, NONE, known))


@model('std::iter::Iterator::min_by_key', 'std::iter::Iterator::max_by_key')
def _(I, st, c):
    def body(s, a, x):
        r = []
        for o in I.apply(s, c.args[1], [I.alloc(s, x)]):
            if o.kind == 'panic':
                r.append((o, 'panic', None))
            else:
                r.append((o.st, 'next', some(('extreme_by', c.name[-10:], x, I.deep(o.st, o.val)))))
        return r
    return drive_ret(I, drive(I, st, known_iter(I, st, c), NONE, body))


@model('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def _(I, st, c):
    k = strip_generics(c.retty)
    v = known_iter(I, st, c)
    if k in ('std::vec::Vec', 'std::collections::VecDeque', 'std::boxed::Box') or k.endswith('SGList') or 'Vec' in k:
        if isagg(v) and v[1] == 'it:take' and isagg(fld(v, 'i')) and fld(v, 'i')[1] == 'it:repeat' and is_int_like(fld(fld(v, 'i'), 'v')):
            return R(st, ('repeat', fld(fld(v, 'i'), 'v'), fld(v, 'c')))
        src = bulk(I, st, v) if '<u8' in c.retty else None
        if src is not None:
            return R(st, src)

        def body(s, a, x):
            s.log('item', I.deep(s, x))
            return [(s, 'next', ('push', a, x))]
        return drive_ret(I, drive(I, st, v, ('agg', 'array', '', ()), body))
    if k == 'std::result::Result':
        def body(s, a, x):
            r = []
            for s2, p, y in I.split_res(s, x):
                if p:
                    s2.log('item', I.deep(s2, y))
                    r.append((s2, 'next', ('push', a, y)))
                else:
                    r.append((s2, 'stop', err(y)))
            return r
        return drive_ret(I, drive(I, st, v, ('agg', 'array', '', ()), body), lambda s, a, h: R(s, a if h == 'stop' else ok(a)))
    if k == 'std::option::Option':
        def body(s, a, x):
            r = []
            for s2, p, y in I.split_opt(s, x):
                r.append((s2, 'next', ('push', a, y)) if p else (s2, 'stop', NONE))
            return r
        return drive_ret(I, drive(I, st, v, ('agg', 'array', '', ()), body), lambda s, a, h: R(s, a if h == 'stop' else some(a)))

    def body(s, a, x):
        s.log('item', I.deep(s, x))
        return [(s, 'next', ('put', a, x))]
    return drive_ret(I, drive(I, st, v, ('empty', k), body))


@model('std::iter::Iterator::unzip')
def _(I, st, c):
    v = known_iter(I, st, c)
    E = ('agg', 'array', '', ())

    def body(s, a, x):
        return [(s, 'next', tup(('push', proj(a, '0'), proj(x, '0')), ('push', proj(a, '1'), proj(x, '1'))))]
    return drive_ret(I, drive(I, st, v, tup(E, E), body))


@model('std::iter::Extend::extend')
def _(I, st, c):
    if (c.fn.get('rk') or '') in I.P.bodies:
        return None
    ty = c.argtys[0].replace('&mut ', '')
    k = strip_generics(ty)
    if k == 'std::vec::Vec' and c.argtys[1].startswith('&'):
        rs, ps = I.deref(st, c.args[1])
        src = seq_value(I, st, rs, ps)
        v = I.load(st, c.args[0])
        st.log('write', 'extend', c.args[0], I.deep(st, src), I.length(src))
        I.store(st, c.args[0], cat(I, v, src))
        return R(st, UNIT)
    if k in ('std::vec::Vec', 'std::collections::VecDeque'):
        v = iter_of(I, st, c.args[1], c.argtys[1])
        v = c.args[1] if v is None else v
        cur = I.load(st, c.args[0])
        src = bulk(I, st, v) if '<u8' in ty else None
        if src is not None:
            st.log('write', 'extend', c.args[0], I.deep(st, src), I.length(src))
            I.store(st, c.args[0], cat(I, cur, src))
            return R(st, UNIT)
        outs = drive(I, st, v, cur, lambda s, a, x: [(s, 'next', pushed(a, x))])

        def fin(s, a, h):
            I.store(s, c.args[0], a)
            return R(s, UNIT)
        return drive_ret(I, outs, fin)
    if k.split('::')[-1] in GATHER:
        def body(s, a, x):
            s.log('item', I.deep(s, x))
            return [(s, 'next', ('put', a, x))]
        w = iter_of(I, st, c.args[1], c.argtys[1])
        outs = drive(I, st, c.args[1] if w is None else w, I.load(st, c.args[0]), body)

        def fin(s, a, h):
            I.store(s, c.args[0], a)
            return R(s, UNIT)
        return drive_ret(I, outs, fin)
    return None


GATHER = ('FuturesUnordered', 'FuturesOrdered')


@model(*['futures::stream::' + k + '::new' for k in ('FuturesUnordered', 'FuturesOrdered')])
def _(I, st, c):
    return R(st, ('empty', strip_generics(c.retty)))


@model(*['futures::stream::' + k + '::' + m for k in ('FuturesUnordered', 'FuturesOrdered') for m in ('push', 'push_back')])
def _(I, st, c):
    st.log('item', I.deep(st, c.args[1]))
    I.store(st, c.args[0], ('put', I.load(st, c.args[0]), c.args[1]))
    return R(st, UNIT)


# ---- functions

@model('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')
def _(I, st, c):
    f, a = c.args
    args = [x for _, x in a[3]] if isagg(a) else [a]
    return I.apply(st, f, args)


@model('std::thread::panicking')
def _(I, st, c):
    return R(st, 0)


for _p in ('core::panicking::', 'std::rt::begin_panic', 'std::rt::panic_fmt', 'std::panicking::', 'std::process::abort', 'std::process::exit',
           'core::slice::index::slice_', 'core::option::', 'core::result::unwrap_failed'):
    @prefix(_p)
    def _(I, st, c, _p=_p):
        if c.retty == '!' or 'panic' in c.name or 'assert_failed' in c.name:
            return PANIC(st, (c.name,) + tuple(I.deep(st, a) for a in c.args))
        return None


# formatting: what is printed is kept as an opaque list of the values
@prefix('core::fmt::rt::Argument::')
def _(I, st, c):
    return R(st, ('fmtarg', c.name.split('::')[-1], I.deep(st, c.args[0])))


@prefix('std::fmt::Arguments::')
def _(I, st, c):
    return R(st, ('fmt',) + tuple(I.deep(st, a) for a in c.args))


@model('std::fmt::format', 'std::string::ToString::to_string')
def _(I, st, c):
    b = None
    return R(st, ('string', I.deep(st, c.args[0])))


# ---- futures

@model('std::future::IntoFuture::into_future', 'futures::IntoFuture::into_future')
def _(I, st, c):
    return R(st, c.args[0])


@model('std::future::get_context', 'core::future::get_context')
def _(I, st, c):
    return R(st, ('ctx',))


def fut(kind, *fs):
    return ('agg', 'fut:' + kind, '', tuple((str(i), x) for i, x in enumerate(fs)))


@model('futures::future::ready', 'std::future::ready', 'futures::future::ok_', 'futures::future::Ready::into_inner_')
def _(I, st, c):
    return R(st, fut('ready', c.args[0]))


@model('futures::future::ok')
def _(I, st, c):
    return R(st, fut('ready', ok(c.args[0])))


@model('futures::future::err')
def _(I, st, c):
    return R(st, fut('ready', err(c.args[0])))


@model('futures::future::lazy')
def _(I, st, c):
    return R(st, fut('lazy', c.args[0]))


def futcomb(kind):
    def f(I, st, c):
        return R(st, fut(kind, *c.args))
    return f


for _n in ('map', 'then', 'inspect', 'left_future', 'right_future'):
    MODELS['futures::FutureExt::' + _n] = futcomb(_n)
for _n in ('map_ok', 'map_err', 'and_then', 'or_else', 'inspect_ok', 'inspect_err', 'unwrap_or_else', 'map_ok_or_else', 'err_into', 'ok_into'):
    MODELS['futures::TryFutureExt::' + _n] = futcomb(_n)
for _n in ('futures::FutureExt::boxed', 'futures::FutureExt::boxed_local', 'futures::FutureExt::fuse', 'tracing::Instrument::instrument',
           'tracing_futures::Instrument::instrument', 'tracing::Instrument::in_current_span', 'tracing_futures::Instrument::in_current_span',
           'futures::FutureExt::shared', 'futures::TryFutureExt::into_future', 'futures::StreamExt::boxed', 'futures::future::maybe_done_'):
    MODELS[_n] = ident


@model('futures::future::join', 'futures::future::try_join')
def _(I, st, c):
    return R(st, fut(c.name.split('::')[-1], *c.args))


@model('futures::future::try_join3', 'futures::future::join3', 'futures::future::try_join4', 'futures::future::join4')
def _(I, st, c):
    return R(st, fut(c.name.split('::')[-1][:-1], *c.args))


@model('futures::future::try_join_all', 'futures::future::join_all')
def _(I, st, c):
    v = iter_of(I, st, c.args[0], c.argtys[0])
    return R(st, fut(c.name.split('::')[-1], c.args[0] if v is None else v))


@model('futures::FutureExt::now_or_never')
def _(I, st, c):
    return chain(run_future(I, st, c.args[0]), lambda s, v: R(s, some(v)))


@model('std::future::Future::poll', 'futures::Future::poll')
def _(I, st, c):
    b = I.P.bodies.get(c.fn.get('rk') or '')
    awaited = 'Await' in (c.macro or '') or 'instrument' in (c.macro or '')
    if b is not None and not awaited:
        return None
    r, p = I.deref(st, c.args[0])
    v = I.read(st, r, p)
    if not awaited:
        # A handwritten poll: the inner future may or may not be ready.
        s1, s2 = st.copy(), st.copy()
        out = []
        key = ('polled', I.deep(st, v), st.fresh(('poll', I.deep(st, v))))
        s2.facts[key] = 0
        s1.facts[key] = 1
        s2.log('pending', I.deep(st, v))
        out.extend(R(s2, ('agg', T.POLL, 'Pending', ())))
        out.extend(chain(run_future(I, s1, v), lambda s, x: R(s, ('agg', T.POLL, 'Ready', (('0', x),)))))
        return out
    return chain(run_future(I, st, v), lambda s, x: R(s, ('agg', T.POLL, 'Ready', (('0', x),))))


def run_future(I, st, v, d=0):
    g = v
    for _ in range(6):
        if isinstance(g, tuple) and g[0] == 'ref':
            g = I.read(st, g[1], g[2])
        else:
            break
    if isagg(g) and g[1].startswith('closure:'):
        b = I.P.bodies.get(g[1][8:])
        if b is not None and b.get('coroutine') and b['key'] not in I.stack:
            ty = b['locals'][1]['ty'] if len(b['locals']) > 1 else ''
            env = g if not ty.startswith('&') and not ty.startswith('std::pin::Pin') else I.alloc(st, g)
            return chain(I.exec_body(b, [env, ('ctx',)][:b['argc']], st),
                         lambda s, x: R(s, dict(x[3])['0'] if isagg(x) and x[1:3] == (T.POLL, 'Ready') else x))
    if isagg(g) and g[1].startswith('fut:'):
        k = g[1][4:]
        f = [x for _, x in g[3]]
        if k == 'ready':
            return R(st, f[0])
        if k == 'lazy':
            return I.apply(st, f[0], [('ctx',)])
        if k in ('left_future', 'right_future'):
            return run_future(I, st, f[0], d + 1)
        if k in ('join', 'try_join'):
            return run_join(I, st, f, k == 'try_join')
        if k in ('join_all', 'try_join_all'):
            return run_join_all(I, st, f[0], k == 'try_join_all')

        def after(s, x):
            if k == 'map':
                return I.apply(s, f[1], [x])
            if k == 'then':
                return chain(I.apply(s, f[1], [x]), lambda s2, y: run_future(I, s2, y, d + 1))
            if k == 'inspect':
                return chain(I.apply(s, f[1], [I.alloc(s, x)]), lambda s2, y: R(s2, x))
            out = []
            for s2, p, y in I.split_res(s, x):
                if k == 'map_ok':
                    out.extend(chain(I.apply(s2, f[1], [y]), lambda s3, z: R(s3, ok(z))) if p else R(s2, err(y)))
                elif k == 'map_err':
                    out.extend(R(s2, ok(y)) if p else chain(I.apply(s2, f[1], [y]), lambda s3, z: R(s3, err(z))))
                elif k == 'and_then':
                    out.extend(chain(I.apply(s2, f[1], [y]), lambda s3, z: run_future(I, s3, z, d + 1)) if p else R(s2, err(y)))
                elif k == 'or_else':
                    out.extend(R(s2, ok(y)) if p else chain(I.apply(s2, f[1], [y]), lambda s3, z: run_future(I, s3, z, d + 1)))
                elif k == 'unwrap_or_else':
                    out.extend(R(s2, y) if p else I.apply(s2, f[1], [y]))
                elif k == 'map_ok_or_else':
                    out.extend(I.apply(s2, f[2], [y]) if p else I.apply(s2, f[1], [y]))
                elif k in ('inspect_ok', 'inspect_err'):
                    if p == (k == 'inspect_ok'):
                        out.extend(chain(I.apply(s2, f[1], [I.alloc(s2, y)]), lambda s3, z, y=y, p=p: R(s3, ok(y) if p else err(y))))
                    else:
                        out.extend(R(s2, ok(y) if p else err(y)))
                elif k == 'err_into':
                    out.extend(R(s2, ok(y) if p else err(('into', 'err', y))))
                elif k == 'ok_into':
                    out.extend(R(s2, ok(('into', 'ok', y)) if p else err(y)))
                else:
                    raise NotImplementedError(k)
            return out
        return chain(run_future(I, st, f[0], d + 1), after)
    if isagg(g) and '__Enum' in g[1] and len(g[3]) == 1:
        return run_future(I, st, g[3][0][1], d + 1)
    dv = I.deep(st, v)
    st.log('await', dv)
    return R(st, ('out', dv))


def run_join(I, st, fs, tr):
    cur = [(st, ())]
    done = []
    from .interp import Out
    st.log('join', len(fs))
    for f in fs:
        nxt = []
        for s, acc in cur:
            for o in run_future(I, s, f):
                if o.kind == 'panic':
                    done.append(o)
                    continue
                if tr:
                    for s2, p, y in I.split_res(o.st, o.val):
                        if p:
                            nxt.append((s2, acc + (y,)))
                        else:
                            s2.log('joinerr')
                            done.extend(R(s2, err(y)))
                else:
                    nxt.append((o.st, acc + (o.val,)))
        cur = nxt
    return done + [o for s, acc in cur for o in R(s, ok(tup(*acc)) if tr else tup(*acc))]


def run_join_all(I, st, it, tr):
    st.log('join', 'all')

    def body(s, a, x):
        r = []
        for o in run_future(I, s, x):
            if o.kind == 'panic':
                r.append((o, 'panic', None))
            elif tr:
                for s2, p, y in I.split_res(o.st, o.val):
                    r.append((s2, 'next', ('push', a, y)) if p else (s2, 'stop', err(y)))
            else:
                r.append((o.st, 'next', ('push', a, o.val)))
        return r
    outs = drive(I, st, it, ('agg', 'array', '', ()), body)
    return drive_ret(I, outs, lambda s, a, h: R(s, a if h == 'stop' else (ok(a) if tr else a)))


@model('futures::futures_channel::oneshot::channel')
def _(I, st, c):
    n = st.fresh('chan')
    return R(st, tup(('chan_tx', n), ('chan_rx', n)))


@model('futures::futures_channel::oneshot::Sender::send', 'tokio::sync::oneshot::Sender::send')
def _(I, st, c):
    a = st.copy()
    m = I.deep(st, c.args[1])
    st.log('send', c.args[0], m, 1)
    a.log('send', c.args[0], m, 0)
    return R(st, ok(UNIT)) + R(a, err(c.args[1]))


@model('std::result::Result::is_ok_and', 'std::result::Result::is_err_and')
def _(I, st, c):
    okp = 'is_ok' in c.name
    out = []
    for s, good, x in I.split_res(st, c.args[0]):
        out.extend(I.apply(s, c.args[1], [x]) if bool(good) == okp else R(s, 0))
    return out


@model('std::iter::Iterator::try_for_each', 'std::iter::Iterator::try_fold')
def _(I, st, c):
    each = c.name.endswith('each')
    ret = strip_generics(c.retty)
    if not ret.endswith(('result::Result', 'option::Option')):
        return None
    res = ret.endswith('Result')
    f = c.args[1] if each else c.args[2]

    def wrap(v):
        return ('agg', 'std::result::Result', 'Ok', (('0', v),)) if res else some(v)

    def body(s, a, x):
        out = []
        for o in I.apply(s, f, [x] if each else [a, x]):
            if o.kind == 'panic':
                out.append((o, 'panic', None))
                continue
            for s2, good, y in (I.split_res if res else I.split_opt)(o.st, o.val):
                if good:
                    out.append((s2, 'next', UNIT if each else y))
                else:
                    out.append((s2, 'stop', ('agg', 'std::result::Result', 'Err', (('0', y),)) if res else NONE))
        return out
    outs = drive(I, st, c.args[0], UNIT if each else c.args[1], body)
    return drive_ret(I, outs, lambda s, a, h: R(s, a if h == 'stop' else wrap(a)))


@model('core::slice::split_first', 'core::slice::split_first_mut')
def _(I, st, c):
    r, p = I.deref(st, c.args[0])
    n = I.seq_len_at(st, r, p)
    out = []
    for s, ne in I.decide(st, lt(0, n)):
        out.extend(R(s, some(tup(elem_ref(I, s, c.args[0], 0), ('ref', r, I.norm_path(p + (('sub', 1, n),)))))) if ne else R(s, NONE))
    return out


@model('core::slice::split_last', 'core::slice::split_last_mut')
def _(I, st, c):
    r, p = I.deref(st, c.args[0])
    n = I.seq_len_at(st, r, p)
    out = []
    for s, ne in I.decide(st, lt(0, n)):
        out.extend(R(s, some(tup(elem_ref(I, s, c.args[0], sub(n, 1)), ('ref', r, I.norm_path(p + (('sub', 0, sub(n, 1)),)))))) if ne else R(s, NONE))
    return out


@model('core::slice::swap')
def _(I, st, c):
    a, b = elem_ref(I, st, c.args[0], c.args[1]), elem_ref(I, st, c.args[0], c.args[2])
    x, y = I.load(st, a), I.load(st, b)
    I.store(st, a, y)
    I.store(st, b, x)
    return R(st, UNIT)


@model('std::vec::Vec::reserve', 'std::vec::Vec::reserve_exact', 'std::vec::Vec::shrink_to_fit', 'std::collections::VecDeque::reserve')
def _(I, st, c):
    return R(st, UNIT)


@model('std::boxed::Box::new_uninit')
def _(I, st, c):
    return R(st, ('agg', 'Box', '', (('0', I.alloc(st, ('agg', 'uninit', '', ()))),)))


@model('std::boxed::box_assume_init_into_vec_unsafe')
def _(I, st, c):
    v = c.args[0]
    if isagg(v) and v[1] == 'Box':
        v = I.load(st, proj(v, '0'))
        for f in ('value', 'value'):
            v = proj(v, f)
        return R(st, v)
    return None
