"""What a type writes to the disk or the wire and what it reads back, as sequences of tokens (type, value)."""
import re
from engine.interp import St
from engine.mir import Missing, strip_generics
from engine.models import R, NONE, UNIT, ok, some, seq_value
from engine.terms import *

PRIM = {t: n for n, ts in {1: ('u8', 'i8'), 2: ('u16', 'i16'), 4: ('u32', 'i32', 'f32'), 8: ('u64', 'i64', 'f64')}.items() for t in ts}
PRIM['bool'] = 1
WR, RD = 'speedy::Writer::', 'speedy::Reader::'


def plain(t):
    """A type without the wrappers that do not change its encoding."""
    t = t.strip()
    for _ in range(6):
        m = re.fullmatch(r"&(?:'\w+ )?(?:mut )?(.*)", t) or re.fullmatch(r'std::boxed::Box<([^,]*)>', t)
        if not m:
            break
        t = m.group(1)
    return t


def elem(t):
    """The element type if the encoding is a 32-bit length and the elements."""
    t = plain(t)
    m = re.fullmatch(r'\[([^;]*)\]', t) or re.fullmatch(r'std::vec::Vec<(.*)>', t)
    if m:
        return m.group(1)
    m = re.fullmatch(r'std::collections::BTreeMap<(.*)>', t)
    if m:
        return f'({m.group(1)})'
    return 'u8' if t in ('str', 'std::string::String') else None


class Codec:
    def __init__(self, ctx, mk=None):
        self.ctx = ctx
        self.R, self.W = {}, {}
        for b in ctx.P.fns(lambda b: 'speedy::' in (b.get('trait') or '') and b.get('name') in ('read_from', 'write_to')):
            (self.R if b['name'] == 'read_from' else self.W)[b['self']] = b
        self.mk = mk

    def interp(self):
        I = self.ctx.interp()
        h = I.hooks
        self.over = []
        WRITER, READER = ('s', 'writer'), ('s', 'reader')

        def seq(st, v):
            while isinstance(v, tuple) and v[0] == 'ref':
                r, p = I.deref(st, v)
                if r[0] in ('sub', 'C') or isinstance(I.read(st, r, p), tuple) and I.read(st, r, p)[0] != 'ref':
                    return seq_value(I, st, r, p)
                v = I.read(st, r, p)
            return v

        def put(st, ty, v):
            ty = plain(ty)
            e = elem(ty)
            if e is not None:
                s = seq(st, v)
                st.log('W', 'u32', I.length(s))
                st.log('W', ('elems', e), s)
            else:
                for _ in range(4):
                    if isinstance(v, tuple) and v[0] == 'ref':
                        v = I.load(st, v)
                st.log('W', ty, I.deep(st, v))
            return R(st, ok(UNIT))

        def writer(I, st, c):
            n = c.name.split('::')[-1].rstrip('_')
            if n == 'write_value':
                return put(st, c.gen[-1] if c.gen else c.argtys[1], c.args[1])
            if n == 'write_slice' or n == 'write_bytes':
                e = elem(c.argtys[1])
                st.log('W', ('elems', e), seq(st, c.args[1]))
                return R(st, ok(UNIT))
            if n[6:] in PRIM:
                st.log('W', n[6:], c.args[1])
                return R(st, ok(UNIT))
            return None
        for n in ['value', 'slice', 'bytes', *PRIM]:
            h[WR + 'write_' + n] = writer

        def write_to(I, st, c):
            return put(st, plain(c.argtys[0]), c.args[0])
        h['speedy::Writable::write_to'] = write_to

        def wlen(I, st, c):
            st.log('W', 'u32', c.args[0])
            return R(st, ok(UNIT))
        h['speedy::private::write_length_u32'] = wlen

        def coll(I, st, c):
            v = c.args[1]
            if not (isinstance(v, tuple) and v[0] == 'iterof'):
                return None
            st.log('W', ('elems', elem(v[1])), v[2])
            return R(st, ok(UNIT))
        h[WR + 'write_collection'] = coll
        h['std::collections::BTreeMap::iter'] = lambda I, st, c: R(st, ('iterof', plain(c.argtys[0]), seq(st, c.args[0])))
        h['std::collections::BTreeMap::len'] = lambda I, st, c: R(st, I.length(seq(st, c.args[0])))

        def number(I, st, c):
            v = I.load(st, c.args[0])
            if isagg(v) and I.P.adts.get(v[1], {}).get('kind') == 'enum':
                return R(st, some(I.discr_int(v[1], v[2])))
            return None

        def variant(I, st, c):
            a = I.P.adts.get(c.gen[0] if c.gen else '')
            if a is None or not isinstance(c.args[0], int):
                return None
            vs = [v for v in a['variants'] if int(v['d']) == c.args[0]]
            return R(st, some(('agg', a['path'], vs[0]['n'], ())) if vs else NONE)
        for t in [*PRIM, 'usize', 'isize']:
            h['num_traits::ToPrimitive::to_' + t] = number
            h['num_traits::FromPrimitive::from_' + t] = variant

        def take(st, ty, n=None):
            i = st.cnt.get("at", 0)
            if i >= len(self.tokens):
                st.log('more', ty)
                return PANICS
            t, v = self.tokens[i]
            if t == ('elems', ty) and n is None and isinstance(I.length(v), int):
                # an array read element by element
                k = st.cnt.get('in', 0)
                st.cnt['in'] = k + 1
                if k + 1 == I.length(v):
                    st.cnt['at'], st.cnt['in'] = i + 1, 0
                return proj(v, ('[]', k))
            st.cnt['at'] = i + 1
            if t != ty:
                st.log('bad', f'item {i} is written as {show(t)} and read as {show(ty)}')
            elif n is not None and n != I.length(v):
                st.log('bad', f'item {i}: {pp(I.length(v))[:60]} elements are written and {pp(n)[:60]} read')
            return v
        PANICS = ('s', 'nothing')

        def get(st, ty):
            ty = plain(ty)
            e = elem(ty)
            if e is not None:
                n = take(st, 'u32')
                v = take(st, ('elems', e), n)
            else:
                v = take(st, ty)
            return v

        def reader(I, st, c):
            n = c.name.split('::')[-1].rstrip('_')
            if n == 'read_value':
                return R(st, ok(get(st, c.gen[-1])))
            if n == 'read_vec':
                return R(st, ok(take(st, ('elems', c.gen[-1]), c.args[1])))
            if n[5:] in PRIM:
                return R(st, ok(take(st, n[5:])))
            return None
        for n in ['value', 'vec', *PRIM]:
            h[RD + 'read_' + n] = reader
        h['speedy::Readable::read_from'] = lambda I, st, c: R(st, ok(get(st, c.gen[0])))
        h['speedy::private::read_length_u32'] = lambda I, st, c: R(st, ok(take(st, 'u32')))

        def same(I, st, c):
            v = seq(st, c.args[0])
            return R(st, ok(v) if 'Result<' in c.retty or c.name.endswith('vec_to_string') else I.alloc(st, v) if c.retty.startswith('&') else v)
        for n in ('std::ffi::OsStr::as_encoded_bytes', 'std::os::unix::ffi::OsStrExt::as_bytes', 'std::os::unix::ffi::OsStringExt::from_vec',
                  'std::os::unix::ffi::OsStringExt::into_vec', 'std::os::unix::ffi::OsStrExt::from_bytes', 'std::ffi::OsString::from_encoded_bytes_unchecked',
                  'std::ffi::OsString::as_os_str', 'std::ffi::OsString::into_encoded_bytes', 'std::ffi::OsStr::to_os_string', 'std::path::Path::as_os_str',
                  'std::path::PathBuf::as_os_str', 'std::path::PathBuf::into_os_string', 'std::path::PathBuf::as_path', 'std::ffi::OsStr::from_encoded_bytes_unchecked',
                  'speedy::private::vec_to_string', 'divbuf::DivBufShared::try_const', 'std::path::Path::to_path_buf', 'std::string::String::from_utf8'):
            h[n] = same

        def conv(I, st, c):
            if c.retty in ('divbuf::DivBufShared', 'std::path::PathBuf', 'std::ffi::OsString', 'std::vec::Vec<u8>'):
                return R(st, seq(st, c.args[0]))
            return None
        h['std::convert::From::from'] = h['std::convert::Into::into'] = conv
        for n in ('std::ffi::OsStr::len', 'divbuf::DivBufShared::len', 'divbuf::DivBuf::len'):
            h[n] = lambda I, st, c: R(st, I.length(seq(st, c.args[0])))

        def invalid(I, st, c):
            return R(st, ('s', 'invalid'))
        h['speedy::private::error_invalid_enum_variant'] = invalid
        h['speedy::error::error_invalid_enum_variant'] = invalid
        h['speedy::Error::custom'] = invalid
        return I

    def write(self, I, ty, v, st):
        """[(out, tokens)] of writing v."""
        ref = I.alloc(st, v)
        self.tokens = []
        st.cnt['at'] = 0
        outs = I.run(self.W[ty], [ref, I.alloc(st, ('s', 'writer'))], st)
        return [(o, [(e[1], e[2]) for e in o.st.effects() if e[0] == 'W']) for o in outs]

    def read(self, I, ty, tokens, st):
        self.tokens = tokens
        st.cnt['at'] = 0
        return I.run(self.R[ty], [I.alloc(st, ('s', 'reader'))], st)


def show(t):
    return t if isinstance(t, str) else f'elements of {t[1]}'
