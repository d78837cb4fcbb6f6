"""A record: packed, summed and written; read, compared with its sum, repaired if need be, unpacked; kept in the cache under its own key, read once for all who want it; its space freed once."""
from engine.interp import St
from engine.mir import strip_generics
from engine.models import R, ok, err, some, NONE, UNIT, proj
from engine.terms import *
from checks.proto import op, events, strip, guard_of, show, ended, cause, source, place

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR. Buffers are kept as terms (what the disk holds at an address, a prefix, a packed form, a sum), so that what is returned, and what sum it was '
                   'compared with, can be read off each path of the asynchronous code. Operations of the pool below and of the cache are named effects. The cache\'s list of reads under way is '
                   'followed through every path, failures and abandoned reads included.',
    'assumptions': ['the compression libraries and byteshuffle invert what they did, and the hash function does not collide', 'the pool\'s locks exclude as documented'],
}
D = 'ddml::ddml::DDML::'
C = 'dml::Compression'
RECORD = ('in', 'drp')
SELF = ('in', 'self')
TXG = ('in', 'txg')
POOL = 'pool::Pool::'


def run(ctx):
    for r, w, f in (('pointer', 'ddml::DRP', pointer), ('pack', C, packing), ('put', D + 'put_common', putting), ('read', D + 'read', reading),
                    ('take', 'ddml::ddml::DDML', taking), ('get', 'cache', getting)):
        with ctx.rule(r, w):
            f(ctx)


# ---- buffers

def content(I, st, v):
    """The bytes a buffer, or a reference to one, holds."""
    for _ in range(8):
        if isinstance(v, tuple) and v and v[0] == 'ref':
            v = I.load(st, v)
        elif isagg(v) and v[1] == 'dbs':
            v = v[3][0][1]
        elif isagg(v) and v[1] == 'dbm':
            v = v[3][0][1]
        else:
            break
    return slices(I, I.deep(st, v))


def slices(I, v):
    """A slice of bytes as ('sub', bytes, start, end), or the piece it is."""
    if isinstance(v, tuple) and len(v) == 3 and v[0] == '.' and isinstance(v[2], tuple) and v[2] and v[2][0] == 'sub':
        x, a, b = slices(I, v[1]), v[2][1], v[2][2]
        if isinstance(x, tuple) and x[0] == 'concat' and len(x) == 3:
            n = length(I, x[1])
            if a == 0 and b == n:
                return x[1]
            if a == n and b == length(I, x):
                return x[2]
        if a == 0 and b == length(I, x):
            return x
        if isinstance(x, tuple) and x[0] == 'sub' and len(x) == 4:
            a, b, x = add(a, x[2]), add(b, x[2]), x[1]
        w = ('sub', x, a, b)
        I.len_of[w] = sub(b, a)
        return w
    return v


def cell(I, st, v):
    """The place where the bytes of a shared buffer are."""
    for _ in range(6):
        if isinstance(v, tuple) and v and v[0] == 'ref':
            v = I.load(st, v)
        else:
            break
    if isagg(v) and v[1] in ('dbs', 'dbm'):
        return v[3][0][1]
    return ('ref', ('P', ('buf', strip(v))), ())


def length(I, v):
    """The length of bytes."""
    if isinstance(v, tuple) and v:
        if v[0] == 'disk':
            return v[2]
        if v[0] == 'sub' and len(v) == 4:
            return sub(v[3], v[2])
    return I.length(v)


def prefix(v, n):
    return ('sub', v, 0, n)


def whole(I, st, v, n):
    """Whether n is all of v."""
    return I.known(st, eq(length(I, v), n)) == 1


def buffers(I):
    h = I.hooks
    h['divbuf::DivBufShared::uninitialized'] = lambda I, st, c: R(st, ('agg', 'dbs', '', (('0', I.alloc(st, junk(I, c.args[0]))),)))
    h['divbuf::DivBufShared::with_capacity'] = h['divbuf::DivBufShared::uninitialized']

    def junk(I, n):
        v = ('junk', n)
        I.len_of[v] = n
        return v

    def mut(I, st, c):
        return R(st, ok(('agg', 'dbm', '', (('0', cell(I, st, c.args[0])),))))
    h['divbuf::DivBufShared::try_mut'] = mut
    h['divbuf::DivBufInaccessible::try_mut'] = mut
    h['divbuf::DivBufShared::try_const'] = lambda I, st, c: R(st, ok(I.load(st, cell(I, st, c.args[0]))))
    h['divbuf::DivBufMut::freeze'] = lambda I, st, c: R(st, I.load(st, cell(I, st, c.args[0])))

    def trunc(I, st, c):
        r = cell(I, st, c.args[0])
        v = I.load(st, r)
        I.store(st, r, cut(I, st, v, 0, c.args[1]))
        return R(st, ok(UNIT) if c.name.endswith('try_truncate') else UNIT)
    h['divbuf::DivBufMut::try_truncate'] = trunc

    def cut(I, st, v, a, b):
        if a == 0 and whole(I, st, v, b):
            return v
        if isinstance(v, tuple) and v[0] == 'sub' and len(v) == 4:
            a, b, v = add(a, v[2]), add(b, v[2]), v[1]
        w = ('sub', v, a, b)
        I.len_of[w] = sub(b, a)
        return w
    I.cut = cut

    def slice_(I, st, c):
        v = content(I, st, c.args[0])
        n = c.name.split('::')[-1]
        a, b = (0, c.args[1]) if n == 'slice_to' else (c.args[1], length(I, v)) if n == 'slice_from' else (c.args[1], c.args[2])
        return R(st, cut(I, st, v, a, b))
    for n in ('slice', 'slice_to', 'slice_from'):
        h['divbuf::DivBuf::' + n] = slice_

    def length_(I, st, c):
        return R(st, length(I, content(I, st, c.args[0])))
    for t in ('DivBuf', 'DivBufMut', 'DivBufShared'):
        h[f'divbuf::{t}::len'] = length_

    def deref(I, st, c):
        t = strip_generics(c.argtys[0] if c.argtys else '')
        if 'DivBufMut' not in t:
            return None
        v = I.load(st, c.args[0])
        return R(st, v[3][0][1]) if isagg(v) and v[1] == 'dbm' else None
    for n in ('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut'):
        h[n] = deref

    def index(I, st, c):
        t = strip_generics(c.argtys[0] if c.argtys else '')
        v = I.load(st, c.args[0])
        if not (isagg(v) and v[1] == 'dbm') and not (isinstance(v, tuple) and v and v[0] in ('sub', 'disk', 'repaired', 'junk')):
            return None
        r = c.args[1]
        k = r[1].split('::')[-1] if isagg(r) else None
        base = v[3][0][1] if isagg(v) and v[1] == 'dbm' else c.args[0]
        x = I.load(st, base)
        n = length(I, x)
        if k not in ('RangeFull', 'RangeTo', 'RangeFrom', 'Range'):
            return None
        a = proj(r, 'start') if k in ('RangeFrom', 'Range') else 0
        b = proj(r, 'end') if k in ('RangeTo', 'Range') else n
        if a == 0 and whole(I, st, x, b):
            return R(st, base)
        if I.known(st, lt(n, b)) == 1:
            return None
        if isagg(v):
            return None
        return R(st, I.alloc(st, cut(I, st, x, a, b)))
    h['std::ops::Index::index'] = h['std::ops::IndexMut::index_mut'] = index

    def copy(I, st, c):
        d, s = cell(I, st, c.args[0]) if not (isinstance(c.args[0], tuple) and c.args[0][0] == 'ref') else c.args[0], content(I, st, c.args[1])
        x = I.load(st, d)
        if not (isinstance(x, tuple) and x and x[0] in ('sub', 'disk', 'junk', 'repaired')):
            return None
        if I.known(st, eq(length(I, x), length(I, s))) != 1:
            return None
        I.store(st, d, s)
        return R(st, UNIT)
    h['core::slice::copy_from_slice'] = h['core::slice::clone_from_slice'] = copy


def hashing(I):
    h = I.hooks
    h['metrohash::MetroHash64::new'] = h['metrohash::MetroHash64::default'] = lambda I, st, c: R(st, ('agg', 'hasher', '', (('0', ('nothing',)),)))

    def write(I, st, c):
        v = I.load(st, c.args[0])
        I.store(st, c.args[0], ('agg', 'hasher', '', (('0', ('then', proj(v, '0'), content(I, st, c.args[1]))),)))
        return R(st, UNIT)
    h['std::hash::Hasher::write'] = write
    h['std::hash::Hasher::finish'] = lambda I, st, c: R(st, ('sum', proj(I.load(st, c.args[0]), '0')))


def sum_of(x):
    return ('sum', ('then', ('nothing',), x))


# ---- the pointer

def fields(**kw):
    return kw


def pointer(ctx):
    P = ctx.P
    names = ('pba', 'compressed', 'lsize', 'csize', 'checksum')
    for n in ('asize', 'is_compressed', 'pba', 'as_uncompressed', 'into_compressed'):
        w = 'ddml::DRP::' + n
        b = P.fn(w)
        I = ctx.interp()
        I.ty[('.', RECORD, 'csize')] = 'u32'
        old = ('in', 'old')
        st = St()
        by_value = not b['locals'][1]['ty'].startswith('&')
        me = RECORD if by_value else ('ref', ('P', RECORD), ())
        args = [me] + ([('ref', ('P', old), ())] if b['argc'] > 1 else [])
        outs = I.run(b, args, st)
        ctx.used(I, outs)
        f = lambda o, k: ('.', o, k)
        for o in outs:
            v = strip(I.deep(o.st, o.val)) if o.kind == 'ret' else None
            if not ctx.ob('pointer', w, v is not None, 'it panics'):
                continue
            if n == 'asize':
                ctx.ob('pointer', w, v == div(add(f(RECORD, 'csize'), 4095), 4096), f'the space of a record is {pp(v)[:100]} blocks')
                continue
            if n in ('is_compressed', 'pba'):
                ctx.ob('pointer', w, v == f(RECORD, {'pba': 'pba', 'is_compressed': 'compressed'}[n]), f'it is {pp(v)[:80]}')
                continue
            want = {k: f(RECORD, k) for k in names}
            if n == 'as_uncompressed':
                want['compressed'] = 0
                want['lsize'] = f(RECORD, 'csize')
            else:
                want['compressed'] = f(old, 'compressed')
                want['lsize'] = f(old, 'lsize')
            for k in names:
                ctx.ob('pointer', w, strip(proj(v, k)) == want[k], f'{k} becomes {pp(proj(v, k))[:80]}, not {pp(want[k])}')


# ---- packing

CODECS = {'lz4_flex::block::': 'lz4', 'zstd::bulk::': 'zstd'}


def packs(I):
    h = I.hooks

    def compress(k):
        def f(I, st, c):
            v = (k, content(I, st, c.args[0]))
            I.len_of[v] = ('len', v)
            return R(st, ok(v) if k == 'zstd' else v)
        return f

    def decompress(k):
        def f(I, st, c):
            x, n = content(I, st, c.args[0]), c.args[1]
            if isinstance(x, tuple) and x and x[0] == k:
                st.log('did', 'unpack', (k, n, x))
                good = ok(x[1])
                return R(st, good)
            v = ('un' + k, x, n)
            I.len_of[v] = n
            return [o for g in (1, 0) for o in R(st.copy(), ok(v) if g else err(('why',)))]
        return f
    for p, k in CODECS.items():
        h[p + 'compress'] = compress(k)
        h[p + 'decompress'] = decompress(k)

    def shuffle(I, st, c):
        x = content(I, st, c.args[1])
        v = ('shuffled', c.args[0], x)
        I.len_of[v] = length(I, x)
        return R(st, v)

    def unshuffle(I, st, c):
        x = content(I, st, c.args[1])
        if isinstance(x, tuple) and x and x[0] == 'shuffled' and x[1] == c.args[0]:
            return R(st, x[2])
        v = ('unshuffled', c.args[0], x)
        I.len_of[v] = length(I, x)
        return R(st, v)
    h['byteshuffle::shuffle'] = shuffle
    h['byteshuffle::unshuffle'] = unshuffle
    h['std::num::NonZero::get'] = lambda I, st, c: R(st, proj(c.args[0], '0')) if isagg(c.args[0]) and c.args[0][1] == 'nz' else None

    def nz(I, st, c):
        return [o for s, t in I.decide(st, eq(c.args[0], 0)) for o in R(s, NONE if t else some(('agg', 'nz', '', (('0', c.args[0]),))))]
    h['std::num::NonZero::new'] = nz

    def write(I, st, c):
        t = I.load(st, c.args[0])
        v = ('tagged', I.deep(st, t))
        I.len_of[v] = 5
        I.store(st, c.args[1], v)
        return R(st, ok(UNIT))
    h['speedy::Writable::write_to_buffer'] = write

    def read(I, st, c):
        x = content(I, st, c.args[-1])
        if isinstance(x, tuple) and x and x[0] == 'tagged':
            return R(st, ok(x[1]))
        return [o for g in (1, 0) for o in R(st.copy(), ok(('tag of', x)) if g else err(('why',)))]
    h['speedy::Readable::read_from_buffer'] = read

    def shared(I, st, c):
        if 'DivBufShared' in (c.retty or '') or 'DivBufShared' in strip_generics(c.name):
            return R(st, ('agg', 'dbs', '', (('0', I.alloc(st, content(I, st, c.args[0]))),)))
        return None
    h['std::convert::From::from'] = h['std::convert::Into::into'] = shared


def parts(v):
    """(packed, tag) of what is to be written, or None."""
    if isinstance(v, tuple) and v and v[0] == 'with' and isinstance(v[1], tuple) and v[1][0] == 'concat' and len(v[2]) == 1:
        (k, t), = v[2]
        x, z = v[1][1], v[1][2]
        n = ('len', x)
        if isinstance(z, tuple) and z[0] == 'repeat' and isinstance(k, tuple) and k[0] == 'sub' and k[1] == n and sub(k[2], n) == z[2] == 5:
            return x, t
    if isinstance(v, tuple) and v and v[0] == 'concat' and len(v) == 3 and isinstance(v[2], tuple) and v[2][0] == 'tagged':
        return v[1], v[2]
    if isinstance(v, tuple) and v and v[0] == 'splice':
        pass
    return None


def kinds():
    ts = ('agg', 'nz', '', (('0', ('in', 'typesize')),))
    opt = lambda x: ('agg', 'std::option::Option', 'Some', (('0', x),)) if x else ('agg', 'std::option::Option', 'None', ())
    yield ('agg', C, 'None', ())
    for k in ('LZ4', 'Zstd'):
        for t in (None, ts):
            yield ('agg', C, k, (('0', opt(t)),))


def packing(ctx):
    P = ctx.P
    w = C + '::compress'
    w2 = C + '::decompress'
    X = ('in', 'input')
    n = 0
    for k in kinds():
        I = ctx.interp()
        buffers(I)
        packs(I)
        I.ty[('in', 'typesize')] = (1, 255)
        I.len_of[X] = ('in', 'size')
        I.ty[('in', 'size')] = (0, 2**32 - 2)
        outs = I.run(P.fn(w), [k, X], St())
        ctx.used(I, outs)
        packed = 0
        for o in outs:
            if not ctx.ob('pack', w, o.kind == 'ret', f'packing with {k[2]} panics: {pp(o.val)[:100]}'):
                continue
            v, how = I.deep(o.st, proj(o.val, '0')), I.deep(o.st, proj(o.val, '1'))
            v = content(I, o.st, v)
            n += 1
            if v == X:
                ctx.ob('pack', w, isagg(how) and how[2] == 'None', 'what is written as it is, is said to be packed')
                continue
            packed += 1
            ctx.ob('pack', w, how == k, f'what is packed with {k[2]} is said to be {pp(how)[:60]}')
            pt = parts(v)
            if not ctx.ob('pack', w, pt is not None, f'what is packed is not followed by its tag: {pp(v)[:120]}'):
                continue
            x, t = pt
            size = add(('len', x), 5)
            ctx.ob('pack', w, I.known(o.st, lt(div(add(size, 4095), 4096), div(add(('in', 'size'), 4095), 4096))) == 1, 'a record is packed though that does not save a block')
            # and back
            J = ctx.interp()
            buffers(J)
            packs(J)
            J.ty.update(I.ty)
            J.len_of.update(I.len_of)
            z = ('concat', x, t)
            J.len_of[t] = 5
            J.len_of[z] = size
            J.ty[('len', x)] = (0, 2**32)
            back = J.run(P.fn(w2), [J.alloc(o.st, z), ('in', 'size')], o.st.copy())
            ctx.used(J, back)
            for p in back:
                if not ctx.ob('pack', w2, p.kind == 'ret', f'unpacking {k[2]} panics: {pp(p.val)[:100]}'):
                    continue
                y = J.deep(p.st, p.val)
                if not ctx.ob('pack', w2, isagg(y) and y[2] == 'Ok', f'what was packed with {pp(k)[:60]} cannot be unpacked'):
                    continue
                got = content(J, p.st, J.load(p.st, cell(J, p.st, proj(p.val, '0'))))
                ctx.ob('pack', w2, got == X, f'what was packed with {pp(k)[:60]} is unpacked as {pp(got)[:120]}')
                for e in p.st.effects():
                    if e[0] == 'did' and e[1] == 'unpack':
                        ctx.ob('pack', w2, e[2][1] == ('in', 'size'), 'it is unpacked to another size')
        ctx.ob('pack', w, bool(packed) == (k[2] != 'None'), f'with {k[2]}, {packed} of the paths pack')
    ctx.floor('pack', 'ways to pack', n, 9)
    # the damaged: an error, not a panic
    I = ctx.interp()
    buffers(I)
    packs(I)
    Y = ('in', 'damaged')
    I.len_of[Y] = ('in', 'size')
    I.ty[('in', 'size')] = (5, 2**32)
    st = St()
    outs = I.run(P.fn(w2), [I.alloc(st, Y), ('in', 'lsize')], st)
    ctx.used(I, outs)
    errs = 0
    for o in outs:
        ctx.ob('pack', w2, o.kind == 'ret', f'unpacking what is damaged panics: {pp(o.val)[:100]}')
        if o.kind == 'ret' and isagg(o.val) and o.val[2] == 'Err':
            errs += 1
            e = I.deep(o.st, proj(o.val, '0'))
            ctx.ob('pack', w2, isagg(e) and e[2] == 'EINTEGRITY', f'what is damaged is reported as {pp(e)[:60]}')
    ctx.ob('pack', w2, errs > 0, 'what is damaged is never reported')


# ---- the pipeline

POOLF = ('.', SELF, 'pool')
CACHE = ('.', SELF, 'cache')
PBA = ('.', RECORD, 'pba')
ASIZE = div(add(('.', RECORD, 'csize'), 4095), 4096)


def did(name):
    def f(I, st, c):
        st.log('did', name, tuple(I.deep(st, a) for a in c.args))
        return R(st, UNIT)
    return f


def pool(I):
    h = I.hooks
    h[POOL + 'free'] = did('free')
    h[POOL + 'write'] = lambda I, st, c: R(st, ('op', 'write', I.deep(st, c.args[0]), content(I, st, c.args[1])) + tuple(I.deep(st, a) for a in c.args[2:]))

    def read(I, st, c):
        r = cell(I, st, c.args[1])
        n = length(I, I.load(st, r))
        v = ('disk', I.deep(st, c.args[2]), n)
        I.len_of[v] = n
        I.store(st, r, v)
        return R(st, ('op', 'read', I.deep(st, c.args[0]), I.deep(st, c.args[2]), n))
    h[POOL + 'read'] = read
    h[POOL + 'read_long'] = op('read_long')
    I.ty[('.', RECORD, 'csize')] = 'u32'


def cache(I):
    h = I.hooks

    def get(k):
        def f(I, st, c):
            key = I.deep(st, I.load(st, c.args[1]))
            me = strip(I.deep(st, c.args[0]))
            out = []
            for hit in (1, 0):
                s = st.copy()
                s.log('did', k, (me, key, hit))
                v = ('cached', key)
                out.extend(R(s, some(v) if hit else NONE))
            return out
        return f
    for n in ('get', 'get_ref', 'remove'):
        h['cache::Cache::' + n] = get('cache.' + n)
    h['cache::Cache::insert'] = did('cache.insert')
    h['cache::Cacheable::make_ref'] = lambda I, st, c: R(st, ('made of', content(I, st, c.args[0])))
    h['cache::CacheRef::serialize'] = lambda I, st, c: R(st, ('bytes', strip(content(I, st, c.args[0]))))
    h['cache::CacheRef::into_owned'] = lambda I, st, c: R(st, c.args[0])
    h['std::borrow::Borrow::borrow'] = lambda I, st, c: R(st, c.args[0])
    h['cache::Cacheable::deserialize'] = lambda I, st, c: R(st, ('record', content(I, st, c.args[0])))
    h['cache::Cacheable::eq'] = lambda I, st, c: R(st, ('same', strip(c.args[0]), strip(c.args[1])))
    for n in ('downcast::Downcast::downcast',):
        h[n] = lambda I, st, c: R(st, ok(c.args[0]))


def base(ctx):
    I = ctx.interp()
    buffers(I)
    hashing(I)
    pool(I)
    cache(I)
    return I


def drive(ctx, I, b, args, st=None):
    outs = []
    for o in I.run(b, args, st or St()):
        outs.extend(I.run_future(o.st, o.val) if o.kind == 'ret' else [o])
    ctx.used(I, outs)
    return outs


def locked(ctx, rule, w, evs, is_use):
    """What is done to the pool is done to the one locked."""
    for e in evs:
        if is_use(e):
            p = strip(e[2]) if e[0] == 'op' else strip(e[2][0])
            p = unstar(p)
            if p[0] == '.' and p[2] == '0' and strip(p[1])[:1] == ('.',) and fetched(p):
                p = fetched(p)          # read() hands back the lock it was given
            g = guard_of(p)
            ctx.ob(rule, w, g is not None and strip(g[1]) == POOLF, f'{e[1]} is done to {pp(p)[:100]}, not to the pool that is locked')


def fetched(p):
    for t in subterms(p):
        if isinstance(t, tuple) and t and t[0] == 'op' and t[1] == 'fetch':
            return t[2] if p == ('.', ('.', ('.', ('out', t), 'v:Ok'), '0'), '0') else None
    return None


def unstar(p):
    while isinstance(p, tuple) and p and p[0] in ('*', '&') and len(p) == 2:
        p = p[1]
    return p


def is_pool(e):
    return e[0] == 'op' and e[1] in ('read', 'write', 'read_long') or e[0] == 'did' and e[1] == 'free'


def putting(ctx):
    P = ctx.P
    X = ('in', 'cacheref')
    for w, b in ((D + 'put_common', P.fn(D + 'put_common')), (D + 'put_direct', P.fn(D + 'put_direct')), ('DDML::put', P.method('ddml::ddml::DDML', 'put', 'dml::DML'))):
        plain = w == 'DDML::put'
        I = base(ctx)

        def compress(I, st, c):
            x = content(I, st, c.args[1])
            out = []
            for k in ('LZ4', 'None'):
                s = st.copy()
                kind = ('agg', C, k, (('0', ('agg', 'std::option::Option', 'None', ())),) if k == 'LZ4' else ())
                v = ('packed', x, I.deep(s, c.args[0])) if k == 'LZ4' else x
                I.len_of[v] = ('len', v)
                I.ty[('len', v)] = (0, 2**32 - 2)
                out.extend(R(s, ('agg', 'tuple', '', (('0', v), ('1', kind)))))
            return out
        I.hooks[C + '::compress'] = compress
        me = ('in', 'cacheable') if plain else X
        outs = drive(ctx, I, b, [('ref', ('P', SELF), ()), me, ('in', 'compression'), TXG])
        src = ('bytes', ('made of', me)) if plain else ('bytes', X)
        n = 0
        for o in outs:
            evs = events(I, o.st)
            if o.kind != 'ret':
                # a record of 4 GB or more
                ctx.ob('put', w, any(('len', src) in set(subterms(k)) for k in o.st.facts if isinstance(k, tuple)) and not [e for e in evs if is_pool(e)], f'it panics: {pp(o.val)[:100]}')
                continue
            ws = [e for e in evs if e[0] == 'op' and e[1] == 'write']
            if not ctx.ob('put', w, len(ws) == 1 and not [e for e in evs if is_pool(e) and e[1] != 'write'], f'a record is written {len(ws)} times'):
                continue
            e = ws[0]
            v = e[3]
            packed = v == ('packed', src, ('in', 'compression'))
            ctx.ob('put', w, packed or v == src, f'what is written is {pp(v)[:100]}')
            ctx.ob('put', w, strip(e[4]) == TXG, 'it is written in another transaction')
            locked(ctx, 'put', w, evs, is_pool)
            ins = [(i, x) for i, x in enumerate(evs) if x[0] == 'did' and x[1].startswith('cache.')]
            r = I.deep(o.st, o.val)
            if isagg(r) and r[2] == 'Err':
                ctx.ob('put', w, cause(r) == e and not ins, 'what could not be written is reported or kept as if it had been')
                continue
            if not ctx.ob('put', w, isagg(r) and r[2] == 'Ok' and I.known(o.st, eq(('discr', ('out', e)), 0)) != 0 and o.st.facts.get(('discr', ('out', e))) == 'Ok', 'it succeeds though the write failed'):
                continue
            n += 1
            d = proj(r, '0')
            pba = strip(('.', ('.', ('out', e), 'v:Ok'), '0'))
            want = {'pba': pba, 'compressed': int(packed), 'lsize': ('len', src), 'csize': ('len', v), 'checksum': sum_of(v)}
            for k, x in want.items():
                g = strip(proj(d, k))
                ctx.ob('put', w, g == strip(x), f'the {k} of its pointer is {pp(g)[:100]}, not {pp(x)[:100]}')
            if plain:
                i = evs.index(e)
                ctx.ob('put', w, len(ins) == 1 and ins[0][0] > i and ins[0][1][1] == 'cache.insert' and keyed(ins[0][1][2][1], 'PBA', pba) and strip(ins[0][1][2][2]) == me, 'what was written is not kept in the cache under the address it was written to')
            else:
                ctx.ob('put', w, not ins, 'it enters the cache')
        ctx.floor('put', f'{w}: ways to write', n, 2)


def keyed(k, kind, x):
    k = strip(k)
    return isagg(k) and k[2] == kind and strip(proj(k, '0')) == strip(x)


def origins(st, v):
    """All that a term is made of, through loops to what they start from."""
    ls = {e[1].lid: e[1] for e in st.effects() if e[0] == 'loop'}
    seen, todo = set(), [v]
    while todo:
        for t in subterms(todo.pop()):
            if t in seen:
                continue
            seen.add(t)
            if isinstance(t, tuple) and t and t[0] == 'lv' and t[1] in ls:
                L = ls[t[1]]
                todo.extend(strip(L.entry[k]) for k, x in L.carried.items() if strip(x) == strip(t) and k in L.entry)
    return seen


def reading(ctx):
    P = ctx.P
    w = D + 'read'
    I = base(ctx)
    PG = ('in', 'pg')

    def decompress(I, st, c):
        x = content(I, st, c.args[0])
        v = ('unpacked', x, c.args[1])
        I.len_of[v] = c.args[1]
        s = st.copy()
        return R(s, ok(('agg', 'dbs', '', (('0', I.alloc(s, v)),)))) + R(st, err(('agg', 'Error', 'EINTEGRITY', ())))
    I.hooks[C + '::decompress'] = decompress
    n = 4096
    block = mul(ASIZE, n)

    def shared(I, st, v):
        r = cell(I, st, v)
        k = r[1][1] if r[1][0] == 'P' else None
        v = I.load(st, r)
        if k and isinstance(k, tuple) and k[0] == 'buf':
            x = ('repaired', k[1])
            if v != x and not (isinstance(v, tuple) and v and v[0] in ('sub', 'repaired')):
                I.len_of[x] = block
                I.store(st, r, x)
        return r
    I.hooks['divbuf::DivBufShared::try_const'] = lambda I, st, c: R(st, ok(I.load(st, shared(I, st, c.args[0]))))
    I.hooks['divbuf::DivBufShared::try_mut'] = lambda I, st, c: R(st, ok(('agg', 'dbm', '', (('0', shared(I, st, c.args[0])),))))
    outs = drive(ctx, I, P.fn(w), [PG, RECORD])
    SUM = ('.', RECORD, 'checksum')
    CS = ('.', RECORD, 'csize')
    LS = ('.', RECORD, 'lsize')
    seen = set()
    for o in outs:
        evs = events(I, o.st)
        if not ctx.ob('read', w, o.kind == 'ret', f'reading panics: {pp(o.val)[:120]}'):
            continue
        rd = [e for e in evs if e[0] == 'op' and e[1] == 'read']
        rl = [e for e in evs if e[0] == 'op' and e[1] == 'read_long']
        for e in rd:
            ctx.ob('read', w, strip(e[3]) == PBA and e[4] == block, f'it reads {pp(e[4])[:80]} bytes at {pp(e[3])[:60]}, expected the {pp(block)} of the record')
        for e in rl:
            ctx.ob('read', w, strip(e[3]) == ASIZE and strip(e[4]) == PBA, f'it rebuilds {pp(e[3])[:80]} blocks at {pp(e[4])[:60]}, expected those of the record')
        ctx.ob('read', w, len(rd) == 1 and len(rl) <= 1, f'it reads {len(rd)} times')
        if not rd:
            continue
        disk = ('disk', PBA, block)
        r = I.deep(o.st, o.val)
        if isagg(r) and r[2] == 'Ok':
            v = proj(o.val, '0')
            g, b = I.deep(o.st, proj(v, '0')), content(I, o.st, I.load(o.st, shared(I, o.st, proj(v, '1'))))
            ctx.ob('read', w, strip(g) == PG, 'the pool\'s lock is not handed back')
            raw, packed = (b[1], True) if isinstance(b, tuple) and b[0] == 'unpacked' else (b, False)
            base_ = raw[1] if isinstance(raw, tuple) and raw[0] == 'sub' else raw
            first = raw == prefix(base_, CS)
            src = 'disk' if strip(base_) == disk else 'repaired' if isinstance(base_, tuple) and base_[0] == 'repaired' else None
            if not ctx.ob('read', w, first and src is not None, f'what is returned is {pp(b)[:160]}, not the first csize bytes of what was read'):
                continue
            how = 'as it is' if not packed else 'unpacked'
            k = I.known(o.st, eq(SUM, sum_of(raw)))
            ctx.ob('read', w, k == 1, f'what was {"rebuilt" if src == "repaired" else "read"} is returned {how} without its sum having been compared')
            c = I.known(o.st, ('.', RECORD, 'compressed'))
            ctx.ob('read', w, c == int(packed), f'a record that was {"" if c else "not "}packed is returned {how}')
            if packed:
                ctx.ob('read', w, strip(b[2]) == LS, f'it is unpacked to {pp(b[2])[:60]} bytes, not to lsize')
            if src == 'repaired':
                ctx.ob('read', w, bool(rl) and ('out', strip(rl[0])) in origins(o.st, strip(base_)), 'what is returned was not rebuilt from the record\'s blocks')
            seen.add((src, how))
            continue
        e = proj(r, '0') if isagg(r) and r[2] == 'Err' else None
        if not ctx.ob('read', w, e is not None, f'its result is {pp(r)[:100]}'):
            continue
        if cause(r) in rd + rl:
            seen.add('io')
        else:
            ctx.ob('read', w, isagg(e) and e[2] == 'EINTEGRITY', f'a damaged record is reported as {pp(e)[:60]}')
            k = I.known(o.st, eq(SUM, sum_of(prefix(disk, CS))))
            if k == 0:
                ctx.ob('read', w, len(rl) == 1, 'a damaged record is given up without rebuilding it')
                seen.add('lost')
            else:
                ctx.ob('read', w, k == 1 and I.known(o.st, ('.', RECORD, 'compressed')) == 1, 'a record is given up though its sum is right')
    want = {(s, h) for s in ('disk', 'repaired') for h in ('as it is', 'unpacked')} | {'io', 'lost'}
    for x in sorted(want - seen, key=str):
        ctx.ob('read', w, False, f'{"records can never be returned " + x[1] + " from what was " + ("rebuilt" if x[0] == "repaired" else "read") if isinstance(x, tuple) else "errors are not reported" if x == "io" else "no damage is ever reported"}')



def taking(ctx):
    P = ctx.P
    n = 0
    for w, b, cached, frees, reads in (
            (D + 'get_direct', P.fn(D + 'get_direct'), False, False, True),
            (D + 'pop_direct', P.fn(D + 'pop_direct'), False, True, True),
            (D + 'delete_direct', P.fn(D + 'delete_direct'), False, True, False),
            ('DDML::pop', P.method('ddml::ddml::DDML', 'pop', 'dml::DML'), True, True, True),
            ('DDML::delete', P.method('ddml::ddml::DDML', 'delete', 'dml::DML'), True, True, False),
            ('DDML::evict', P.method('ddml::ddml::DDML', 'evict', 'dml::DML'), True, False, False)):
        I = base(ctx)
        I.hooks[D + 'read'] = op('fetch')
        args = [('ref', ('P', SELF), ()), ('ref', ('P', RECORD), ()), TXG][:b['argc']]
        st = St()
        if w == 'DDML::evict':
            outs = I.run(b, args, st)
            ctx.used(I, outs)
        else:
            outs = drive(ctx, I, b, args, st)
        seen = set()
        for o in outs:
            evs = events(I, o.st)
            if not ctx.ob('take', w, o.kind == 'ret', f'it panics: {pp(o.val)[:120]}'):
                continue
            n += 1
            fe = [(i, e) for i, e in enumerate(evs) if e[0] == 'op' and e[1] == 'fetch']
            fr = [(i, e) for i, e in enumerate(evs) if e[0] == 'did' and e[1] == 'free']
            ca = [(i, e) for i, e in enumerate(evs) if e[0] == 'did' and e[1].startswith('cache.')]
            locked(ctx, 'take', w, evs, lambda e: is_pool(e) or e[0] == 'op' and e[1] == 'fetch')
            ctx.ob('take', w, not [e for e in evs if e[0] == 'op' and e[1] != 'fetch'], f'it does {show([e for e in evs if e[0] == "op"])}')
            r = I.deep(o.st, o.val)
            bad = isagg(r) and r[2] == 'Err'
            hit = None
            if cached:
                ok_ = len(ca) == 1 and ca[0][1][1] == 'cache.remove' and keyed(ca[0][1][2][1], 'PBA', PBA)
                if not ctx.ob('take', w, ok_, f'what it does to the cache is {[e[1] for _, e in ca]}, expected one removal of the record under its address'):
                    continue
                hit = ca[0][1][2][2]
            else:
                ctx.ob('take', w, not ca, f'it touches the cache: {[e[1] for _, e in ca]}')
            seen.add((bad, hit))
            for i, e in fe:
                ctx.ob('take', w, strip(e[3]) == RECORD, f'it reads {pp(e[3])[:80]}')
            ctx.ob('take', w, len(fe) == int(reads and not hit), f'it reads the record {len(fe)} times')
            for i, e in fr:
                ctx.ob('take', w, strip(e[2][1]) == PBA and strip(e[2][2]) == ASIZE, f'it frees {pp(e[2][2])[:80]} blocks at {pp(e[2][1])[:80]}, not those of the record')
            if fe and bad:
                ctx.ob('take', w, cause(r) == fe[0][1] and not fr, 'what cannot be read is freed' if fr else f'its error is {pp(r)[:80]}')
                continue
            if not ctx.ob('take', w, not bad, 'it fails for no reason'):
                continue
            ctx.ob('take', w, not fe or o.st.facts.get(('discr', ('out', fe[0][1]))) == 'Ok', 'it succeeds though the record could not be read')
            ctx.ob('take', w, len(fr) == int(frees), f'it frees the record {len(fr)} times')
            ctx.ob('take', w, all(i < j for i, _ in fe for j, _ in fr), 'the space is freed before the record is read')
            if cached and fr:
                ctx.ob('take', w, ca[0][0] < fr[0][0], 'the space is freed while the cache still has the record under its address')
            if reads:
                v = strip(proj(r, '0'))
                want = ('cached', ca[0][1][2][1]) if hit else ('record', strip(('.', ('.', ('.', ('out', fe[0][1]), 'v:Ok'), '0'), '1')))
                ctx.ob('take', w, v == strip(want), f'it returns {pp(v)[:120]}, not the record')
        want = {(b_, h) for b_ in ((False, True) if reads else (False,)) for h in ((1, 0) if cached else (None,)) if not (b_ and h)}
        ctx.ob('take', w, want <= seen, f'of what may happen, it only knows {sorted(seen, key=str)}')
    ctx.floor('take', 'paths', n, 12)


# ---- one reader for all

def awaited(evs):
    for i, e in enumerate(evs):
        if e[0] == 'await':
            for t in subterms(e[1]):
                if isinstance(t, tuple) and t and t[0] == 'chan_rx':
                    yield i, t[1]


def queued(o, key):
    """The numbers of the channels whose senders are in the list of those who wait for the key."""
    for v in o.st.mem.values():
        for t in subterms(v):
            if isinstance(t, tuple) and len(t) == 3 and t[0] == 'with':
                for k, x in t[2]:
                    if isinstance(k, tuple) and k[0] == '[]' and strip(k[1]) == key:
                        for y in subterms(x):
                            if isinstance(y, tuple) and y and y[0] == 'chan_tx':
                                yield y[1]


def is_pending(e, key):
    return 'pending_insertions' in pp(strip(e[1])) and strip(e[2]) == key


def getting(ctx):
    P = ctx.P
    n = 0
    for w, ty in (('DDML::get', 'ddml::ddml::DDML'), ('IDML::get', 'idml::idml::IDML')):
        direct = ty.startswith('ddml')
        I = base(ctx)
        I.hooks[D + 'get_direct'] = op('get_direct')
        I.hooks['tree::tree::Tree::get'] = op('tree.get')
        b = P.method(ty, 'get', 'dml::DML')
        key = ('agg', 'cache::Key', 'PBA' if direct else 'Rid', (('0', PBA if direct else RECORD),))
        args = [('ref', ('P', SELF), ()), ('ref', ('P', RECORD), ())]
        seen = set()

        def reads(evs):
            return [(i, e) for i, e in enumerate(evs) if e[0] == 'op']

        for first in I.run(b, args, St()):
            if not ctx.ob('get', w, first.kind == 'ret', f'it panics: {pp(first.val)[:100]}'):
                continue
            # given up before it is ready
            evs = events(I, first.st)
            marked = [e for e in evs if e[0] == 'mapinsert' and is_pending(e, key)]
            if marked:
                for d in I.drop_value(first.st.copy(), first.val, ''):
                    gone = [e for e in events(I, d.st)[len(evs):] if e[0] == 'mapremove' and is_pending(e, key)]
                    ctx.ob('get', w, d.kind == 'ret' and gone, 'when the read is given up before it is done, the record stays marked as being read, and everybody else waits for ever')
                seen.add('given up')
            outs = I.run_future(first.st, first.val)
            ctx.used(I, outs)
            for o in outs:
                evs = events(I, o.st)
                if not ctx.ob('get', w, o.kind == 'ret', f'it panics: {pp(o.val)[:100]}'):
                    continue
                if isagg(o.val) and o.val[1].endswith('Poll') and o.val[2] == 'Pending':
                    continue
                n += 1
                r = I.deep(o.st, o.val)
                gets = [(i, e) for i, e in enumerate(evs) if e[0] == 'did' and e[1] in ('cache.get', 'cache.get_ref')]
                ins = [(i, e) for i, e in enumerate(evs) if e[0] == 'did' and e[1] == 'cache.insert']
                marks = [(i, e) for i, e in enumerate(evs) if e[0] == 'mapinsert' and is_pending(e, key)]
                clears = [(i, e) for i, e in enumerate(evs) if e[0] == 'mapremove' and is_pending(e, key)]
                ctx.ob('get', w, not [e for e in evs if e[0] == 'did' and e[1] == 'cache.remove'], 'it takes the record out of the cache')
                ctx.ob('get', w, all(strip(e[2][1]) == key for _, e in gets), f'it looks in the cache for {[pp(e[2][1])[:60] for _, e in gets]}')
                rd = reads(evs)
                hit = [i for i, e in gets if e[2][2] == 1]
                good = isagg(r) and r[2] == 'Ok'
                if not ctx.ob('get', w, isagg(r) and r[2] in ('Ok', 'Err'), f'its result is {pp(r)[:100]}') or not ctx.ob('get', w, gets and (not rd or gets[0][0] < rd[0][0]), 'it does not look in the cache first'):
                    continue
                waits = list(awaited(evs))
                if waits:
                    i, c = waits[0]
                    ctx.ob('get', w, len(waits) == 1 and all(j > i for j, _ in rd), 'it reads the record though someone else is reading it')
                    ctx.ob('get', w, c in set(queued(o, strip(key))), 'it waits without its sender being in the list of those who wait for this record')
                    ctx.ob('get', w, len(gets) == 2 and gets[0][0] < i < gets[1][0], 'it does not look in the cache once the other read is done')
                    ctx.ob('get', w, not marks and not clears, 'one who waits changes whether the record is being read')
                if hit:
                    ctx.ob('get', w, not rd and not ins and not marks, 'what is in the cache is read, or inserted, again')
                    ctx.ob('get', w, good and strip(proj(r, '0')) == strip(('cached', key)), f'what is in the cache is returned as {pp(r)[:100]}')
                    seen.add(('hit', bool(waits)))
                    continue
                # it reads
                want = [('get_direct', RECORD)] if direct else [('tree.get', RECORD), ('get_direct', None)]
                for (i, e), (k, x) in zip(rd, want):
                    ctx.ob('get', w, e[1] == k and (x is None or strip(e[3]) == x), f'it reads with {show([e])[:100]}')
                fine = o.st.facts.get(('discr', ('out', rd[-1][1]))) == 'Ok' if rd else False
                absent = False
                if not direct:
                    entry = ('.', ('.', ('out', rd[0][1]), 'v:Ok'), '0') if rd else None
                    ctx.ob('get', w, 1 <= len(rd) <= 2 and strip(rd[0][1][2]) == ('.', SELF, 'ridt'), f'it reads {len(rd)} times')
                    if len(rd) == 1:
                        absent = fine
                    elif len(rd) == 2:
                        ctx.ob('get', w, strip(rd[1][1][3]) == strip(('.', ('.', ('.', entry, 'v:Some'), '0'), 'drp')), f'it reads the record at {pp(rd[1][1][3])[:100]}, not where the table says it is')
                else:
                    ctx.ob('get', w, len(rd) == 1, f'it reads {len(rd)} times')
                if not waits:
                    ctx.ob('get', w, len(marks) == 1 and (not rd or marks[0][0] < rd[0][0]), 'it reads the record without having said so')
                    ctx.ob('get', w, clears and all(i > rd[-1][0] for i, _ in clears), f'when the record {"has been" if good else "cannot be"} read, it stays marked as being read, and everybody else waits for ever')
                if not good:
                    e = proj(r, '0')
                    ctx.ob('get', w, not ins, 'something that could not be read enters the cache')
                    ctx.ob('get', w, cause(r) in [x for _, x in rd] if not absent else isagg(e) and e[2] == 'ENOENT', f'its error is {pp(e)[:80]}')
                    seen.add(('absent' if absent else 'err', bool(waits)))
                    continue
                if not ctx.ob('get', w, fine and not absent, 'it succeeds though the record could not be read'):
                    continue
                val = strip(('.', ('.', ('out', rd[-1][1]), 'v:Ok'), '0'))
                ctx.ob('get', w, strip(proj(r, '0')) == strip(('made of', val)), f'it returns {pp(proj(r, "0"))[:100]}, not what was read')
                ctx.ob('get', w, len(ins) == 1 and strip(ins[0][1][2][1]) == key and strip(ins[0][1][2][2]) == val, 'what was read is not kept in the cache under its own key')
                ctx.ob('get', w, not clears or ins and ins[0][0] < clears[0][0], 'those who wait are woken before the record is in the cache')
                seen.add(('read', bool(waits)))
        want = {('hit', False), ('hit', True), ('read', False), ('read', True), ('err', False), ('err', True)} | (set() if direct else {('absent', False), ('absent', True)})
        ctx.ob('get', w, want <= seen, f'it never gets to {sorted(want - seen)}')
    ctx.floor('get', 'paths', n, 12)
