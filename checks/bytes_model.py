"""Buffers as byte strings: DivBuf and friends, byte orders and hashers over symbolic sequences, and a normal form for what they hold."""
from engine.models import R, seq_value, ok, UNIT, some, NONE
from engine.terms import *


class Unclear(Exception):
    pass


def arr(xs):
    return ('agg', 'array', '', tuple((('[]', i), x) for i, x in enumerate(xs)))


def bytes_of(I, st, v):
    """The byte string a buffer value or a reference to one stands for."""
    for _ in range(6):
        if isinstance(v, tuple) and v[0] == 'ref':
            v = seq_value(I, st, *I.deref(st, v))
        elif isagg(v) and v[1] != 'array' and len(v[3]) == 1:
            v = v[3][0][1]
        else:
            break
    return v


def install(I):
    h = I.hooks
    D = 'divbuf::'

    def val(I, st, x):
        return bytes_of(I, st, x)

    def slc(I, st, c):
        v = val(I, st, c.args[0])
        n = I.length(v)
        nm = c.name.split('::')[-1]
        a = 0 if nm == 'slice_to' else c.args[1]
        z = c.args[2] if nm == 'slice' else c.args[1] if nm == 'slice_to' else n
        return R(st, part(I, v, a, z))

    def split(I, st, c):
        v = val(I, st, c.args[0])
        n, k = I.length(v), c.args[1]
        a, b = part(I, v, 0, k), part(I, v, k, n)
        to = c.name.endswith('split_to')
        I.store(st, c.args[0], b if to else a)
        return R(st, a if to else b)

    def resize(I, st, c):
        v = val(I, st, c.args[0])
        n, k = I.length(v), c.args[1]
        x = c.args[2] if len(c.args) > 2 else 0
        out = []
        for s, longer in I.decide(st, lt(n, k)):
            I.store(s, c.args[0], ('concat', v, ('repeat', x, sub(k, n))) if longer else part(I, v, 0, k))
            out += R(s, ok(UNIT))
        return out

    def extend(I, st, c):
        v, w = val(I, st, c.args[0]), val(I, st, c.args[1])
        I.store(st, c.args[0], ('concat', v, w))
        return R(st, ok(UNIT) if 'Result' in c.retty else UNIT)

    def ext(I, st, c):
        return extend(I, st, c) if 'DivBufMut' in c.argtys[0] and c.argtys[1].startswith('&') else None
    h['std::iter::Extend::extend'] = ext

    def trunc(I, st, c):
        v = val(I, st, c.args[0])
        out = []
        for s, longer in I.decide(st, lt(c.args[1], I.length(v))):
            if longer:
                I.store(s, c.args[0], part(I, v, 0, c.args[1]))
            out += R(s, ok(UNIT) if 'Result' in c.retty else UNIT)
        return out
    for t in ('DivBuf', 'DivBufMut', 'DivBufInaccessible'):
        for nm in ('slice', 'slice_from', 'slice_to'):
            h[f'{D}{t}::{nm}'] = slc
        for nm in ('split_to', 'split_off'):
            h[f'{D}{t}::{nm}'] = split
        h[f'{D}{t}::len'] = lambda I, st, c: R(st, I.length(val(I, st, c.args[0])))
        h[f'{D}{t}::is_empty'] = lambda I, st, c: R(st, eq(I.length(val(I, st, c.args[0])), 0))
        h[f'{D}{t}::try_resize'] = resize
        h[f'{D}{t}::try_extend'] = h[f'{D}{t}::extend'] = extend
        h[f'{D}{t}::try_truncate'] = h[f'{D}{t}::truncate'] = trunc
        for nm in ('freeze', 'try_mut', 'clone_inaccessible', 'try_const'):
            h[f'{D}{t}::{nm}'] = lambda I, st, c: R(st, ok(val(I, st, c.args[0])) if 'Result' in c.retty else val(I, st, c.args[0]))
    S = D + 'DivBufShared::'
    h[S + 'try_const'] = lambda I, st, c: R(st, ok(val(I, st, c.args[0])))
    # a mutable view of a shared buffer is that buffer, as long as the caller keeps to one view at a time
    h[S + 'try_mut'] = lambda I, st, c: R(st, ok(val(I, st, c.args[0])))
    h[S + 'len'] = lambda I, st, c: R(st, I.length(val(I, st, c.args[0])))
    h[S + 'with_capacity'] = lambda I, st, c: R(st, EMPTY)

    def from_(I, st, c):
        if 'DivBufShared' in c.retty:
            return R(st, val(I, st, c.args[0]))
        return None
    h['std::convert::From::from'] = from_
    h['std::convert::Into::into'] = from_

    # byte orders
    for n, k in (('u16', 2), ('u32', 4), ('u64', 8)):
        def rd(I, st, c, n=n, k=k):
            v = val(I, st, c.args[0])
            x = (order(c) + n, piece(I, st, v, 0, k))
            I.ty[x] = n
            return R(st, x)

        def wr(I, st, c, n=n, k=k):
            r, p = I.deref(st, c.args[0])
            x = ('enc', order(c) + n, c.args[1])
            I.len_of[x] = k
            if p and isinstance(p[-1], tuple) and p[-1][0] == 'sub':
                a = p[-1][1]
                I.write(st, r, p[:-1], ('splice', I.read(st, r, p[:-1]), a, add(a, k), x))
            else:
                I.write(st, r, p, ('splice', I.read(st, r, p), 0, k, x))
            return R(st, UNIT)
        h['byteorder::ByteOrder::read_' + n] = rd
        h['byteorder::ByteOrder::write_' + n] = wr

        def to(I, st, c, n=n, k=k, e='be'):
            x = ('enc', c.name.split('::')[-1][3:5] + n, c.args[0])
            I.len_of[x] = k
            return R(st, x)

        def fr(I, st, c, n=n, k=k):
            x = (c.name.split('::')[-1][5:7] + n, piece(I, st, val(I, st, c.args[0]), 0, k))
            I.ty[x] = n
            return R(st, x)
    # hashers: what was fed to them
    def new(I, st, c):
        return R(st, ('fed', ()))
    h['metrohash::MetroHash64::new'] = h['metrohash::MetroHash64::default'] = new

    def feed(kind):
        def f(I, st, c):
            ref = c.args[0]
            v = I.load(st, ref)
            while isinstance(v, tuple) and v[0] == 'ref':
                ref, v = v, I.load(st, v)
            if not (isinstance(v, tuple) and v[0] == 'fed'):
                return None
            x = c.args[1]
            x = I.deep(st, bytes_of(I, st, x)) if kind == 'bytes' else x
            I.store(st, ref, ('fed', v[1] + ((kind, x),)))
            return R(st, UNIT)
        return f
    h['std::hash::Hasher::write'] = feed('bytes')
    for n in ('u8', 'u16', 'u32', 'u64', 'usize'):
        h['std::hash::Hasher::write_' + n] = feed(n)

    def hsh(I, st, c):
        t = c.argtys[0].replace('&', '').replace('mut ', '')
        if t not in ('u8', 'u16', 'u32', 'u64', 'usize'):
            return None
        x = c.args[0]
        while isinstance(x, tuple) and x[0] == 'ref':
            x = I.load(st, x)
        ref = c.args[1]
        v = I.load(st, ref)
        while isinstance(v, tuple) and v[0] == 'ref':
            ref, v = v, I.load(st, v)
        if not (isinstance(v, tuple) and v[0] == 'fed'):
            return None
        I.store(st, ref, ('fed', v[1] + ((t, x),)))
        return R(st, UNIT)
    h['std::hash::Hash::hash'] = hsh

    def fin(I, st, c):
        v = I.load(st, c.args[0])
        while isinstance(v, tuple) and v[0] == 'ref':
            v = I.load(st, v)
        if not (isinstance(v, tuple) and v[0] == 'fed'):
            return None
        x = ('digest', tuple(merge(I, st, v[1])))
        I.ty[x] = 'u64'
        return R(st, x)
    h['std::hash::Hasher::finish'] = fin
    return I


EMPTY = ('agg', 'array', '', ())


def order(c):
    g = ' '.join(c.gen or ()) + ' ' + str(c.fn.get('rk') or '') + str(c.fn.get('k') or '')
    if 'BigEndian' in g:
        return 'be'
    if 'LittleEndian' in g:
        return 'le'
    raise Unclear(g)


def merge(I, st, fed):
    """What a streaming hash depends on: integers and runs of bytes."""
    out = []
    for k, x in fed:
        if k != 'bytes':
            out.append((k, x))
            continue
        ps = tuple(flat(I, st, x))
        if out and out[-1][0] == 'bytes':
            out[-1] = ('bytes', join_pieces(I, st, out[-1][1] + ps))
        else:
            out.append(('bytes', join_pieces(I, st, ps)))
    return [x for x in out if x != ('bytes', ())]


def piece(I, st, v, a, z):
    return tuple(cut(I, st, flat(I, st, v), a, z))


def part(I, v, a, z):
    if a == 0 and z == I.length(v):
        return v
    if isinstance(v, tuple) and v[0] == 'sub' and len(v) == 4:
        return ('sub', v[1], add(v[2], a), add(v[2], z))
    return ('sub', v, a, z)


def flat(I, st, v):
    """A byte string as its pieces (source, from, to), source 0 for zeros; adjoining pieces of a source are one."""
    v = I.deep(st, v)
    return list(join_pieces(I, st, go(I, st, v)))


def go(I, st, v):
    if not isinstance(v, tuple):
        raise Unclear(v)
    if v[0] == 'concat':
        return go(I, st, v[1]) + go(I, st, v[2])
    if v[0] == 'repeat':
        return ((0 if v[1] == 0 else ('repeat', v[1]), 0, v[2]),)
    if v[0] == 'sub' and len(v) == 4:
        return tuple(cut(I, st, go(I, st, v[1]), v[2], v[3]))
    if v[0] == 'splice':
        b = go(I, st, v[1])
        n = I.length(v[1])
        return tuple(cut(I, st, b, 0, v[2])) + go(I, st, v[4]) + tuple(cut(I, st, b, v[3], n))
    if isagg(v) and v[1] == 'array':
        if all(x == 0 for _, x in v[3]):
            return ((0, 0, len(v[3])),) if v[3] else ()
        out = ()
        for _, x in v[3]:
            out += ((('byte', x), 0, 1),) if not isinstance(x, tuple) or x[0] != 'enc' else ((x, 0, 1),)
        return out
    if v[0] == '.' and isinstance(v[2], tuple) and v[2][0] == 'sub':
        z = v[2][2] if v[2][2] is not None else I.length(v[1])
        return tuple(cut(I, st, go(I, st, v[1]), v[2][1], z))
    return ((v, 0, I.length(v)),)


def join_pieces(I, st, ps):
    out = []
    for s, a, z in ps:
        if a == z or I.known(st, eq(a, z)) == 1:
            continue
        if out and s == 0 and out[-1][0] == 0:
            out[-1] = (0, 0, add(sub(out[-1][2], out[-1][1]), sub(z, a)))
        elif out and out[-1][0] == s and s != 0 and not (isinstance(s, tuple) and s[0] == 'byte') and (out[-1][2] == a or I.known(st, eq(out[-1][2], a)) == 1):
            out[-1] = (s, out[-1][1], z)
        else:
            out.append((s, a, z))
    return tuple(out)


def cut(I, st, ps, a, z):
    """The pieces of bytes a to z of a string of pieces."""
    out, at = [], 0
    for s, x, y in ps:
        n = sub(y, x)
        end = add(at, n)
        # lo = max(a, at), hi = min(z, end)
        lo = at if le(I, st, a, at) else a if le(I, st, at, a) else None
        hi = end if le(I, st, end, z) else z if le(I, st, z, end) else None
        if le(I, st, end, a) or le(I, st, z, at):
            at = end
            continue
        if lo is None or hi is None:
            raise Unclear(f'whether {pp(a)[:60]}..{pp(z)[:60]} covers {pp(at)[:60]}..{pp(end)[:60]}')
        out.append((s, add(x, sub(lo, at)), add(x, sub(hi, at))))
        at = end
    return out


def le(I, st, a, b):
    return a == b or I.known(st, lt(b, a)) == 0


def show(ps):
    return ' ++ '.join(f'{"zeros" if s == 0 else pp(s)[:60]}[{pp(a)[:40]}..{pp(z)[:40]}]' for s, a, z in ps) or 'nothing'
