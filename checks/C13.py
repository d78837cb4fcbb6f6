"""Scatter-gather helpers: same bytes, right padding, right lengths; and the emptiness of ranges."""
import itertools
from engine.interp import St
from engine.mir import Missing, strip_generics
from engine.models import R, seq_value, ok
from engine.terms import *

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR on scatter-gather lists of up to 3 (thorough: 4) segments of symbolic contents and length. What the padding '
                   'helper returns is normalised to a string of parts of its input and zeros and compared with the input followed by the least zeros '
                   'that fill its last block; each piece must be whole blocks. What is fed to a checksum must be the input, nothing else. Zero lists are judged for '
                   'any length by the terms pushed per turn of the loop. Emptiness of ranges is decided for every combination of bounds.',
    'assumptions': ['DivBuf, Vec and Hasher behave as documented', 'lists longer than 3 (4) segments: the state between segments has only the two forms those already reach'],
}
LBA = 4096
EMPTY = ('agg', 'array', '', ())


def arr(xs):
    return ('agg', 'array', '', tuple((('[]', i), x) for i, x in enumerate(xs)))


def interp(ctx, unroll):
    I = ctx.interp()
    I.unroll = unroll
    h = I.hooks

    def sl(I, st, c):
        r, p = I.deref(st, c.args[0])
        v = seq_value(I, st, r, p)
        n = I.length(v)
        nm = c.name.split('::')[-1]
        a = 0 if nm == 'slice_to' else c.args[1]
        z = c.args[2] if nm == 'slice' else c.args[1] if nm == 'slice_to' else n
        return R(st, part(I, v, a, z))

    def split(I, st, c):
        r, p = I.deref(st, c.args[0])
        v = seq_value(I, st, r, p)
        n = I.length(v)
        k = c.args[1]
        a, b = part(I, v, 0, k), part(I, v, k, n)
        to = c.name.endswith('split_to')
        I.store(st, c.args[0], b if to else a)
        return R(st, a if to else b)
    for t in ('DivBuf', 'DivBufMut'):
        for nm in ('slice', 'slice_from', 'slice_to'):
            h[f'divbuf::{t}::{nm}'] = sl
        for nm in ('split_to', 'split_off'):
            h[f'divbuf::{t}::{nm}'] = split
        h[f'divbuf::{t}::len'] = lambda I, st, c: R(st, I.length(seq_value(I, st, *I.deref(st, c.args[0]))))
        h[f'divbuf::{t}::is_empty'] = lambda I, st, c: R(st, eq(I.length(seq_value(I, st, *I.deref(st, c.args[0]))), 0))
    h['divbuf::DivBufShared::try_const'] = lambda I, st, c: R(st, ok(seq_value(I, st, *I.deref(st, c.args[0]))))
    h['divbuf::DivBufShared::len'] = lambda I, st, c: R(st, I.length(seq_value(I, st, *I.deref(st, c.args[0]))))

    def from_(I, st, c):
        if 'DivBufShared' in c.retty:
            v = c.args[0]
            return R(st, v if not (isinstance(v, tuple) and v[0] == 'ref') else I.load(st, v))
        return None
    h['std::convert::From::from'] = from_
    h['std::convert::Into::into'] = from_
    for nm in ('write', 'write_u8', 'write_usize', 'write_length_prefix', 'write_str', 'write_u16', 'write_u32', 'write_u64', 'finish'):
        h['std::hash::Hasher::' + nm] = self_log(nm)
    return I


def self_log(nm):
    def f(I, st, c):
        a = [I.deep(st, seq_value(I, st, *I.deref(st, x)) if isinstance(x, tuple) and x[0] == 'ref' else x) for x in c.args[1:]]
        st.log('hash', nm, *a)
        return R(st, ('agg', 'tuple', '', ()) if nm != 'finish' else ('ret', 'finish'))
    return f


def part(I, v, a, z):
    if a == 0 and z == I.length(v):
        return v
    if isinstance(v, tuple) and v[0] == 'sub' and len(v) == 4:
        return ('sub', v[1], add(v[2], a), add(v[2], z))
    return ('sub', v, a, z)


def norm(I, st, v):
    """A string of bytes as its parts: (source, from, to), source None for zeros."""
    out = []

    def put(s, a, z):
        if I.known(st, eq(sub(z, a), 0)) == 1 or z == a:
            return
        if out and s is None and out[-1][0] is None:
            out[-1] = (None, 0, add(out[-1][2], z))
        elif out and s is not None and out[-1][0] == s and I.known(st, eq(out[-1][2], a)) == 1 or out and s is not None and out[-1][0] == s and out[-1][2] == a:
            out[-1] = (s, out[-1][1], z)
        else:
            out.append((s, a, z))

    def go(v, a, z):
        if v[0] == 'concat':
            n = I.length(v[1])
            if a == 0 and z == I.length(v):
                go(v[1], 0, n)
                go(v[2], 0, I.length(v[2]))
                return
            raise Unclear(v)
        if v[0] == 'repeat':
            if v[1] != 0:
                raise Unclear(v)
            put(None, 0, sub(z, a))
        elif v[0] == 'sub' and len(v) == 4:
            go(v[1], add(v[2], a), add(v[2], z))
        elif isagg(v) and v[1] == 'array' and not v[3]:
            pass
        elif isagg(v) and v[1] == 'array' and all(x == 0 for k, x in v[3]):
            put(None, 0, sub(z, a))
        elif v[0] == 's':
            put(v, a, z)
        else:
            raise Unclear(v)
    v = I.deep(st, v)
    go(v, 0, I.length(v))
    return out


class Unclear(Exception):
    pass


def fn(ctx, name):
    return ctx.P.fn('util::' + name)


def segs(I, n):
    ss = [('s', f'seg{i}') for i in range(n)]
    for s in ss:
        I.ty[('len', s)] = 'len'
    return ss


def checksums(ctx, most):
    for n in range(most + 1):
        for name in ('checksum_sglist', 'checksum_iovec'):
            if name == 'checksum_iovec' and n != 1:
                continue
            I = interp(ctx, n)
            ss = segs(I, n)
            st = St()
            x = I.alloc(st, arr(ss)) if name == 'checksum_sglist' else I.alloc(st, ss[0])
            outs = I.run(fn(ctx, name), [x, ('in', 'hasher')], st)
            ctx.used(I, outs)
            for o in outs:
                w = f'util::{name}'
                ctx.ob('checksum', w, o.kind == 'ret', 'it may panic')
                calls = [e for e in o.st.effects() if e[0] == 'hash']
                ctx.ob('checksum', w, all(e[1] == 'write' for e in calls), f'more than the bytes is hashed: {[e[1] for e in calls]}')
                got = []
                for e in calls:
                    if e[1] == 'write':
                        got += norm(I, o.st, e[2])
                want = [p for s in ss for p in norm(I, o.st, s)]
                ctx.ob('checksum', w, merged(got) == merged(want), f'{n} segments: it hashes {show(got)}, expected {show(want)}')


def merged(ps):
    out = []
    for s, a, z in ps:
        if out and out[-1][0] == s and s is not None and out[-1][2] == a:
            out[-1] = (s, out[-1][1], z)
        elif out and s is None and out[-1][0] is None:
            out[-1] = (None, 0, add(out[-1][2], z))
        else:
            out.append((s, a, z))
    return out


def show(ps):
    return ' '.join('0' * 3 + f'*{pp(z)}' if s is None else f'{pp(s)}[{pp(a)}..{pp(z)}]' for s, a, z in ps)[:300]


def pads(ctx, most):
    w = 'util::copy_and_pad_sglist'
    for n in range(most + 1):
        # each segment: whole blocks, less than a block, or more than a block but not whole
        for shape in itertools.product('wps', repeat=n):
            I = interp(ctx, n + 1)
            ss = segs(I, n)
            st = St()
            ls = []
            for s, k in zip(ss, shape):
                q, r = ('s', 'q' + s[1]), ('s', 'r' + s[1])
                I.ty[q] = (1, 1 << 50)
                I.ty[r] = (1, LBA - 1)
                ln = mul(LBA, q) if k == 'w' else r if k == 's' else add(mul(LBA, q), r)
                I.len_of[s] = ln
                ls.append(ln)
            outs = I.run(fn(ctx, 'copy_and_pad_sglist'), [arr(ss)], st)
            ctx.used(I, outs)
            ctx.ob('pad', w, bool(outs), 'no path')
            for o in outs:
                if o.kind == 'panic':
                    # refusing is right only where padding in place would be wrong or is documented as unsupported: a short tail followed by
                    # a segment that is not short itself
                    pend = pending(I, o.st, shape, ls)
                    ctx.ob('refuse', w, pend, f'it panics on segments {"".join(shape)}')
                    continue
                v = I.deep(o.st, o.val)
                items = [x for k, x in v[3]] if isagg(v) else None
                if items is None:
                    raise Unclear(v)
                got = [norm(I, o.st, x) for x in items]
                flat = merged([p for x in got for p in x])
                total = 0
                for l in ls:
                    total = add(total, l)
                m = I.mod(o.st, total, LBA)
                padding = 0 if m == 0 or I.known(o.st, eq(m, 0)) == 1 else sub(LBA, m)
                want = merged([p for s in ss for p in norm(I, o.st, s)])
                tail = 0
                if flat and flat[-1][0] is None:
                    tail = flat[-1][2]
                    flat = flat[:-1]
                ctx.ob('bytes', w, flat == want, f'segments {"".join(shape)}: it returns {show(flat)}, expected {show(want)}')
                lo, hi = I.rng(tail, o.st)
                whole = I.mod(o.st, add(total, tail), LBA)
                least = lo is not None and lo >= 0 and hi is not None and hi < LBA and (whole == 0 or I.known(o.st, eq(whole, 0)) == 1)
                ctx.ob('padding', w, least or same(I, o.st, tail, padding),
                       f'segments {"".join(shape)}: it appends {pp(tail)} zeros, expected {pp(padding)}')
                for x in items:
                    ln = I.length(x)
                    r = I.mod(o.st, ln, LBA)
                    ctx.ob('whole blocks', w, r == 0 or I.known(o.st, eq(r, 0)) == 1, f'segments {"".join(shape)}: it returns a piece of {pp(ln)} bytes')
                if all(k == 'w' for k in shape):
                    ctx.ob('untouched', w, items == ss, 'whole blocks are copied')


def pending(I, st, shape, ls):
    acc = 0
    for k, l in zip(shape, ls):
        if acc != 0 and k != 's':
            return True
        acc = add(acc, I.mod(st, l, LBA)) if k != 'w' else acc
        m = I.mod(st, acc, LBA)
        if m == 0 or I.known(st, eq(m, 0)) == 1:
            acc = 0
    return False


def same(I, st, a, b):
    return a == b or I.known(st, eq(a, b)) == 1


def lengths(ctx, most):
    for n in range(most + 1):
        I = interp(ctx, n)
        ss = segs(I, n)
        st = St()
        outs = I.run(fn(ctx, 'sglist_len'), [I.alloc(st, arr(ss))], st)
        ctx.used(I, outs)
        want = 0
        for s in ss:
            want = add(want, ('len', s))
        ctx.ob('length', 'util::sglist_len', len(outs) == 1 and outs[0].kind == 'ret' and outs[0].val == want,
               f'{n} segments: it is {[pp(o.val)[:100] for o in outs]}, expected {pp(want)}')


def region(ctx):
    """Bytes in the static region of zeros; its contents must be zeros."""
    cl = [b for b in ctx.P.bodies.values() if b['key'].endswith('util::ZERO_REGION::{closure#0}')]
    if len(cl) != 1:
        raise Missing('util::ZERO_REGION')
    I = interp(ctx, 2)
    outs = I.run(cl[0], [('agg', 'closure', '', ())], St())
    ctx.used(I, outs)
    v = I.deep(outs[0].st, outs[0].val) if len(outs) == 1 and outs[0].kind == 'ret' else None
    good = isinstance(v, tuple) and v[0] == 'repeat' and v[1] == 0 and isinstance(v[2], int) and v[2] > 0
    ctx.ob('zeros', 'util::ZERO_REGION', good, f'the region of zeros is {pp(v)[:100]}')
    if not good:
        raise Missing('util::ZERO_REGION')
    return v


def zeros(ctx, most):
    z = region(ctx)
    Z = z[2]
    w = 'util::zero_sglist'
    # 0, whole regions and any remainder
    for k in range(most + 1):
        for rest in (0, 1):
            I = interp(ctx, most + 2)
            r = ('s', 'rest')
            I.ty[r] = (1, Z - 1)
            n = add(k * Z, r) if rest else k * Z
            st = St()

            def force(I, st, c):
                if 'DivBufShared' in c.retty or 'DivBufShared' in (c.gen[0] if c.gen else '') or 'DivBufShared' in c.argtys[0]:
                    return R(st, I.alloc(st, z))
                return None
            for nm in ('std::ops::Deref::deref', 'std::sync::LazyLock::force', 'std::convert::AsRef::as_ref'):
                I.hooks[nm] = force
            outs = I.run(fn(ctx, 'zero_sglist'), [n], st)
            ctx.used(I, outs)
            ctx.ob('zeros', w, bool(outs), 'no path')
            for o in outs:
                ctx.ob('zeros', w, o.kind == 'ret', f'it panics for {pp(n)} bytes')
                if o.kind != 'ret':
                    continue
                v = I.deep(o.st, o.val)
                if not isagg(v):
                    raise Unclear(v)
                items = [x for _, x in v[3]]
                total = 0
                for x in items:
                    ln = I.length(x)
                    total = add(total, ln)
                    inside = x == z or isinstance(x, tuple) and x[0] == 'sub' and x[1] == z
                    ctx.ob('zeros', w, inside and I.known(o.st, lt(Z, ln)) == 0, f'{pp(n)} bytes: a piece is {pp(x)[:100]}')
                ctx.ob('zeros', w, same(I, o.st, total, n), f'{pp(n)} bytes: the pieces make {pp(total)}')
                ctx.ob('zeros', w, len(items) > 0 or n == 0, f'{pp(n)} bytes: no piece')


BOUND = 'std::ops::Bound'


def ranges(ctx):
    w = 'util::RangeBoundsExt::is_empty'
    bs = [b for b in ctx.P.fns(lambda b: b['path'] == 'util::RangeBoundsExt::is_empty')]
    if len(bs) != 1:
        raise Missing(w)
    for lo in ('Included', 'Excluded', 'Unbounded'):
        for hi in ('Included', 'Excluded', 'Unbounded'):
            for rel in (-1, 0, 1):
                I = interp(ctx, 2)
                st = St()
                # the bounds are elements of any order; integers stand for them, only their order is used
                s, e = I.alloc(st, 10), I.alloc(st, 10 + rel)

                def bound(v, ref):
                    return ('agg', BOUND, v, (('0', ref),) if v != 'Unbounded' else ())
                I.hooks['std::ops::RangeBounds::start_bound'] = lambda I, st, c: R(st, bound(lo, s))
                I.hooks['std::ops::RangeBounds::end_bound'] = lambda I, st, c: R(st, bound(hi, e))
                outs = I.run(bs[0], [('in', 'range')], st)
                ctx.used(I, outs)
                want = 0 if 'Unbounded' in (lo, hi) else int(rel < 0) if (lo, hi) == ('Included', 'Included') else int(rel <= 0)
                got = [o.val if o.kind == 'ret' else 'panic' for o in outs]
                ctx.ob('empty range', w, got == [want], f'from {lo} to {hi}, end {"below" if rel < 0 else "at" if rel == 0 else "above"} start: {got}, expected {want}')


def run(ctx):
    most = 4 if ctx.tier == 'thorough' else 3
    with ctx.rule('checksum', 'util'):
        checksums(ctx, most)
    with ctx.rule('pad', 'util::copy_and_pad_sglist'):
        pads(ctx, most)
    with ctx.rule('length', 'util::sglist_len'):
        lengths(ctx, most)
    with ctx.rule('zeros', 'util::zero_sglist'):
        zeros(ctx, most)
    with ctx.rule('empty range', 'util::RangeBoundsExt::is_empty'):
        ranges(ctx)
    with ctx.rule('block size', 'util::BYTES_PER_LBA'):
        I = interp(ctx, 2)
        v = [o.val for o in I.run(ctx.P.fn('util::BYTES_PER_LBA'), [], St())]
        ctx.ob('block size', 'util::BYTES_PER_LBA', v == [LBA], f'a block is {v} bytes')
