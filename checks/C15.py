"""Transaction numbers, block addresses, record ids and UUIDs: arithmetic, order and size."""
import re
from engine.interp import St, int_range
from engine.mir import Missing
from engine.models import R, NONE, ok, err
from engine.terms import *
from checks.speedy_model import Codec, PRIM

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR with symbolic numbers. Arithmetic of transaction numbers is compared with that of integers, path by path; '
                   'comparisons are evaluated in each case of the order of the components; encodings are collected as sequences of typed items.',
    'assumptions': ['uuid and the integer comparison and formatting of the standard library are correct'],
}
T, PBA, RID, UU = ('types::' + x for x in ('TxgT', 'PBA', 'RID', 'Uuid'))
A, B, N = ('s', 'a'), ('s', 'b'), ('s', 'n')
ORD = 'std::cmp::Ordering'


def mk(ctx, ty, vals):
    a = ctx.P.adt(ty)
    return ('agg', a['path'], '', tuple((f[0], v) for f, v in zip(a['variants'][0]['f'], vals)))


def name_of(I, o):
    """The Ordering a run returned, resolved in its state; None if unknown."""
    v = o.val
    if isagg(v) and v[2] == 'Some':
        v = v[3][0][1]
    if isinstance(v, tuple) and v[0] == 'cmp':
        r = [n for _, n in I.split_cmp(o.st, v)]
        return r[0] if len(r) == 1 else None
    if isagg(v):
        return v[2]
    if isinstance(v, int):
        return {-1: 'Less', 0: 'Equal', 1: 'Greater', 255: 'Less'}.get(v)
    return None


def scalar(v):
    for _ in range(3):
        if isagg(v) and len(v[3]) == 1:
            v = v[3][0][1]
    return v


def run(ctx):
    P = ctx.P
    arithmetic(ctx)
    orders(ctx)
    conversions(ctx)
    sizes(ctx)


def arithmetic(ctx):
    P = ctx.P
    top = (1 << 32) - 1
    cases = [('add', 'Add', 1), ('add_assign', 'AddAssign', 1), ('sub', 'Sub', -1), ('sub_assign', 'SubAssign', -1), ('checked_add', None, 1), ('checked_sub', None, -1)]
    seen = 0
    for name, tr, sign in cases:
        bs = P.fns(lambda b: b.get('name') == name and b.get('self') == T and (tr is None) == (b.get('trait') is None))
        for b in bs:
            with ctx.rule('arithmetic', f'TxgT::{name}'):
                seen += 1
                w = f'TxgT::{name}'
                right = b['locals'][2] if 'locals' in b else ''
                rty = right[0] if isinstance(right, list) else right if isinstance(right, str) else (right or {}).get('ty', '')
                newt = 'TxgT' in str(rty)
                for big in (0, 1):
                    I = ctx.interp()
                    st = St()
                    I.ty[A], I.ty[N] = 'u32', 'u32'
                    want = add(A, N) if sign > 0 else sub(A, N)
                    over = lt(top, add(A, N)) if sign > 0 else lt(A, N)
                    I.assume(st, over, big)
                    me = mk(ctx, T, [A])
                    rhs = mk(ctx, T, [N]) if newt else N
                    ref = I.alloc(st, me)
                    outs = I.run(b, [ref if name.endswith('assign') else me, rhs], st)
                    ctx.used(I, outs)
                    for o in outs:
                        if name.startswith('checked'):
                            v = o.val
                            if big:
                                good = o.kind == 'ret' and v == NONE
                            else:
                                good = o.kind == 'ret' and isagg(v) and v[2] == 'Some' and scalar(v[3][0][1]) == want
                            ctx.ob('arithmetic', w, good, f'it returns {pp(v)[:100]} when the result does{"" if big else " not"} overflow')
                            continue
                        if not big:
                            v = I.load(o.st, ref) if name.endswith('assign') else o.val
                            ctx.ob('arithmetic', w, o.kind == 'ret' and scalar(v) == want, f'it is {pp(v)[:100] if o.kind == "ret" else "a panic"}, expected {pp(want)}')
                    ctx.ob('arithmetic', w, bool(outs), 'no result')
    if seen < 4:
        raise Missing('the arithmetic of TxgT')
    with ctx.rule('maximum', 'TXG_MAX'):
        I = ctx.interp()
        o, = I.run(P.fn('types::TXG_MAX'), [], St())
        # one more must still be representable: ranges of transactions are half open
        ctx.ob('maximum', 'TXG_MAX', scalar(o.val) == top - 1, f'it is {pp(o.val)}, so the range of all transactions is not [0, TXG_MAX + 1) or does not fit')
    for ty in (T, RID, PBA):
        for b in P.fns(lambda b: b.get('name') == 'min_value' and b.get('self') == ty):
            with ctx.rule('minimum', b['path']):
                I = ctx.interp()
                outs = I.run(b, [], St())
                ctx.used(I, outs)
                for o in outs:
                    v = I.deep(o.st, o.val)
                    ctx.ob('minimum', f'{ty}::min_value', isagg(v) and all(x == 0 for _, x in v[3]), f'the least value is {pp(v)[:100]}')


def orders(ctx):
    P = ctx.P
    for ty, fs in ((T, ['u32']), (RID, ['u64']), (PBA, ['u16', 'u64'])):
        adt = P.adt(ty)
        have = [f[1] for f in adt['variants'][0]['f']]
        names = [f[0] for f in adt['variants'][0]['f']]
        if sorted(have) != sorted(fs):
            raise Missing(f'the fields of {ty}')
        # the cluster number is the more significant part of an address
        names.sort(key=lambda n: ['cluster', 'lba'].index(n) if ty == PBA else 0)
        for fn in ('cmp', 'partial_cmp', 'eq', 'lt', 'le', 'gt', 'ge', 'ne'):
            bs = P.fns(lambda b: b.get('name') == fn and b.get('self') == ty and (b.get('trait') or '').startswith('std::cmp::'))
            if not bs:
                if fn in ('cmp', 'partial_cmp', 'eq'):
                    raise Missing(f'{ty}::{fn}')
                continue
            with ctx.rule('order', f'{ty}::{fn}'):
                for case in cases(len(names)):
                    I = ctx.interp()
                    st = St()
                    xs, ys = {}, {}
                    for n, t, c in zip(names, [dict(zip([f[0] for f in adt['variants'][0]['f']], have))[n] for n in names], case):
                        x, y = xs[n], ys[n] = ('s', 'a.' + n), ('s', 'b.' + n)
                        I.ty[x] = I.ty[y] = t
                        I.assume(st, lt(x, y), int(c == 'Less'))
                        I.assume(st, eq(x, y), int(c == 'Equal'))
                        I.assume(st, lt(y, x), int(c == 'Greater'))
                    want = next((c for c in case if c != 'Equal'), 'Equal')
                    order = [f[0] for f in adt['variants'][0]['f']]
                    args = [I.alloc(st, mk(ctx, ty, [d[n] for n in order])) for d in (xs, ys)]
                    outs = I.run(bs[0], args, st)
                    ctx.used(I, outs)
                    ctx.ob('order', f'{ty}::{fn}', bool(outs) and all(o.kind == 'ret' for o in outs), 'it may panic')
                    for o in outs:
                        if o.kind != 'ret':
                            continue
                        if fn in ('cmp', 'partial_cmp'):
                            got = name_of(I, o)
                            ctx.ob('order', f'{ty}::{fn}', got == want, f'with {dict(zip(names, case))} it is {got or pp(o.val)[:100]}, expected {want}')
                        else:
                            w = {'eq': ['Equal'], 'ne': ['Less', 'Greater'], 'lt': ['Less'], 'le': ['Less', 'Equal'], 'gt': ['Greater'], 'ge': ['Greater', 'Equal']}[fn]
                            got = o.val if isinstance(o.val, int) else I.known(o.st, o.val)
                            ctx.ob('order', f'{ty}::{fn}', got == int(want in w), f'with {dict(zip(names, case))} it is {pp(got)[:100]}')


def cases(n):
    if not n:
        return [()]
    return [(c, *r) for c in ('Less', 'Equal', 'Greater') for r in cases(n - 1)]


def conversions(ctx):
    P = ctx.P
    with ctx.rule('conversion', 'TxgT from u32'):
        b, = P.fns(lambda b: b.get('name') == 'from' and b.get('self') == T and (b.get('trait') or '').endswith('From<u32>'))
        I = ctx.interp()
        I.ty[N] = 'u32'
        outs = I.run(b, [N], St())
        ctx.used(I, outs)
        ctx.ob('conversion', 'TxgT::from(u32)', [(o.kind, scalar(o.val)) for o in outs] == [('ret', N)], f'it is {[pp(o.val)[:80] for o in outs]}')
    with ctx.rule('conversion', 'u32 from TxgT'):
        b, = P.fns(lambda b: b.get('name') == 'from' and b.get('self') == 'u32' and 'TxgT' in (b.get('trait') or ''))
        I = ctx.interp()
        I.ty[N] = 'u32'
        outs = I.run(b, [mk(ctx, T, [N])], St())
        ctx.used(I, outs)
        ctx.ob('conversion', 'u32::from(TxgT)', [(o.kind, o.val) for o in outs] == [('ret', N)], f'it is {[pp(o.val)[:80] for o in outs]}')
    with ctx.rule('conversion', 'PBA::new'):
        I = ctx.interp()
        I.ty[A], I.ty[B] = 'u16', 'u64'
        outs = I.run(P.fn('types::PBA::new'), [A, B], St())
        ctx.used(I, outs)
        ctx.ob('conversion', 'PBA::new', len(outs) == 1 and outs[0].kind == 'ret' and isagg(outs[0].val) and dict(outs[0].val[3]) == {'cluster': A, 'lba': B},
               f'it is {[pp(o.val)[:80] for o in outs]}')
    for ty in (RID, UU):
        with ctx.rule('display', ty):
            b = P.method(re.escape(ty) + '$', 'fmt', 'Display')
            I = ctx.interp()
            said = []

            def fmt(I, st, c, said=said):
                st.log('show', I.deep(st, I.load(st, c.args[0])), c.args[1])
                return R(st, ok(('agg', 'tuple', '', ())))
            for n in ('std::fmt::Display::fmt', 'std::fmt::Debug::fmt', 'std::fmt::LowerHex::fmt'):
                I.hooks[n] = fmt
            st = St()
            x = ('s', 'inner')
            F = I.alloc(st, ('s', 'formatter'))
            outs = I.run(b, [I.alloc(st, mk(ctx, ty, [x])), F], st)
            ctx.used(I, outs)
            for o in outs:
                e = [t[1:] for t in o.st.effects() if t[0] == 'show']
                ctx.ob('display', f'{ty}::fmt', o.kind == 'ret' and e == [(x, F)], f'it shows {e}')
    # A Uuid is the 16 bytes of the uuid, in their order, in every form
    with ctx.rule('conversion', 'Uuid'):
        X = ('s', 'uuid')
        b = P.fn('types::Uuid::from_uuid')
        I = ctx.interp()
        outs = I.run(b, [X], St())
        ctx.used(I, outs)
        ctx.ob('conversion', 'Uuid::from_uuid', [(o.kind, scalar(o.val)) for o in outs] == [('ret', X)], f'it is {[pp(o.val)[:80] for o in outs]}')
    for path, callee in (('types::Uuid::parse_str', None), ('from_str', None)):
        with ctx.rule('conversion', path):
            b = P.fn(path) if '::' in path else P.method(r'types::Uuid$', 'from_str', 'FromStr')
            I = ctx.interp()
            S = ('s', 'text')

            def parse(I, st, c):
                a = c.args[0]
                if a != S:
                    return None
                out = []
                good = ('s', 'valid')
                for s, v in I.decide(st, eq(good, 1)):
                    out += R(s, ok(('parsed', S)) if v else err(('s', 'error')))
                return out
            for n in ('uuid::Uuid::parse_str', 'std::str::FromStr::from_str', 'uuid::Uuid::try_parse', 'uuid::parser::parse_str', 'core::str::parse'):
                I.hooks[n] = parse
            outs = I.run(b, [S], St())
            ctx.used(I, outs)
            ctx.ob('conversion', f'Uuid {path}', len(outs) == 2, 'it does not tell valid from invalid texts')
            for o in outs:
                good = o.kind == 'ret' and isagg(o.val) and (o.val[2] == 'Err' or o.val[2] == 'Ok' and scalar(o.val[3][0][1]) == ('parsed', S))
                ctx.ob('conversion', f'Uuid {path}', good, f'it is {pp(o.val)[:100]}')

    with ctx.rule('conversion', 'Uuid serde'):
        X, BY = ('s', 'uuid'), ('s', 'bytes')
        P16 = '[u8; 16]'
        b = P.method(r'types::Uuid$', 'serialize', 'Serialize')
        I = ctx.interp()
        I.unroll = 20
        I.len_of[BY] = 16
        I.hooks['uuid::Uuid::as_bytes'] = lambda I, st, c: R(st, I.alloc(st, BY))
        I.hooks['uuid::Uuid::into_bytes'] = lambda I, st, c: R(st, BY)

        def start(I, st, c):
            st.log('tuple', c.args[1])
            return R(st, ok(('s', 'tuple serializer')))
        I.hooks['serde::Serializer::serialize_tuple'] = start

        def elem(I, st, c):
            v = c.args[1]
            while isinstance(v, tuple) and v[0] == 'ref':
                v = I.load(st, v)
            st.log('item', v)
            return R(st, ok(('agg', 'tuple', '', ())))
        I.hooks['serde::ser::SerializeTuple::serialize_element'] = elem

        def whole(I, st, c):
            st.log('tuple', 16)
            v = I.load(st, c.args[0])
            for i in range(16):
                st.log('item', proj(v, ('[]', i)))
            return R(st, ok(('agg', 'tuple', '', ()))) if c.argtys[0].endswith(P16) else None
        I.hooks['serde::Serialize::serialize'] = whole
        I.hooks['serde::ser::SerializeTuple::end'] = lambda I, st, c: (st.log('end'), R(st, ok(('agg', 'tuple', '', ()))))[1]
        st = St()
        outs = I.run(b, [I.alloc(st, mk(ctx, UU, [X])), ('s', 'serializer')], st)
        ctx.used(I, outs)
        want = [proj(BY, ('[]', i)) for i in range(16)]
        for o in outs:
            e = o.st.effects()
            ctx.ob('conversion', 'Uuid::serialize', o.kind == 'ret' and [x[1] for x in e if x[0] == 'item'] == want and [x[1] for x in e if x[0] == 'tuple'] == [16],
                   f'it writes {str([pp(x[1]) for x in e if x[0] == "item"])[:200]}')
        b = P.method(r'types::Uuid$', 'deserialize', 'Deserialize')
        I = ctx.interp()

        def de(I, st, c):
            out = []
            for s, v in I.decide(st, eq(('s', 'valid'), 1)):
                out += R(s, ok(BY) if v else err(('s', 'error')))
            return out if c.retty.startswith('std::result::Result<' + P16) else None
        I.hooks['serde::Deserialize::deserialize'] = de
        I.hooks['uuid::builder::from_bytes'] = I.hooks['uuid::Uuid::from_bytes'] = lambda I, st, c: R(st, ('of bytes', c.args[0]))
        outs = I.run(b, [('s', 'deserializer')], St())
        ctx.used(I, outs)
        ctx.ob('conversion', 'Uuid::deserialize', len(outs) == 2 and all(
            o.kind == 'ret' and isagg(o.val) and (o.val[2] == 'Err' or scalar(o.val[3][0][1]) == ('of bytes', BY)) for o in outs),
            f'it is {[pp(o.val)[:100] for o in outs]}')


def sizes(ctx):
    P = ctx.P
    C = Codec(ctx)
    for ty in (T, PBA, RID, UU):
        with ctx.rule('encoding', ty):
            if ty not in C.R or ty not in C.W:
                raise Missing(f'encoding of {ty}')
            I = C.interp()
            st = St()
            fs = P.adt(ty)['variants'][0]['f']
            vals = [('s', 'field ' + f[0]) for f in fs]
            for f, v in zip(fs, vals):
                if int_range(f[1]):
                    I.ty[v] = f[1]
            v = mk(ctx, ty, vals)
            for o, toks in C.write(I, ty, v, st):
                ctx.used(I, [o])
                ctx.ob('encoding', f'{ty}::write_to', o.kind == 'ret' and isagg(o.val) and o.val[2] == 'Ok', 'writing fails')
                size = sum(16 if t == 'uuid::Uuid' else PRIM.get(t, 1 << 20) for t, _ in toks)
                real = sum(16 if f[1] == 'uuid::Uuid' else PRIM.get(f[1], 0) for f in fs)
                ctx.ob('encoding', f'{ty}::write_to', size == real, f'it takes {size} bytes, expected {real}')
                for b in P.bodies.values():
                    if b['path'] == f'<{ty} as types::TypicalSize>::TYPICAL_SIZE':
                        k, = I.run(b, [], St())
                        ctx.ob('typical size', ty, k.val == size, f'the declared size is {pp(k.val)}, the encoded one {size}')
                I2 = C.interp()
                for f, x in zip(fs, vals):
                    if int_range(f[1]):
                        I2.ty[x] = f[1]
                for r in C.read(I2, ty, toks, St()):
                    ctx.used(I2, [r])
                    bad = [e for e in r.st.effects() if e[0] in ('bad', 'more')]
                    ctx.ob('encoding', f'{ty}::read_from', not bad and r.st.cnt.get('at') == len(toks), f'{bad or "not all is read"}')
                    ctx.ob('encoding', f'{ty}::read_from', r.kind == 'ret' and isagg(r.val) and r.val[2] == 'Ok' and r.val[3][0][1] == v,
                           f'it reads {pp(r.val)[:120]}')
    for ty in ('u32', 'f32'):
        for b in P.bodies.values():
            if b['path'] == f'<{ty} as types::TypicalSize>::TYPICAL_SIZE':
                k, = ctx.interp().run(b, [], St())
                ctx.ob('typical size', ty, k.val == 4, f'it is {pp(k.val)}')
