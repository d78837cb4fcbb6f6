"""Keys of the file-system tree and of the forest: composition, order, ranges."""
from engine.interp import St, int_range
from engine.mir import Missing
from engine.models import R, NONE, some, seq_value, UNIT
from engine.terms import *
from checks.speedy_model import Codec

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR with keys as polynomials in object, kind and offset (radix 2^64, 2^56, 1). Composition, the accessors and the '
                   'ends of every range are compared with the layout for all objects and offsets; the kinds are enumerated.',
    'assumptions': ['a key is composed only of an offset below 2^56 (Fs::write and Fs::setattr refuse larger files)', 'the bitfield macro extracts the bits it is told to'],
}
FK, OK, PN = 'fs_tree::FSKey', 'fs_tree::ObjKey', 'property::PropertyName'
O, T, F, E, NAME, NS, H = (('s', x) for x in ('object', 'kind', 'offset', 'end', 'name', 'namespace', 'hash'))
B56, B64 = 1 << 56, 1 << 64


def key(o, t, f):
    return add(add(mul(o, B64), mul(t, B56)), f)


def inner(v):
    for _ in range(3):
        if isagg(v) and len(v[3]) == 1:
            v = v[3][0][1]
    return v


def interp(ctx):
    I = Codec(ctx).interp()
    I.ty.update({O: (0, B64 - 2), T: 'u8', F: (0, B56 - 1), E: (0, B56), NAME: 'bytes', H: 'u64'})
    h = I.hooks

    def write(I, st, c):
        v = c.args[1]
        while isinstance(v, tuple) and v[0] == 'ref':
            v = seq_value(I, st, *I.deref(st, v)) if not isinstance(I.load(st, v), tuple) or I.load(st, v)[0] != 'ref' else I.load(st, v)
        st.log('hash', v)
        return R(st, UNIT)
    h['std::hash::Hasher::write'] = write

    def hashed(I, st, c):
        v = c.args[0]
        while isinstance(v, tuple) and v[0] == 'ref':
            v = I.load(st, v)
        st.log('hash', v)
        return R(st, UNIT)
    h['std::hash::Hash::hash'] = hashed
    for n in ('u8', 'u16', 'u32', 'u64', 'usize', 'isize', 'i32', 'i64'):
        h['std::hash::Hasher::write_' + n] = lambda I, st, c: (st.log('hash', c.args[1]), R(st, UNIT))[1]

    def finish(I, st, c):
        st.log('finish')
        return R(st, H)
    h['std::hash::Hasher::finish'] = finish

    def contains(I, st, c):
        out = []
        for s, v in I.decide(st, eq(('s', 'has a slash'), 1)):
            out += R(s, v)
        return out
    for n in ('core::slice::contains', 'core::str::contains', 'memchr::memchr'):
        h[n] = contains
    h['core::slice::any'] = contains
    return I


def run(ctx):
    P = ctx.P
    adt = P.adt(OK)
    kinds = {}
    for v in adt['variants']:
        with ctx.rule('compose', f'FSKey::new({v["n"]})'):
            names = [None]
            if v['f'] and v['f'][0][1] == PN:
                names = [(p['n'], int(p['d'])) for p in P.adt(PN)['variants']]
            for nm in names:
                I = interp(ctx)
                st = St()
                off = nm[1] if nm else F if v['f'] else 0
                val = ('agg', PN, nm[0], ()) if nm else F
                k = ('agg', OK, v['n'], tuple((f[0], val) for f in v['f']))
                outs = I.run(P.fn(FK + '::new'), [O, k], st)
                ctx.used(I, outs)
                for o in outs:
                    d = int(v['d'])
                    kinds[v['n']] = d
                    ctx.ob('compose', f'FSKey::new({v["n"]})', o.kind == 'ret' and inner(o.val) == key(O, d, off),
                           f'the key is {pp(inner(o.val))[:150]}, expected {pp(key(O, d, off))[:150]}')
                ctx.ob('compose', f'FSKey::new({v["n"]})', len(outs) == 1, f'{len(outs)} results')
    ctx.ob('kinds', 'ObjKey', len(set(kinds.values())) == len(kinds) and max(kinds.values(), default=0) < 255, f'the kinds are {kinds}')
    K = ('agg', FK, '', (('0', key(O, T, F)),))
    for n, want in (('object', O), ('objtype', T), ('offset', F)):
        with ctx.rule('accessor', n):
            I = interp(ctx)
            st = St()
            outs = I.run(P.fn(f'{FK}::{n}'), [I.alloc(st, K)], st)
            ctx.used(I, outs)
            ctx.ob('accessor', f'FSKey::{n}', [(o.kind, o.val) for o in outs] == [('ret', want)], f'it is {[pp(o.val)[:150] for o in outs]}')
    tests = {'is_direntry': 'DirEntry', 'is_dying_inode': 'DyingInode', 'is_extattr': 'ExtAttr', 'is_inode': 'Inode', 'is_extent': 'Extent', 'is_property': 'Property'}
    for b in P.fns(lambda b: b.get('self') == FK and b.get('name') in tests):
        n = b['name']
        with ctx.rule('test', n):
            for kn, d in kinds.items():
                I = interp(ctx)
                st = St()
                k = ('agg', FK, '', (('0', key(O, d, F)),))
                outs = I.run(b, [I.alloc(st, k)], st)
                ctx.used(I, outs)
                ctx.ob('test', f'FSKey::{n}', [(o.kind, o.val) for o in outs] == [('ret', int(kn == tests[n]))], f'for {kn} it is {[pp(o.val)[:80] for o in outs]}')
    ranges(ctx, kinds)
    hashes(ctx, kinds)
    forest(ctx)
    with ctx.rule('order', 'FSKey'):
        for n in ('cmp', 'partial_cmp'):
            b = P.method(FK + '$', n, 'Ord' if n == 'cmp' else 'PartialOrd')
            for case in ('Less', 'Equal', 'Greater'):
                I = interp(ctx)
                st = St()
                x, y = ('s', 'a'), ('s', 'b')
                I.ty[x] = I.ty[y] = 'u128'
                I.assume(st, lt(x, y), int(case == 'Less'))
                I.assume(st, eq(x, y), int(case == 'Equal'))
                I.assume(st, lt(y, x), int(case == 'Greater'))
                outs = I.run(b, [I.alloc(st, ('agg', FK, '', (('0', v),))) for v in (x, y)], st)
                ctx.used(I, outs)
                ctx.ob('order', f'FSKey::{n}', bool(outs) and all(ordering(I, o) == case for o in outs), f'it is {[ordering(I, o) for o in outs]} for {case}')
    for ty in (FK, 'database::ForestKey'):
        with ctx.rule('minimum', ty):
            b = P.method(ty + '$', 'min_value', 'MinValue')
            I = interp(ctx)
            outs = I.run(b, [], St())
            ctx.used(I, outs)
            for o in outs:
                ctx.ob('minimum', f'{ty}::min_value', o.kind == 'ret' and zeros(o.val), f'the least key is {pp(o.val)[:100]}')


def zeros(v):
    return v == 0 or isagg(v) and all(zeros(x) for _, x in v[3])


def ordering(I, o):
    v = o.val
    if isagg(v) and v[2] == 'Some':
        v = v[3][0][1]
    if isinstance(v, tuple) and v[0] == 'cmp':
        r = [n for _, n in I.split_cmp(o.st, v)]
        return r[0] if len(r) == 1 else None
    return v[2] if isagg(v) else {-1: 'Less', 0: 'Equal', 1: 'Greater', 255: 'Less'}.get(v) if isinstance(v, int) else None


def ends(v):
    d = dict(v[3]) if isagg(v) else {}
    return d.get('start'), d.get('end')


def ranges(ctx, kinds):
    P = ctx.P
    D = kinds.get
    specs = [('dirent_range', [O, F], key(O, D('DirEntry'), F), key(O, D('DirEntry') + 1, 0)),
             ('dying_inode_range', [], key(0, D('DyingInode'), 0), key(0, D('DyingInode') + 1, 0)),
             ('extattr_range', [O], key(O, D('ExtAttr'), 0), key(O, D('ExtAttr') + 1, 0)),
             ('obj_range', [O], key(O, 0, 0), key(add(O, 1), 0, 0))]
    for n, args, a, z in specs:
        with ctx.rule('range', n):
            I = interp(ctx)
            outs = I.run(P.fn(f'{FK}::{n}'), args, St())
            ctx.used(I, outs)
            judge(ctx, f'FSKey::{n}', outs, a, z)
    ext = D('Extent')
    cases = [(sb, eb, sf, ef) for sb, sf in (('Included', 0), ('Included', 1), ('Unbounded', 0)) for eb, ef in (('Excluded', 0), ('Excluded', 1), ('Unbounded', 0))]
    for sb, eb, sf, ef in cases:
        # sf, ef: whether the offset is beyond the 56 bits that a key has for it
        w = f'FSKey::extent_range({sb}{" beyond 2^56" * sf}, {eb}{" beyond 2^56" * ef})'
        with ctx.rule('range', w):
            I = interp(ctx)
            st = St()

            def bound(which, v):
                def f(I, st, c):
                    return R(st, ('agg', 'std::ops::Bound', which, () if which == 'Unbounded' else (('0', I.alloc(st, v)),)))
                return f
            I.hooks['std::ops::RangeBounds::start_bound'] = bound(sb, F)
            I.hooks['std::ops::RangeBounds::end_bound'] = bound(eb, E)
            I.ty[F], I.ty[E] = (((0, B56 - 1), (B56, B64 - 1))[x] for x in (sf, ef))
            outs = I.run(P.fn(FK + '::extent_range'), [O, ('s', 'offsets')], st)
            ctx.used(I, outs)
            judge(ctx, w, outs, key(O, ext + 1, 0) if sf else key(O, ext, F if sb == 'Included' else 0),
                  key(O, ext, E) if eb == 'Excluded' and not ef else key(O, ext + 1, 0))


def judge(ctx, w, outs, a, z):
    ctx.ob('range', w, len(outs) == 1, f'{len(outs)} results')
    for o in outs:
        s, e = (inner(x) for x in ends(o.val)) if o.kind == 'ret' else (None, None)
        ctx.ob('range', w, s == a, f'it starts at {pp(s)[:120]}, expected {pp(a)[:120]}')
        ctx.ob('range', w, e == z, f'it ends at {pp(e)[:120]}, expected {pp(z)[:120]}')


def hashes(ctx, kinds):
    P = ctx.P
    specs = [('dir_entry', 'DirEntry', lambda st, I: [I.alloc(st, NAME)], [NAME], True),
             ('dying_inode', 'DyingInode', lambda st, I: [O], [O], False),
             ('extattr', 'ExtAttr', lambda st, I: [NS, I.alloc(st, NAME)], [NS, NAME], False)]
    for n, kind, args, fed, slash in specs:
        with ctx.rule('hash', n):
            I = interp(ctx)
            st = St()
            outs = I.run(P.fn(f'{OK}::{n}'), args(st, I), st)
            ctx.used(I, outs)
            hash_of(ctx, I, f'ObjKey::{n}', outs, fed, slash, lambda v: (v[2] == kind, inner(v)) if isagg(v) else (0, v))


def hash_of(ctx, I, w, outs, fed, slash, part):
    good = 0
    for o in outs:
        has = I.known(o.st, eq(('s', 'has a slash'), 1)) == 1
        if o.kind != 'ret':
            ctx.ob('hash', w, slash and (has or w.endswith('tree_ent')), 'it may panic for a legal name')
            continue
        good += 1
        e = o.st.effects()
        got = [x[1] for x in e if x[0] == 'hash']
        ctx.ob('hash', w, got == fed and [x[0] for x in e if x[0] in ('hash', 'finish')][-1:] == ['finish'], f'it hashes {[pp(x)[:60] for x in got]}, expected {[pp(x) for x in fed]}')
        ok, v = part(o.val)
        ctx.ob('hash', w, ok, f'the key is {pp(o.val)[:100]}')
        lo, hi = I.rng(v, o.st)
        ctx.ob('hash', w, lo is not None and lo >= 0 and hi is not None and hi < B56, f'the hash {pp(v)[:80]} may exceed its field')
        ctx.ob('hash', w, mentions(v, H), f'the key {pp(v)[:80]} does not depend on the hash')
        if slash:
            ctx.ob('hash', w, I.known(o.st, eq(('s', 'has a slash'), 1)) == 0, 'a name with a slash is accepted')
    ctx.ob('hash', w, good > 0, 'it never returns')


def forest(ctx):
    P = ctx.P
    FO, TI = 'database::ForestKey', 'database::TreeID'
    tid = lambda v: ('agg', TI, '', (('0', v),))

    def parts(v):
        d = dict(v[3]) if isagg(v) else {}
        return inner(d.get('tree_id')), d.get('offset')
    with ctx.rule('compose', 'ForestKey::tree'):
        I = interp(ctx)
        outs = I.run(P.fn(FO + '::tree'), [tid(O)], St())
        ctx.used(I, outs)
        ctx.ob('compose', 'ForestKey::tree', [parts(o.val) for o in outs] == [(O, 0)], f'it is {[pp(o.val)[:100] for o in outs]}')
    with ctx.rule('hash', 'ForestKey::tree_ent'):
        I = interp(ctx)
        st = St()
        outs = I.run(P.fn(FO + '::tree_ent'), [tid(O), I.alloc(st, NAME)], st)
        ctx.used(I, outs)
        hash_of(ctx, I, 'ForestKey::tree_ent', outs, [NAME], True, lambda v: (parts(v)[0] == O, parts(v)[1]))
        for o in outs:
            if o.kind == 'ret':
                # offset 0 is the tree itself
                ctx.ob('hash', 'ForestKey::tree_ent', I.known(o.st, eq(parts(o.val)[1], 0)) == 0, 'the key of a child may be that of the tree itself')
    with ctx.rule('range', 'ForestKey::tree_ent_range'):
        for z in (0, 1):
            I = interp(ctx)
            st = St()
            I.ty[F] = 'u64'
            I.assume(st, eq(F, 0), z)
            outs = I.run(P.fn(FO + '::tree_ent_range'), [tid(O), 0 if z else F], st)
            ctx.used(I, outs)
            ctx.ob('range', 'ForestKey::tree_ent_range', bool(outs), 'no result')
            for o in outs:
                s, e = ends(o.val) if o.kind == 'ret' else (None, None)
                ctx.ob('range', 'ForestKey::tree_ent_range', parts(s) == (O, 1 if z else F), f'it starts at {pp(s)[:100]}')
                ctx.ob('range', 'ForestKey::tree_ent_range', parts(e) == (add(O, 1), 0), f'it ends at {pp(e)[:100]}')
    with ctx.rule('next', 'TreeID::next'):
        for top in (0, 1):
            I = interp(ctx)
            st = St()
            I.ty[O] = 'u64'
            I.assume(st, eq(O, B64 - 1), top)
            outs = I.run(P.fn(TI + '::next'), [tid(B64 - 1 if top else O)], st)
            ctx.used(I, outs)
            for o in outs:
                want = NONE if top else some(tid(add(O, 1)))
                ctx.ob('next', 'TreeID::next', o.kind == 'ret' and o.val == want, f'it is {pp(o.val)[:100]}')
    with ctx.rule('order', 'ForestKey'):
        fs = [f[0] for f in P.adt(FO)['variants'][0]['f']]
        for n in ('cmp', 'partial_cmp'):
            b = P.method(FO + '$', n, 'Ord' if n == 'cmp' else 'PartialOrd')
            for a in ('Less', 'Equal', 'Greater'):
                for c in ('Less', 'Equal', 'Greater'):
                    I = interp(ctx)
                    st = St()
                    xs = {}
                    for f, cs in (('tree_id', a), ('offset', c)):
                        x, y = ('s', 'a.' + f), ('s', 'b.' + f)
                        I.ty[x] = I.ty[y] = 'u64'
                        I.assume(st, lt(x, y), int(cs == 'Less'))
                        I.assume(st, eq(x, y), int(cs == 'Equal'))
                        I.assume(st, lt(y, x), int(cs == 'Greater'))
                        xs[f] = (x, y) if f == 'offset' else (tid(x), tid(y))
                    args = [I.alloc(st, ('agg', FO, '', tuple((f, xs[f][i]) for f in fs))) for i in (0, 1)]
                    outs = I.run(b, args, st)
                    ctx.used(I, outs)
                    want = a if a != 'Equal' else c
                    ctx.ob('order', f'ForestKey::{n}', bool(outs) and all(ordering(I, o) == want for o in outs), f'with tree {a} and offset {c} it is {[ordering(I, o) for o in outs]}')
