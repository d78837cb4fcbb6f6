"""The vdev label: believed only if whole, read back as written, kept apart from its copy, the spacemap and the data."""
from engine.interp import St
from engine.mir import Missing, strip_generics
from engine.models import R, seq_value, ok, err, UNIT, NONE, some
from engine.terms import *
from checks.bytes_model import install, flat, show, arr, Unclear, merge, piece

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR over symbolic byte strings. The reader accepts a buffer only on paths that compared its magic, found its '
                   'contents inside the buffer and compared the stored checksum with the digest of length and contents; the string built by the writer, for any '
                   'contents, satisfies exactly that. Every copy of the label is tried; the places of labels, space maps and data are '
                   'compared as polynomials; each layer writes its part before handing the label down and reads it after the layer below.',
    'assumptions': ['MetroHash64 is a streaming hash: the digest depends on the concatenation of the bytes fed', 'byteorder, Cursor and the encodings of single layers (C16) are right'],
}
BUF = ('s', 'buffer')
LW, LR = 'label::LabelWriter', 'label::LabelReader'


def interp(ctx):
    I = ctx.interp()
    I.unroll = 8
    install(I)
    h = I.hooks
    h['std::io::Cursor::new'] = lambda I, st, c: R(st, ('agg', 'cursor', '', (('buf', c.args[0]), ('pos', 0))))

    def seek(I, st, c):
        v = I.load(st, c.args[0])
        w = c.args[1]
        if not (isagg(v) and v[1] == 'cursor' and isagg(w) and w[2] == 'Start'):
            return None
        I.store(st, c.args[0], ('agg', 'cursor', '', (('buf', proj(v, 'buf')), ('pos', w[3][0][1]))))
        return R(st, ok(w[3][0][1]))
    h['std::io::Seek::seek'] = seek

    def setpos(I, st, c):
        v = I.load(st, c.args[0])
        I.store(st, c.args[0], ('agg', 'cursor', '', (('buf', proj(v, 'buf')), ('pos', c.args[1]))))
        return R(st, UNIT)
    h['std::io::Cursor::set_position'] = setpos
    return I


def const(ctx, path):
    I = ctx.interp()
    outs = I.run(ctx.P.fn(path), [], St())
    return outs[0].val


def run(ctx):
    P = ctx.P
    with ctx.rule('reader', LR + '::new'):
        lay = reader(ctx)
    with ctx.rule('writer', LW + '::into_sglist'):
        writer(ctx, lay)
    with ctx.rule('order', LW + '::serialize'):
        stack(ctx)
    with ctx.rule('places', 'label'):
        places(ctx)
    with ctx.rule('every-copy', 'vdev_block::Manager::read_label'):
        copies(ctx)
    with ctx.rule('data-apart', 'vdev_file::VdevFile'):
        apart(ctx)
    with ctx.rule('layers', 'write_label'):
        layers(ctx)


def magic(ctx):
    P = ctx.P
    for k, b in P.bodies.items():
        if k.endswith('label::MAGIC'):
            return b
    raise Missing('label::MAGIC')


def reader(ctx):
    P = ctx.P
    I = interp(ctx)
    b = P.fn(LR + '::new')
    w = b['path']
    I.ty[('len', BUF)] = 'len'
    outs = I.run(b, [BUF], St())
    ctx.used(I, outs)
    good = [o for o in outs if o.kind == 'ret' and isagg(o.val) and o.val[2] == 'Ok']
    ctx.ob('reader', w, len(good) == 1, f'a label is accepted on {len(good)} paths')
    lay = {}
    for o in outs:
        if o.kind != 'ret':
            ctx.ob('reader', w, False, f'it may panic on what it finds on disk: {pp(o.val)[:150]}')
    for o in good:
        cur = o.val[3][0][1]
        for _ in range(3):
            if isagg(cur) and cur[1] != 'cursor':
                cur = cur[3][0][1]
        ctx.ob('reader', w, isagg(cur) and cur[1] == 'cursor' and proj(cur, 'buf') == BUF, f'what is read later is {pp(cur)[:150]}, not the buffer checked')
        start = proj(cur, 'pos')
        eqs = [k for k, v in o.st.facts.items() if v == 1 and isinstance(k, tuple) and k[0] in ('eq', 'eq0')]
        mg = [k for k in eqs if k[0] == 'eq' and any('BFFFS' in str(t) for t in k[1:])]
        at = [side(I, o.st, k) for k in mg]
        at = [x for x in at if x]
        ctx.ob('reader', w, len(at) == 1, 'a label is accepted without comparing its magic')
        dg = [k for k in eqs if k[0] == 'eq0' or k[0] == 'eq' for t in subterms(k) if isinstance(t, tuple) and t and t[0] == 'digest']
        ctx.ob('reader', w, bool(dg), 'a label is accepted without comparing its checksum')
        ctx.ob('reader', w, isinstance(start, int), f'its contents start at {pp(start)[:100]}')
        ds = {t for k in dg for t in subterms(k) if isinstance(t, tuple) and t and t[0] == 'digest'}
        ss = {t for k in dg for t in tops(k) if isinstance(t, tuple) and t and t[0] in ('beu64', 'leu64')}
        ctx.ob('reader', w, len(ds) == 1 and len(ss) == 1, 'the checksum is not compared with one that is stored')
        if not (at and len(ds) == 1 and len(ss) == 1):
            continue
        d, s = ds.pop(), ss.pop()
        lay = {'magic': at[0], 'sum': s, 'digest': d, 'start': start}
        # the digest covers a length and as many bytes of contents
        by = [x for k, x in d[1] if k == 'bytes']
        nums = [(k, x) for k, x in d[1] if k != 'bytes']
        okc = len(by) == 1 and len(by[0]) == 1 and by[0][0][0] == BUF and by[0][0][1] == start
        ctx.ob('reader', w, okc, f'the checksum does not cover the contents, but {[show(x) for x in by]}')
        if okc:
            n = sub(by[0][0][2], start)
            lay['n'] = n
            ctx.ob('reader', w, isinstance(n, tuple) and n[0] in ('beu64', 'leu64') and len(n[1]) == 1 and n[1][0][0] == BUF, f'the length of its contents is {pp(n)[:100]}, which is not stored')
            ctx.ob('reader', w, any(n in subterms(x) for _, x in nums), 'the checksum does not cover the length')
            ctx.ob('reader', w, I.known(o.st, lt(('len', BUF), by[0][0][2])) == 0, 'the contents may extend beyond the buffer')
    for o in outs:
        if o in good or o.kind != 'ret':
            continue
        ctx.ob('reader', w, isagg(o.val) and o.val[2] == 'Err', f'it returns {pp(o.val)[:80]}')
    return lay


def tops(k):
    """The terms compared in an equality."""
    if k[0] == 'eq':
        return k[1:]
    out = []
    for m in poly(k[1]):
        out.extend(m)
    return out


def side(I, st, k):
    """The part of the buffer that is compared with the magic."""
    for t in k[1:]:
        if mentions(t, BUF):
            try:
                f = flat(I, st, t)
            except Unclear:
                return None
            if len(f) == 1 and f[0][0] == BUF:
                return (f[0][1], f[0][2])
    return None


def writer(ctx, lay):
    """What the writer builds is what the reader accepts."""
    P = ctx.P
    b = P.fn(LW + '::into_sglist')
    w = b['path']
    for n in (0, 1, 2, 3):
        I = interp(ctx)
        st = St()
        st.cnt['n'] = 0
        parts = [('s', f'part{i}') for i in range(n)]
        for p in parts:
            I.ty[('len', p)] = 'len'
        lw = ('agg', LW, '', tuple((f[0], arr(parts) if 'u32' not in f[1] else ('s', 'label')) for f in P.adt(LW)['variants'][0]['f']))
        outs = I.run(b, [lw], st)
        ctx.used(I, outs)
        rets = [o for o in outs if o.kind == 'ret']
        ctx.ob('writer', w, bool(rets), 'it never returns')
        for o in outs:
            if o.kind != 'ret':
                # only a label that does not fit may be refused
                size = const(ctx, 'label::LABEL_SIZE')
                tot = total(lay.get('start', 32), parts)
                ctx.ob('writer', w, I.known(o.st, lt(size, tot)) == 1, f'it may panic for a label that fits: {pp(o.val)[:150]}')
        for o in rets:
            v = I.deep(o.st, o.val)
            whole = ()
            for x in flat_list(v):
                whole += tuple(flat(I, o.st, x))
            pos, bad = 0, None
            want = list(reversed(parts))
            got = {}
            contents = []
            for s, a, z in whole:
                if isinstance(pos, int) and pos < lay['start']:
                    got[pos] = (s, a, z)
                else:
                    contents.append((s, a, z))
                pos = add(pos, sub(z, a))
            exp = [(p, 0, ('len', p)) for p in want]
            ctx.ob('writer', w, contents == exp, f'the contents are {show(contents)}, expected {show(exp)}')
            tlen = total(0, parts)
            # what the reader finds in its places
            mg = got.get(lay['magic'][0])
            ctx.ob('writer', w, mg is not None and 'BFFFS' in str(mg[0]) and sub(mg[2], mg[1]) == sub(lay['magic'][1], lay['magic'][0]), f'the magic is {show([mg]) if mg else None}')
            ln = field(lay, 'n', got)
            ctx.ob('writer', w, ln == tlen, f'the length stored is {pp(ln)[:100]}, expected {pp(tlen)[:100]}')
            dg = field(lay, 'sum', got)
            exp = subst_digest(I, o.st, lay, tlen, tuple((p, 0, ('len', p)) for p in want))
            ctx.ob('writer', w, dg == exp, f'the checksum stored is {pp(dg)[:200]}, expected {pp(exp)[:200]}')
            used = {lay['magic'][0], lay['n'][1][0][1], lay['sum'][1][0][1]}
            ctx.ob('writer', w, set(got) == used, f'the header has fields at {sorted(map(str, got))}, the reader knows {sorted(map(str, used))}')


def total(n, parts):
    for p in parts:
        n = add(n, ('len', p))
    return n


def field(lay, name, got):
    """The integer that the writer put where the reader takes field `name` from."""
    t = lay[name]
    g = got.get(t[1][0][1])
    if g is None or not (isinstance(g[0], tuple) and g[0][0] == 'enc'):
        return None
    # an encoding of another byte order is not what the reader decodes
    return g[0][2] if g[0][1] == t[0] and (g[1], g[2]) == (0, 8) else ('swapped', g[0][2])


def subst_digest(I, st, lay, total, parts):
    out = []
    for k, x in lay['digest'][1]:
        if k == 'bytes':
            if parts:
                out.append((k, tuple(p for p in parts)))
        else:
            out.append((k, subst(x, lambda t: total if t == lay['n'] else None)))
    return ('digest', tuple(out))


def stack(ctx):
    """serialize() puts what it encodes on top of what was there."""
    P = ctx.P
    b = P.fn(LW + '::serialize')
    I = interp(ctx)
    enc = ('s', 'encoding')

    def wtv(I, st, c):
        return R(st.copy(), ok(enc)) + R(st, err(('s', 'failure')))
    I.hooks['speedy::Writable::write_to_vec'] = wtv
    I.hooks['speedy::Writable::write_to_vec_with_ctx'] = wtv
    st = St()
    a = ('s', 'part0')
    lw = ('agg', LW, '', tuple((f[0], arr([a]) if 'u32' not in f[1] else ('s', 'label')) for f in P.adt(LW)['variants'][0]['f']))
    ref = I.alloc(st, lw)
    outs = I.run(b, [ref, ('in', 't')], st)
    ctx.used(I, outs)
    for o in outs:
        if o.kind == 'ret':
            good = isagg(o.val) and o.val[2] == 'Ok'
            v = I.deep(o.st, I.load(o.st, ref))
            bufs = [x for k, x in v[3] if isagg(x) and x[1] == 'array' or isinstance(x, tuple) and x[0] in ('push', 'concat')][0]
            ps = flat_list(bufs)
            ctx.ob('order', b['path'], ps == ([a, enc] if good else [a]), f'the parts are {[pp(x)[:50] for x in ps]} {"" if good else "after a failure"}')
    ctx.ob('order', b['path'], any(o.kind == 'ret' for o in outs), 'it never returns')
    # reading goes on from where the last part ended
    b = P.fn(LR + '::deserialize')
    I = interp(ctx)
    st = St()
    seen = []

    def rd(I, st, c):
        seen.append(I.deep(st, c.args[0]) if c.args else None)
        st.log('decode', c.args[0])
        return R(st, ('s', 'result'))
    for n in ('read_from_stream_unbuffered', 'read_from_stream_unbuffered_with_ctx', 'read_from_stream_buffered'):
        I.hooks['speedy::Readable::' + n] = rd
    cur = ('agg', 'cursor', '', (('buf', BUF), ('pos', ('s', 'pos'))))
    ref = I.alloc(st, ('agg', LR, '', tuple((f[0], cur) for f in P.adt(LR)['variants'][0]['f'])))
    outs = I.run(b, [ref], st)
    ctx.used(I, outs)
    for o in outs:
        e = [x for x in o.st.effects() if x[0] == 'decode']
        good = o.kind == 'ret' and len(e) == 1 and isinstance(e[0][1], tuple) and e[0][1][0] == 'ref' and e[0][1][1] == ref[1] and o.val == ('s', 'result')
        ctx.ob('order', b['path'], good, 'the next part is not read from the cursor of the label')


def flat_list(v):
    if isagg(v):
        return [x for _, x in v[3]]
    if v[0] == 'push':
        return flat_list(v[1]) + [v[2]]
    if v[0] == 'concat':
        return flat_list(v[1]) + flat_list(v[2])
    return [v]


def places(ctx):
    P = ctx.P
    count, lbas, per = const(ctx, 'label::LABEL_COUNT'), const(ctx, 'label::LABEL_LBAS'), const(ctx, 'label::SPACEMAP_ZONES_PER_LBA')
    size = const(ctx, 'label::LABEL_SIZE')
    bpl = const(ctx, 'util::BYTES_PER_LBA')
    ctx.ob('places', 'label::LABEL_SIZE', size == lbas * bpl, f'LABEL_SIZE is {size}, {lbas} blocks of {bpl}')
    lab = ('s', 'label')
    for path, arg in ((LR + '::lba', 0), (LW + '::lba', 1)):
        I = interp(ctx)
        st = St()
        I.ty[lab] = 'u32'
        b = P.fn(path)
        a = lab
        if arg:
            a = I.alloc(st, ('agg', LW, '', tuple((f[0], lab if 'u32' in f[1] else ('s', 'bufs')) for f in P.adt(LW)['variants'][0]['f'])))
        outs = I.run(b, [a], st)
        ctx.used(I, outs)
        for o in outs:
            if o.kind == 'ret':
                ctx.ob('places', path, o.val == mul(lbas, lab), f'label n is at {pp(o.val)[:80]}, expected {lbas}*n')
            else:
                ctx.ob('places', path, not arg and I.known(o.st, lt(lab, count)) == 0, f'it may refuse a label that exists: {pp(o.val)[:80]}')
        ctx.ob('places', path, any(o.kind == 'ret' for o in outs), 'it never returns')
    b = P.fn(LW + '::new')
    I = interp(ctx)
    I.ty[lab] = 'u32'
    outs = I.run(b, [lab], St())
    ctx.used(I, outs)
    for o in outs:
        if o.kind == 'ret':
            v = dict(o.val[3])
            ctx.ob('places', b['path'], lab in v.values() and all(x == lab or x == arr([]) or isagg(x) and not x[3] for x in v.values()), f'a new writer is {pp(o.val)[:120]}')
            ctx.ob('places', b['path'], I.known(o.st, lt(lab, count)) == 1, 'a label beyond the last may be written')
        else:
            ctx.ob('places', b['path'], I.known(o.st, lt(lab, count)) == 0, 'it may refuse a label that exists')
    b = P.fn('label::spacemap_space')
    I = interp(ctx)
    n = ('s', 'zones')
    I.ty[n] = (1, 1 << 48)
    outs = I.run(b, [n], St())
    ctx.used(I, outs)
    for o in outs:
        x = mul(per, o.val) if o.kind == 'ret' else None
        good = x is not None and I.known(o.st, lt(x, n)) == 0 and I.known(o.st, lt(sub(x, per), n)) == 1
        if not good and o.kind == 'ret':
            good = ceil_of(I, o.st, o.val, n, per)
        ctx.ob('places', b['path'], good, f'the space map of n zones takes {pp(o.val)[:100]} blocks, expected n/{per} rounded up')


def ceil_of(I, st, v, n, per):
    lo, hi = I.rng(sub(mul(per, v), n), st)
    return lo is not None and lo >= 0 and hi is not None and hi < per


def copies(ctx):
    """Every copy of the label is tried before an import is refused."""
    P = ctx.P
    count, lbas, size = const(ctx, 'label::LABEL_COUNT'), const(ctx, 'label::LABEL_LBAS'), const(ctx, 'label::LABEL_SIZE')
    b = P.fn('vdev_block::Manager::read_label')
    I = interp(ctx)

    def read_at(I, st, c):
        r, p = I.deref(st, c.args[1])
        v = seq_value(I, st, r, p)
        while p and isinstance(p[-1], tuple) and p[-1][0] == 'sub':
            p = p[:-1]
        st.log('read', c.args[2], I.length(v) if v == I.read(st, r, p) else None)
        k = st.cnt['reads'] = st.cnt.get('reads', 0) + 1
        x = ('s', f'data{k}')
        I.write(st, r, p, x)
        a, z = st.copy(), st
        z.log('failed')
        out = []
        for s, v in ((a, ok(('s', f'read{k}'))), (z, err(('s', f'failure{k}')))):
            out += R(s, ok(('agg', 'fut:ready', '', (('0', v),))))
        return out

    def new(I, st, c):
        v = c.args[0]
        st.log('parse', v)
        a, z = st.copy(), st
        a.log('valid', v)
        z.log('invalid', v)
        return R(a, ok(('label', v))) + R(z, err(('invalid', v)))
    I.hooks['tokio_file::AioFileExt::read_at'] = read_at
    I.hooks['std::convert::From::from'] = lambda I, st, c: R(st, ('error', c.args[0])) if c.retty.endswith('types::Error') else None
    I.hooks[LR + '::new'] = new
    st = St()
    outs = []
    for o in I.run(b, [('in', 'f')], st):
        outs.extend(I.run_future(o.st, o.val) if o.kind == 'ret' else [o])
    ctx.used(I, outs)
    w = b['path']
    n = 0
    for o in outs:
        if o.kind != 'ret':
            continue
        n += 1
        e = o.st.effects()
        reads = [x for x in e if x[0] == 'read']
        ctx.ob('every-copy', w, [x[1] for x in reads] == [i * lbas * 4096 for i in range(len(reads))] and all(x[2] == size for x in reads), f'it reads {[(pp(x[1]), pp(x[2])) for x in reads]}')
        valid = [x[1] for x in e if x[0] == 'valid']
        v = o.val
        if isagg(v) and v[2] == 'Ok':
            ctx.ob('every-copy', w, len(valid) == 1 and v[3][0][1] == ('label', valid[0]), f'it returns {pp(o.val)[:100]}, which was not found valid')
        else:
            ctx.ob('every-copy', w, len(reads) == count and not valid, f'an import is refused after {len(reads)} of {count} labels{", one of them valid" * bool(valid)}')
    ctx.ob('every-copy', w, n >= 2, f'{n} outcomes')


VF = 'vdev_file::VdevFile'


def apart(ctx):
    """Data never lies below the reserved space, a space map never beyond it, and a label only in its own place."""
    P = ctx.P
    count, lbas = const(ctx, 'label::LABEL_COUNT'), const(ctx, 'label::LABEL_LBAS')
    fs = P.adt(VF)['variants'][0]['f']
    SM = ('s', 'spacemap_space')
    lba = ('s', 'lba')

    def self_(I, st):
        I.ty.update({SM: (0, 1 << 40), lba: (0, 1 << 50)})
        return I.alloc(st, ('agg', VF, '', tuple((f[0], SM if f[0] == 'spacemap_space' else ('s', f[0])) for f in fs)))
    ctx.ob('data-apart', VF, any(f[0] == 'spacemap_space' for f in fs), 'no field for the size of the space map')
    I = interp(ctx)
    st = St()
    outs = I.run(reserved(P), [self_(I, st)], st)
    res = outs[0].val
    want = mul(count, add(lbas, SM))
    ctx.ob('data-apart', VF + '::reserved_space', len(outs) == 1 and res == want, f'the reserved space is {pp(res)[:100]}, expected {pp(want)[:100]}')
    segs = [('s', 'seg0'), ('s', 'seg1')]

    def drive(name, mk):
        I = interp(ctx)
        st = St()
        me = self_(I, st)

        def io(I, st, c):
            off = c.args[2] if len(c.args) > 2 else None
            st.log('io', c.name.split('::')[-1], I.deep(st, c.args[1]), off)
            return R(st, ok(('s', 'aio')))
        for n in ('write_at', 'writev_at', 'read_at', 'readv_at'):
            I.hooks['tokio_file::AioFileExt::' + n] = io
        for s in segs:
            I.ty[('len', s)] = 'len'
        b = P.method(r'vdev_file::VdevFile\b.*', name)
        outs = I.run(b, [me] + mk(I, st), st)
        ctx.used(I, outs)
        n = 0
        for o in outs:
            for e in o.st.effects():
                if e[0] == 'io':
                    n += 1
                    yield I, o, b['path'], e
        ctx.ob('data-apart', b['path'], n > 0, 'it writes nothing')
    for nm, mk in (('write_at', lambda I, st: [segs[0], lba]), ('writev_at', lambda I, st: [arr(segs), lba])):
        for I, o, w, e in drive(nm, mk):
            ctx.ob('data-apart', w, I.known(o.st, lt(lba, want)) == 0, 'data may be written over the labels or space maps')
            ctx.ob('data-apart', w, e[3] == mul(4096, lba), f'block n is written at byte {pp(e[3])[:80]}')
            ctx.ob('data-apart', w, [x for x in segs if x in set(subterms(e[2]))] == ([segs[0]] if nm == 'write_at' else segs), 'not everything is written')
    tot = total(0, segs)
    for I, o, w, e in drive('write_spacemap', lambda I, st: [arr(segs), lba]):
        # lba*4096 + bytes <= reserved*4096, for whole blocks
        blocks = ('s', 'blocks')
        okk = I.known(o.st, lt(want, add(lba, I.fdiv(o.st, tot, 4096)))) == 0
        ctx.ob('data-apart', w, okk, 'a space map may be written beyond the reserved space')
        ctx.ob('data-apart', w, e[3] == mul(4096, lba), f'block n is written at byte {pp(e[3])[:80]}')

    lab = ('s', 'label')

    pads = [('s', 'padded0'), ('s', 'padded1')]

    def lw(I, st):
        I.ty[lab] = 'u32'
        for s in pads:
            I.ty[('len', s)] = 'len'
        I.hooks[LW + '::into_sglist'] = lambda I, st, c: R(st, arr(segs))
        for nm in ('copy_and_pad_sglist',):
            def padded(I, st, c):
                return R(st, arr(pads) if flat_list(I.deep(st, c.args[0])) == segs else ('s', 'other'))
            I.hooks['util::' + nm] = padded
        return [('agg', LW, '', tuple((f[0], lab if 'u32' in f[1] else ('s', 'bufs')) for f in P.adt(LW)['variants'][0]['f']))]
    for I, o, w, e in drive('write_label', lw):
        ctx.ob('data-apart', w, e[3] == mul(4096 * lbas, lab), f'label n is written at byte {pp(e[3])[:80]}')


def reserved(P):
    return P.method(r'vdev_file::VdevFile\b.*', 'reserved_space')


def layers(ctx):
    """Each layer adds its own part once, before it hands the label down; the part it adds is the one it looks for, filled from its own fields."""
    P = ctx.P
    wrote, looked = {}, {}
    for k, b in P.bodies.items():
        for bb in b['blocks']:
            t = bb['t']
            f = callee(t)
            if f and f.get('p') in (LW + '::serialize', LR + '::deserialize'):
                d = wrote if f['p'].startswith(LW) else looked
                ty = [a for a in f['a'] if not a.startswith("'")]
                d.setdefault(ty[0] if ty else '?', []).append(b)
    ctx.floor('layers', 'label types', len(wrote), 6)
    for ty in sorted(set(wrote) | set(looked)):
        ctx.ob('layers', ty, ty in wrote and ty in looked, f'it is {"never read" if ty in wrote else "read but never written"}')
    for ty, names, label, below in LAYERS:
        for b in P.fns(lambda b: b.get('name') in names and strip_generics(b.get('self') or '') == ty):
            with ctx.rule('layers', b['path']):
                layer(ctx, b, label, below)
    ctx.floor('layers', 'functions that pass a label on', ctx.rules.get('label-stack', [0])[0], 14)

    with ctx.rule('layers', 'idml::idml::IDML::open'):
        b = P.fn('idml::idml::IDML::open')
        I = interp(ctx)
        lab = ('s', 'label')
        I.hooks[LR + '::deserialize'] = lambda I, st, c: R(st, ok(lab))
        for x in P.fns(lambda x: x['path'].startswith('tree::tree::Tree') and x.get('name') == 'open'):
            I.hooks[strip_generics(x['path'])] = lambda I, st, c: R(st, ('opened', I.deep(st, c.args[-1])))
        outs = I.run(b, [('in', f'a{i}') for i in range(b['argc'])], St())
        ctx.used(I, outs)
        fs = {'alloct', 'ridt', 'next_rid'}
        for o in outs:
            if o.kind != 'ret':
                continue
            v = I.deep(o.st, o.val)
            v = next((x for _, x in v[3] if isagg(x) and x[1] == 'idml::idml::IDML'), None) if isagg(v) else None
            got = dict(v[3]) if v else {}
            for f in sorted(fs | {'transaction'}):
                ws = words(got.get(f), set()) & (fs | {'txg'})
                ctx.ob('label-fields', b['path'], ws == {'txg' if f == 'transaction' else f}, f'{f} is restored from {sorted(ws)}')


# who passes a label on, the part it adds, to whom
LAYERS = (
    ('database::database::Inner', ('write_label',), 'database::database::Label', 'idml::idml::IDML'),
    ('idml::idml::IDML', ('write_label',), 'idml::idml::Label', 'ddml::ddml::DDML'),
    ('ddml::ddml::DDML', ('write_label',), None, 'pool::Pool'),
    ('pool::Pool', ('write_label',), 'pool::Label', 'cluster::Cluster'),
    ('cluster::Cluster', ('write_label',), None, 'raid::'),
    ('raid::RaidImpl', ('write_label', 'repair_label'), None, 'raid::'),
    ('raid::vdev_raid::VdevRaid', ('write_label', 'repair_label'), 'raid::Label', 'raid::vdev_raid::Child'),
    ('raid::null_raid::NullRaid', ('write_label', 'repair_label'), 'raid::Label', 'mirror::Mirror'),
    ('raid::vdev_raid::Child', ('write_label', 'repair_label'), None, 'mirror::Mirror'),
    ('mirror::Mirror', ('write_label',), 'mirror::Label', 'mirror::Child'),
    ('mirror::Child', ('write_label', 'repair_label'), None, 'vdev_block::VdevBlock'),
    ('vdev_block::VdevBlock', ('write_label',), 'vdev_block::Label', 'vdev_block::BlockOp'),
)


def layer(ctx, b, label, below):
    P = ctx.P
    w = b['path']
    I = interp(ctx)
    I.unroll = None
    st = St()
    first = label and label.startswith('database')
    lw = ('s', 'labeller')

    def new(I, st, c):
        return R(st, ('new', c.args[0]))

    def ser(I, st, c):
        r = c.args[0]
        v = I.load(st, r)
        I.store(st, r, ('part', c.gen[0] if c.gen else '', v, I.deep(st, c.args[1])))
        return R(st, ok(UNIT))

    def down(I, st, c):
        ls = [i for i, t in enumerate(c.argtys) if t == LW]
        st.log('down', I.deep(st, c.args[ls[0]]), tuple(I.deep(st, a) for i, a in enumerate(c.args) if i not in ls))
        return R(st, ('s', 'written'))
    I.hooks[LW + '::new'] = new
    I.hooks[LW + '::serialize'] = ser
    for x in P.fns(lambda x: x.get('name') in ('write_label', 'repair_label') and x['path'] != w):
        mine = strip_generics(x['self'] or '') if x.get('self') else ''
        if mine.startswith(below):
            I.hooks[x['path']] = I.hooks[strip_generics(x['path'])] = down
    if below == 'raid::':
        I.hooks['raid::vdev_raid_api::VdevRaidApi::write_label'] = I.hooks['raid::vdev_raid_api::VdevRaidApi::repair_label'] = down
    args = []
    for i, l in enumerate(b['locals'][1:1 + b['argc']]):
        args.append(lw if l['ty'] == LW else ('in', f'a{i}'))
    outs = []
    for o in I.run(b, args, st):
        outs.extend(I.run_future(o.st, o.val) if o.kind == 'ret' and isagg(o.val) and o.val[1].startswith('fut:then') else [o])
    ctx.used(I, outs)
    want = ('new', ('in', 'a2')) if first else lw
    n = 0
    for o in outs:
        if o.kind != 'ret':
            continue
        top = [e for e in o.st.effects() if e[0] == 'down']
        inl = [e[1] for e in o.st.effects() if e[0] == 'loop' and any(x[0] == 'down' for it in e[1].iters for x in it[2])]
        downs = top + [x for l in inl for it in l.iters for x in it[2] if x[0] == 'down']
        if not downs:
            # nobody to hand it to: the caller is told
            told = isagg(o.val) and (o.val[2] == 'None' or 'Err' in pp(I.deep(o.st, o.val)))
            ctx.ob('layers', w, told, 'the label is not handed down')
            continue
        n += 1
        once = len(top) == 1 and not inl or not top and len(inl) == 1 and all(len([x for x in it[2] if x[0] == 'down']) == 1 for it in inl[0].iters)
        ctx.ob('layers', w, once, 'the label is not handed down exactly once to everyone below')
        for l in inl:
            pinned = [v for k, v in o.st.facts.items() if k[0] == 'pinned' and k[1] in l.carried.values()]
            ctx.ob('layers', w, bool(pinned) and all(v == 0 for k, v in l.entry.items() if l.carried[k] in [k2[1] for k2 in o.st.facts if k2[0] == 'pinned']), 'the label is not handed to everyone below')
        for _, v, others in downs:
            if label is None:
                ctx.ob('label-stack', w, v == want, f'it hands down {pp(v)[:120]}, not the label it was given')
                continue
            mine = isinstance(v, tuple) and v[0] == 'part' and v[1] == label and v[2] == want
            ctx.ob('label-stack', w, mine, f'it hands down {pp(v)[:120]}, not the label it was given with its own part on top')
            if mine and not first:
                fields(ctx, P, b, I.deep(o.st, v[3]), label)
    ctx.ob('layers', w, n > 0, 'the label is never handed down')


def words(v, out):
    if isinstance(v, str):
        out.add(v)
    elif isinstance(v, tuple):
        for x in v:
            words(x, out)
    return out


def fields(ctx, P, b, v, label):
    """The part of a layer is filled from the fields of the same names."""
    if isinstance(v, tuple) and v[0] == '&':
        v = v[1]
    if isagg(v) and v[2] and len(v[3]) == 1:
        v = v[3][0][1]      # one of the kinds of RAID
    own = {f[0] for f in P.adt(strip_generics(b['self']))['variants'][0]['f']}
    both = {k for k, _ in v[3]} & own - {'uuid', 'txg', 'children', 'child'}
    for k, x in v[3]:
        ws = words(x, set())
        if k == 'txg':
            ts = [('in', f'a{i}') for i, l in enumerate(b['locals'][1:1 + b['argc']]) if l['ty'].endswith('TxgT')]
            ctx.ob('label-fields', label, x in ts, f'{k} is {pp(x)[:80]}')
        elif k in both:
            ctx.ob('label-fields', label, k in ws and not (both - {k}) & ws, f'{k} is taken from {sorted(ws & both)}')
        elif k == 'uuid':
            ctx.ob('label-fields', label, x == ('.', ('*', ('in', 'a0')), 'uuid'), f'{k} is {pp(x)[:80]}')


def callee(t):
    if t[0] == 'call' and isinstance(t[1], dict) and isinstance(t[1].get('k'), dict):
        return t[1]['k'].get('fn')
    return None
