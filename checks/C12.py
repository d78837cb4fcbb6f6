"""Cursor over scattered buffers: every byte exactly once, in order, in pieces no longer than asked for."""
import itertools
from engine.interp import St
from engine.mir import Missing, strip_generics
from engine.models import R, NONE, seq_value
from engine.terms import *

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR. The abstract state of a cursor is (segment, offset in it). From any state inside a segment, for any '
                   'maximum, each operation must return exactly the bytes from the offset on, as many as fit both the maximum and the segment, and move '
                   'to just past them; by induction the pieces returned concatenate to the scattered buffer. Judged for all buffers and histories.',
    'assumptions': ['no segment of a scattered buffer is empty', 'DivBuf::slice and its relatives return the bytes of their range'],
}
CUR = r'raid::sgcursor::SGCursor'
LST, IDX, OFF, MAX = [('s', x) for x in ('segments', 'segment', 'offset', 'max')]


def part(v, a, z, n):
    if a == 0 and z == n:
        return v
    if isinstance(v, tuple) and v[0] == 'sub':
        return ('sub', v[1], add(v[2], a), add(v[2], z))
    return ('sub', v, a, z)


def interp(ctx):
    I = ctx.interp()
    for x in (IDX, OFF, MAX):
        I.ty[x] = 'usize'

    def sl(I, st, c):
        r, p = I.deref(st, c.args[0])
        v = I.read(st, r, p)
        n = I.length(v)
        nm = c.name.split('::')[-1]
        a = 0 if nm == 'slice_to' else c.args[1]
        z = c.args[2] if nm == 'slice' else c.args[1] if nm == 'slice_to' else n
        return R(st, part(v, a, z, n))
    for nm in ('slice', 'slice_from', 'slice_to'):
        I.hooks['divbuf::DivBuf::' + nm] = sl
    I.hooks['divbuf::DivBuf::len'] = lambda I, st, c: R(st, I.length(I.load(st, c.args[0])))
    I.hooks['divbuf::DivBuf::is_empty'] = lambda I, st, c: R(st, eq(I.length(I.load(st, c.args[0])), 0))
    return I


def methods(ctx):
    out = {}
    for b in ctx.P.fns(lambda b: b['path'].startswith('raid::sgcursor::') or 'SGCursor' in (b.get('self') or '')):
        out.setdefault(b.get('name'), b)
    for n in ('next', 'peek_len', 'from'):
        if n not in out:
            raise Missing(f'SGCursor::{n}')
    return out


def run(ctx):
    ms = methods(ctx)
    adt = ctx.P.adt('raid::sgcursor::SGCursor')
    fs = adt['variants'][0]['f']
    lf = [x[0] for x in fs if '[' in x[1] or 'IoVec' in x[1] or 'DivBuf' in x[1]]
    nf = [x[0] for x in fs if x[1] == 'usize']
    if len(lf) != 1 or len(nf) != 2 or len(fs) != 3:
        raise Missing('the cursor is not a list of segments, a segment and an offset')
    # which of the two numbers is which: the one for which the rule holds
    best = None
    for a, b in itertools.permutations(nf):
        sub_ = type(ctx)(ctx.P, ctx.prop, ctx.tier, ctx.seed)
        with sub_.rule('cursor', 'SGCursor'):
            judge(sub_, ms, adt['path'], [x[0] for x in fs], lf[0], a, b)
        if best is None or len(sub_.viol) < len(best.viol):
            best = sub_
    for k in ('viol', 'rules', 'functions', 'paths', 'call_sites', 'unmodelled', 'counts'):
        setattr(ctx, k, getattr(best, k))


def cursor(adt, order, lf, a, b, ref, ix, off):
    d = {lf: ref, a: ix, b: off}
    return ('agg', adt, '', tuple((k, d[k]) for k in order))


def judge(ctx, ms, adt, order, lf, a, b):
    # a new cursor
    I = interp(ctx)
    st = St()
    src = I.alloc(st, LST)
    fb = ms['from']
    outs = I.run(fb, [src], st)
    ctx.used(I, outs)
    for o in outs:
        f = dict(o.val[3]) if o.kind == 'ret' and isagg(o.val) else {}
        got = f.get(lf)
        base = seq_value(I, o.st, *I.deref(o.st, got)) if got is not None else None
        ctx.ob('start', 'SGCursor::from', f.get(a) == 0 and f.get(b) == 0, f'a new cursor is at segment {pp(f.get(a))}, offset {pp(f.get(b))}')
        ctx.ob('start', 'SGCursor::from', base == LST or mentions(base, LST) and 'as_ref' in str(base) or mentions(got, LST),
               f'a new cursor is over {pp(base)[:100]}')
    ctx.ob('start', 'SGCursor::from', len(outs) == 1 and outs[0].kind == 'ret', 'making a cursor does not simply return')
    n = ('len', LST)
    seg = ('.', LST, ('[]', IDX))
    size = ('len', seg)
    for inside in (1, 0):
        I = interp(ctx)
        st = St()
        I.ty.setdefault(n, 'len')
        I.ty.setdefault(size, 'len')
        src = I.alloc(st, LST)
        if inside:
            I.assume(st, lt(IDX, n))
            I.assume(st, lt(OFF, size))
            me = cursor(adt, order, lf, a, b, src, IDX, OFF)
        else:
            # past the last segment there is no offset
            me = cursor(adt, order, lf, a, b, src, n, 0)
        ref = I.alloc(st, me)
        where = 'inside a segment' if inside else 'at the end'
        left = sub(size, OFF) if inside else 0
        outs = I.run(ms['peek_len'], [ref], st.copy())
        ctx.used(I, outs)
        ctx.ob('peek', f'SGCursor::peek_len {where}', len(outs) == 1 and outs[0].kind == 'ret' and outs[0].val == left,
               f'{where} it is {[pp(o.val)[:100] for o in outs]}, expected {pp(left)}')
        outs = []
        for v in (1, 0) if inside else (None,):
            s2 = st.copy()
            if v is not None:
                I.assume(s2, lt(MAX, left), v)
            outs += I.run(ms['next'], [ref, MAX], s2)
        ctx.used(I, outs)
        w = f'SGCursor::next {where}'
        ctx.ob('returns', w, bool(outs) and all(o.kind == 'ret' for o in outs), 'it may panic')
        for o in outs:
            if o.kind != 'ret':
                continue
            now = I.deep(o.st, I.load(o.st, ref))
            f = dict(now[3])
            lists = seq_value(I, o.st, *I.deref(o.st, dict(I.load(o.st, ref)[3])[lf]))
            ctx.ob('segments', w, lists == LST, 'the segments change')
            if not inside:
                ctx.ob('end', w, o.val == NONE, f'it returns {pp(o.val)[:100]}')
                ctx.ob('end', w, f.get(a) == n and f.get(b) == 0, 'it moves past the end')
                continue
            fits = I.known(o.st, lt(MAX, left))
            take = MAX if fits else left
            want = part(seg, OFF, add(OFF, take), size) if I.known(o.st, eq(OFF, 0)) != 1 else part(seg, 0, take, size)
            got = o.val[3][0][1] if isagg(o.val) and o.val[2] == 'Some' else None
            got = I.deep(o.st, got) if got is not None else None
            zero = I.known(o.st, eq(OFF, 0)) == 1
            ok = got == want or zero and got is not None and subst(got, lambda x: 0 if x == OFF else None) == subst(want, lambda x: 0 if x == OFF else None) \
                or zero and not fits and got == seg
            ctx.ob('piece', w + (' (part)' if fits else ' (rest)'), ok, f'it returns {pp(got)[:150]}, expected {pp(want)[:150]}')
            to = (IDX, add(OFF, take)) if fits else (add(IDX, 1), 0)
            at = (f.get(a), f.get(b))
            if zero:
                z = lambda t: subst(t, lambda x: 0 if x == OFF else None)
                at, to = (z(at[0]), z(at[1])), (z(to[0]), z(to[1]))
            ctx.ob('moves', w + (' (part)' if fits else ' (rest)'), at == to, f'it moves to {[pp(x)[:100] for x in at]}, expected {[pp(x) for x in to]}')
