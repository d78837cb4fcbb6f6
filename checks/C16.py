"""Everything written to disk or sent to the server is read back as it was."""
import itertools
import re
from engine.interp import St, int_range
from engine.models import NONE, some
from engine.terms import *
from checks.speedy_model import Codec, PRIM, plain

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR: for every type that is both written and read, and every variant of it, the writer is run on symbolic fields '
                   'and logs a sequence of typed items, which the reader is then run on; the items must agree in type and number and the value rebuilt must be the one written. '
                   'Component types are taken as units, each being judged by itself.',
    'assumptions': ['speedy encodes and decodes primitive types, lengths and standard collections inversely', 'no name, value or list has 2^32 elements',
                    'file names are made from the bytes they are stored as'],
}
IN_MEMORY = {('tree::node::TreePtr', 'Mem'), ('tree::node::TreePtr', 'None')}
ERROR = 'types::Error'         # unknown errors are read as EUNKNOWN
CREDIT = 'writeback::writeback::Credit'


def run(ctx):
    C = Codec(ctx)
    for ty in sorted(set(C.R) & set(C.W)):
        with ctx.rule('round trip', ty):
            one(ctx, C, ty)
    ctx.ob('round trip', 'types', len(set(C.R) & set(C.W)) > 40, 'hardly any type is both written and read')


def one(ctx, C, ty):
    adt = ctx.P.adt(ty.split('<')[0])
    tags = set()
    for v in adt['variants']:
        enum = adt['kind'] == 'enum' and len(adt['variants']) > 1
        w = f'{ty}::{v["n"]}' if enum else ty
        opts = [f[0] for f in v['f'] if plain(f[1]).startswith('std::option::Option<')]
        for pick in itertools.product((0, 1), repeat=len(opts)):
            I = C.interp()
            vals = []
            for f in v['f']:
                x = ('s', 'field ' + f[0])
                if int_range(f[1]):
                    I.ty[x] = f[1]
                I.ty[('len', x)] = (0, (1 << 32) - 1)
                m = re.fullmatch(r'\[.*; (\d+)\]', f[1])
                if m:
                    I.len_of[x] = int(m.group(1))
                if f[0] in opts:
                    x = some(x) if pick[opts.index(f[0])] else NONE
                if f[1].endswith('Credit'):
                    # only data not holding any credit are written
                    x = null(ctx)
                vals.append((f[0], x))
            val = ('agg', adt['path'], v['n'] if adt['kind'] == 'enum' else '', tuple(vals))
            roundtrip(ctx, C, ty, w, I, val, (adt['path'], v['n']) in IN_MEMORY, tags)
    if len(adt['variants']) > 1 and len(tags) > 1 and ty != ERROR:
        unknown(ctx, C, ty, tags)


def unknown(ctx, C, ty, tags):
    """Anything but the tags that are written is refused."""
    X = ('s', 'tag')
    (t,) = {x for x, _ in tags}
    ts = {v for _, v in tags}
    I = C.interp()
    I.ty[X] = t
    outs = C.read(I, ty, [(t, X)], St())
    ctx.used(I, outs)
    for o in outs:
        if o.kind == 'ret' and isagg(o.val) and o.val[2] == 'Ok':
            ctx.ob('unknown tag', ty, any(I.known(o.st, eq(X, v)) == 1 for v in ts) or any(e[0] == 'more' for e in o.st.effects()),
                   f'a tag that is never written is read as {pp(o.val)[:100]}')
    ctx.ob('unknown tag', ty, any(o.kind == 'ret' and isagg(o.val) and o.val[2] == 'Err' for o in outs), 'a tag that is never written is not refused')


def null(ctx):
    a = ctx.P.adt(CREDIT)
    return ('agg', a['path'], '', tuple((f[0], 0) for f in a['variants'][0]['f']))


def same(a, b):
    """Equal, the name of the only variant of an enum being immaterial."""
    a, b = (x[1] if isinstance(x, tuple) and x[0] == '&' else x for x in (a, b))
    if isagg(a) and isagg(b):
        return a[1] == b[1] and (a[2] == b[2] or '' in (a[2], b[2])) and len(a[3]) == len(b[3]) and all(
            x[0] == y[0] and same(x[1], y[1]) for x, y in zip(a[3], b[3]))
    for x, y in ((a, b), (b, a)):
        if isagg(x) and x[1] == 'array' and x[3] == tuple((('[]', i), proj(y, ('[]', i))) for i in range(len(x[3]))):
            return True
    return a == b


def roundtrip(ctx, C, ty, w, I, val, in_memory, tags):
    for o, toks in C.write(I, ty, val, St()):
        ctx.used(I, [o])
        if in_memory and o.kind == 'panic':
            continue
        if o.kind != 'ret' or not isagg(o.val) or o.val[2] != 'Ok':
            ctx.ob('round trip', w, False, f'it is not written: {o.kind} {pp(o.val)[:100]}')
            continue
        if toks and toks[0][0] in PRIM and isinstance(toks[0][1], int):
            tags.add(toks[0])
        I2 = C.interp()
        I2.ty.update(I.ty)
        I2.len_of.update(I.len_of)
        outs = C.read(I2, ty, toks, St())
        ctx.used(I2, outs)
        ctx.ob('round trip', w, bool(outs), 'it is not read')
        for r in outs:
            bad = [e[1] for e in r.st.effects() if e[0] in ('bad', 'more')]
            ctx.ob('round trip', w, not bad and r.st.cnt.get('at') == len(toks), f'{bad[0] if bad else "not all that is written is read"}')
            got = r.val[3][0][1] if r.kind == 'ret' and isagg(r.val) and r.val[2] == 'Ok' else r.val
            got = I2.deep(r.st, got)
            ctx.ob('round trip', w, same(got, val), f'it is read as {pp(got)[:200]}, written from {pp(val)[:200]}')
