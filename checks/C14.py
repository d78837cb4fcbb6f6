"""Dataset properties: the text form and the typed form of names, values and sources agree."""
from engine.interp import St, int_range
from engine.mir import Missing, strip_generics
from engine.models import R, PANIC, NONE, ok, err, some, UNIT
from engine.terms import *

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR over a partition of all texts: each literal the property syntax knows, and any other text; for numbers each '
                   'power of two, the one misprint still accepted, and any other number. On every class the parsers must give the specified result, the '
                   'printers must print a text the parsers take back to the value printed, and the typed accessors must return what was stored.',
    'assumptions': ['str and integer parsing and printing of the standard library are inverse to each other'],
}
P_, N_, S_, E_ = ('property::' + x for x in ('Property', 'PropertyName', 'PropertySource', 'ParsePropertyError'))
NAMES = {'Atime': ['atime'], 'BaseMountpoint': ['basemountpoint'], 'Mountpoint': ['mountpoint'], 'Name': ['name'], 'RecordSize': ['recordsize', 'recsize']}
TRUE, FALSE = ['on', 'true'], ['off', 'false']
LEAST, MOST = 12, 20
MISPRINT = 1048776
MEANT = {x for v in NAMES.values() for x in v} | {*TRUE, *FALSE, 'none', 'default', 'local', 'inherited'}
NAMELEN = ('s', 'length of the name')
OTHER, VAL, NUM, PAY = ('s', 'other text'), ('s', 'text'), ('s', 'number'), ('s', 'payload')


class Text:
    """An input: name=value (value None: there is no '=')."""


def kv(n, v):
    return n if v is None else ('kv', n, v)


def content(I, st, v):
    for _ in range(4):
        if isinstance(v, tuple) and v[0] == 'ref':
            v = I.load(st, v)
        elif isinstance(v, tuple) and v[0] == '&':
            v = v[1]
        else:
            break
    return v


def text(s):
    return s if isinstance(s, tuple) else ('str', s)


def interp(ctx):
    I = ctx.interp()
    known = I.known

    def other(st, c):
        if isinstance(c, tuple) and c[0] == 'eq':
            a, b = c[1], c[2]
            for x, y in ((a, b), (b, a)):
                # other texts differ from all those with a meaning
                if x in (OTHER, VAL) and isinstance(y, tuple) and y[0] == 'str' and y[1] in MEANT:
                    return 0
                if isinstance(x, tuple) and x[0] == 'numtext' and isinstance(y, tuple) and y[0] == 'str' and not y[1].isdigit():
                    return 0
        return known(st, c)
    I.known = other
    h = I.hooks

    def splitn(I, st, c):
        s = content(I, st, c.args[0])
        sep = c.args[-1]
        sep = sep if isinstance(sep, int) else content(I, st, sep)
        if sep not in (61, ('str', '=')):
            return None
        s = (s[1], s[2]) if isinstance(s, tuple) and s[0] == 'kv' else (s, None)
        nm = c.name.split('::')[-1]
        if nm == 'splitn' and c.args[1] == 2:
            items = [x for x in s if x is not None]
            ref = I.alloc(st, ('agg', 'array', '', tuple((('[]', i), I.alloc(st, x)) for i, x in enumerate(items))))
            return R(st, ('agg', 'it:into', '', (('s', ref), ('i', 0), ('e', len(items)))))
        if nm == 'split_once':
            if s[1] is None:
                return R(st, NONE)
            return R(st, some(('agg', 'tuple', '', (('0', I.alloc(st, s[0])), ('1', I.alloc(st, s[1]))))))
        if nm == 'find':
            return R(st, NONE if s[1] is None else some(NAMELEN))
        if nm == 'contains':
            return R(st, int(s[1] is not None))
        return None
    for nm in ('splitn', 'split_once', 'find', 'contains'):
        h['core::str::' + nm] = splitn
    I.ty[NAMELEN] = (0, 1 << 40)

    def index(I, st, c):
        s = content(I, st, c.args[0])
        if not (isinstance(s, tuple) and s[0] == 'kv'):
            return None
        i = dict(c.args[1][3]) if isagg(c.args[1]) else {}
        if i.get('end') == NAMELEN and i.get('start', 0) == 0:
            return R(st, I.alloc(st, s[1]))
        if i.get('start') == add(NAMELEN, 1) and 'end' not in i:
            return R(st, I.alloc(st, s[2]))
        return None
    h['std::ops::Index::index'] = index

    def to_string(I, st, c):
        v = content(I, st, c.args[0])
        if isinstance(v, tuple) and (v[0] in ('str', 'numtext') or v in (OTHER, VAL, PAY)):
            return R(st, v)
        return None
    for nm in ('std::string::ToString::to_string', 'std::borrow::ToOwned::to_owned', 'core::str::to_owned', 'std::string::String::from', 'core::str::to_string'):
        h[nm] = to_string

    def into(I, st, c):
        if c.retty.endswith('String') or c.retty == 'S':
            return to_string(I, st, c)
        return None
    h['std::convert::Into::into'] = into
    h['std::convert::From::from'] = into

    def parse(I, st, c):
        v = content(I, st, c.args[0])
        t = c.gen[0] if c.gen else ''
        if not int_range(t):
            for pre in ('std::result::Result<',):
                if c.retty.startswith(pre):
                    t = c.retty[len(pre):].split(',')[0]
        if not int_range(t):
            b = [x for x in I.P.fns(lambda b: b.get('name') == 'from_str' and strip_generics(b.get('self') or '') == strip_generics(t))]
            return I.exec_body(b[0], c.args, st) if len(b) == 1 and c.name.endswith('parse') else None
        lo, hi = int_range(t)
        bad = err(('s', 'ParseIntError'))
        if v in (OTHER, VAL) or v[0] == 'str':
            return R(st, bad)
        n = v[1]
        if isinstance(n, int):
            return R(st, ok(n) if lo <= n <= hi else bad)
        I.ty.setdefault(n, t)
        return R(st.copy(), ok(n)) + R(st, bad)
    h['core::str::parse'] = parse
    h['std::str::FromStr::from_str'] = lambda I, st, c: parse(I, st, c) if c.retty.split('<')[-1].split(',')[0] in INTS else None

    def pow2(I, st, c):
        return R(st, 0) if c.args[0] == NUM else None
    h['core::num::is_power_of_two'] = pow2

    def show(I, st, c):
        st.log('show', I.deep(st, content(I, st, c.args[0])))
        return R(st, ok(UNIT))
    h['std::fmt::Display::fmt'] = lambda I, st, c: show(I, st, c) if c.fn.get('rk') not in I.P.bodies else None

    def puts(I, st, c):
        st.log('show', I.deep(st, content(I, st, c.args[1])))
        return R(st, ok(UNIT))
    for nm in ('write_str', 'pad'):
        h['std::fmt::Formatter::' + nm] = puts
        h['std::fmt::Write::' + nm] = puts

    def fmt(I, st, c):
        a = I.deep(st, content(I, st, c.args[1]))
        st.log('show', pieces(a))
        return R(st, ok(UNIT))
    h['std::fmt::Formatter::write_fmt'] = fmt
    h['std::fmt::Write::write_fmt'] = fmt
    return I


INTS = ('u8', 'u16', 'u32', 'u64', 'usize', 'i16', 'i32', 'i64', 'isize')


def pieces(a):
    """What format_args! prints, when it is a literal or one plain value."""
    if isinstance(a, tuple) and a and a[0] == 'fmt':
        flat = [x for x in subterms(a) if isinstance(x, tuple) and x[:1] == ('fmtarg',)]
        lits = [x for x in subterms(a) if isinstance(x, tuple) and x[:1] == ('str',)]
        if not flat and len(lits) == 1:
            return lits[0]
        plain = [x for x in subterms(a) if isinstance(x, tuple) and x[:1] == ('const',) and x[-1] == 'b"\\xc0\\x00"']
        if len(flat) == 1 and flat[0][1] == 'new_display' and plain:
            v = flat[0][2]
            while isinstance(v, tuple) and v[0] == '&':
                v = v[1]
            return v
    return a


def method(ctx, ty, name, trait=None):
    return ctx.P.method(ty, name, trait)


def agg(ty, v, *fs):
    return ('agg', ty, v, tuple((str(i), x) for i, x in enumerate(fs)))


def results(ctx, b, args, st, I):
    outs = I.run(b, args, st)
    ctx.used(I, outs)
    res = []
    for o in outs:
        v = I.deep(o.st, o.val) if o.kind == 'ret' else 'panic'
        if isinstance(v, tuple) and v[0] in ('not', 'pos', 'eq0', 'eq'):
            k = I.known(o.st, v)
            v = v if k is None else k
        res.append(v)
    return outs, res


def is_err(v, variant=None):
    if not (isagg(v) and v[2] == 'Err'):
        return False
    e = v[3][0][1]
    return variant is None or isagg(e) and e[2] == variant


def names(ctx):
    w = 'property::PropertyName::from_str'
    b = method(ctx, N_, 'from_str', 'FromStr')
    vs = [v['n'] for v in ctx.P.adt(N_)['variants']]
    ctx.ob('names', 'property::PropertyName', sorted(vs) == sorted(NAMES), f'the properties are {vs}')
    ctx.ob('names', 'property::Property', [v['n'] for v in ctx.P.adt(P_)['variants']] == vs, 'Property and PropertyName name different properties')
    for var, lits in list(NAMES.items()) + [(None, [OTHER])]:
        for l in lits:
            I = interp(ctx)
            st = St()
            outs, res = results(ctx, b, [I.alloc(st, text(l))], st, I)
            want = [ok(agg(N_, var))] if var else None
            good = res == want if var else bool(res) and all(is_err(r) for r in res)
            ctx.ob('names', w, good, f'the name {l if var else "not of a property"} gives {[pp(r)[:80] for r in res]}')
    d = method(ctx, N_, 'fmt', 'Display')
    for var, lits in NAMES.items():
        printed(ctx, d, N_, agg(N_, var), lits[:1], 'names')


def printed(ctx, d, ty, v, want, rule):
    I = interp(ctx)
    st = St()
    outs = I.run(d, [I.alloc(st, v), ('s', 'formatter')], st)
    ctx.used(I, outs)
    shown = [[e[1] for e in o.st.effects() if e[0] == 'show'] if o.kind == 'ret' else ['panic'] for o in outs]
    good = bool(outs) and all(o.kind == 'ret' for o in outs) and all(len(s) == 1 and s[0] in [text(x) if isinstance(x, str) else x for x in want] for s in shown)
    ctx.ob(rule, f'<{ty} as Display>::fmt', good, f'{pp(v)[:80]} is printed as {shown}, expected {want}')


def parse(ctx):
    b = method(ctx, P_, 'from_str', 'FromStr')
    w = '<property::Property as FromStr>::from_str'

    def case(n, v, what, want):
        I = interp(ctx)
        if v == ('numtext', NUM):
            # any number but those given a meaning
            I.ty[NUM] = 'u64'
        st = St()
        if v == ('numtext', NUM):
            for x in [1 << k for k in range(LEAST, MOST + 1)] + [MISPRINT]:
                I.assume(st, eq(NUM, x), 0)
        outs, res = results(ctx, b, [I.alloc(st, kv(text(n), v if v is None else text(v)))], st, I)
        ctx.ob('parse', w, bool(res) and all(want(r) for r in res), f'"{what}" gives {[pp(r)[:100] for r in res]}')
    exactly = lambda *f: (lambda r: r == ok(agg(P_, *f)))
    for n in ('atime',):
        for lits, x in ((TRUE, 1), (FALSE, 0)):
            for l in lits:
                case(n, l, f'{n}={l}', exactly('Atime', x))
        case(n, None, n, exactly('Atime', 1))
        case(n, OTHER, f'{n}=<anything else>', lambda r: is_err(r, 'Value') and r[3][0][1][3][0][1] == OTHER)
        case(n, ('numtext', NUM), f'{n}=<a number>', lambda r: is_err(r, 'Value'))
    for n in NAMES['RecordSize']:
        for k in range(64):
            good = LEAST <= k <= MOST
            case(n, ('numtext', 1 << k), f'{n}={1 << k}', exactly('RecordSize', k) if good else lambda r: is_err(r, 'Value'))
        case(n, ('numtext', MISPRINT), f'{n}={MISPRINT}', lambda r: r == ok(agg(P_, 'RecordSize', MOST)) or is_err(r, 'Value'))
        case(n, ('numtext', NUM), f'{n}=<another number>', lambda r: is_err(r, 'Value'))
        case(n, OTHER, f'{n}=<no number>', lambda r: is_err(r, 'Value') and r[3][0][1][3][0][1] == OTHER)
        case(n, None, n, lambda r: is_err(r, 'NoEquals'))
    case('mountpoint', VAL, 'mountpoint=<text>', exactly('Mountpoint', VAL))
    case('mountpoint', None, 'mountpoint', lambda r: is_err(r, 'NoEquals'))
    for n in ('basemountpoint', 'name'):
        case(n, VAL, f'{n}=<text>', lambda r: is_err(r, 'ReadOnly'))
        case(n, None, n, lambda r: is_err(r))
    case(OTHER, VAL, '<not a property>=<text>', lambda r: is_err(r, 'Name'))
    case(OTHER, None, '<not a property>', lambda r: is_err(r, 'Name'))


def prints(ctx):
    d = method(ctx, P_, 'fmt', 'Display')
    printed(ctx, d, P_, agg(P_, 'Atime', 1), TRUE[:1], 'print')
    printed(ctx, d, P_, agg(P_, 'Atime', 0), FALSE[:1], 'print')
    for v in ('BaseMountpoint', 'Mountpoint', 'Name'):
        printed(ctx, d, P_, agg(P_, v, PAY), [PAY], 'print')
    for k in range(LEAST, MOST + 1):
        printed(ctx, d, P_, agg(P_, 'RecordSize', k), [1 << k], 'print')


PAYLOAD = {'Atime': 'bool', 'BaseMountpoint': 'str', 'Mountpoint': 'str', 'Name': 'str', 'RecordSize': 'u8'}


def values(ctx):
    nm = method(ctx, P_, 'name')
    acc = {t: method(ctx, P_, 'as_' + t) for t in ('bool', 'str', 'u8')}
    inh, ninh = method(ctx, P_, 'inheritable'), method(ctx, N_, 'inheritable')
    dv = method(ctx, P_, 'default_value')
    isb = method(ctx, N_, 'boolean')
    for v, t in PAYLOAD.items():
        pv = agg(P_, v, PAY)
        I = interp(ctx)
        st = St()
        o, r = results(ctx, nm, [I.alloc(st, pv)], st, I)
        ctx.ob('values', 'property::Property::name', r == [agg(N_, v)], f'the name of a {v} is {r}')
        for t2, b in acc.items():
            I = interp(ctx)
            st = St()
            outs = I.run(b, [I.alloc(st, pv)], st)
            ctx.used(I, outs)
            if t2 == t:
                ctx.ob('values', f'property::Property::as_{t2}', [content(I, o.st, o.val) for o in outs if o.kind == 'ret'] == [PAY] and len(outs) == 1,
                       f'the value of a {v} is {[pp(o.val) for o in outs]}')
            else:
                ctx.ob('values', f'property::Property::as_{t2}', all(o.kind == 'panic' for o in outs), f'a {v} passes for a {t2}')
        I = interp(ctx)
        o, r = results(ctx, isb, [agg(N_, v)], St(), I)
        ctx.ob('values', 'property::PropertyName::boolean', r == [int(t == 'bool')], f'{v}: {r}')
        I = interp(ctx)
        to = 'BaseMountpoint' if v == 'Mountpoint' else v
        o, r = results(ctx, inh, [pv], St(), I)
        ctx.ob('values', 'property::Property::inheritable', r == [agg(P_, to, PAY)], f'{v} is inherited as {[pp(x) for x in r]}')
        I = interp(ctx)
        o, r = results(ctx, ninh, [agg(N_, v)], St(), I)
        ctx.ob('values', 'property::PropertyName::inheritable', r == ['panic' if v == 'Name' else agg(N_, to)] or v == 'Name' and r == [agg(N_, v)],
               f'{v} is inherited as {[pp(x) for x in r]}')
        I = interp(ctx)
        o, r = results(ctx, dv, [agg(N_, v)], St(), I)
        want = {'Atime': [agg(P_, v, 1)], 'BaseMountpoint': [agg(P_, v, ('str', ''))], 'RecordSize': [agg(P_, v, 17)]}.get(v, ['panic'])
        ctx.ob('values', 'property::Property::default_value', r == want, f'the default of {v} is {[pp(x) for x in r]}')


def sources(ctx):
    b, d, i = method(ctx, S_, 'from_str', 'FromStr'), method(ctx, S_, 'fmt', 'Display'), method(ctx, S_, 'is_inherited')
    K = ('s', 'levels')
    table = {'none': agg(S_, 'None'), 'default': agg(S_, 'Default'), 'local': agg(S_, 'Set', 0), 'inherited': agg(S_, 'Set', 1)}
    for l, v in list(table.items()) + [(OTHER, None)]:
        I = interp(ctx)
        st = St()
        o, r = results(ctx, b, [I.alloc(st, text(l))], st, I)
        ctx.ob('sources', '<property::PropertySource as FromStr>::from_str', r == [ok(v)] if v else bool(r) and all(is_err(x) for x in r),
               f'{l if v else "another text"} gives {[pp(x)[:80] for x in r]}')
        if v:
            printed(ctx, d, S_, v, [l], 'sources')
    for c, lit in (('LOCAL', 0), ('FROM_PARENT', 1), ('FROM_GRANDPARENT', 2)):
        I = interp(ctx)
        o, r = results(ctx, ctx.P.fn(f'{S_}::{c}'), [], St(), I)
        ctx.ob('sources', f'{S_}::{c}', r == [agg(S_, 'Set', lit)], f'it is {r}')
    for v, want in (('None', 0), ('Default', 0), ('Set', None)):
        I = interp(ctx)
        I.ty[K] = 'u8'
        if want is None:
            for lo in (0, 1):
                st = St()
                I.assume(st, eq(K, 0), 1 - lo)
                o, r = results(ctx, i, [agg(S_, v, K)], st, I)
                ctx.ob('sources', f'{S_}::is_inherited', r == [lo], f'set {"here" if not lo else "above"}: {r}')
                if lo:
                    st = St()
                    I.assume(st, lt(K, 1), 0)
                    outs = I.run(d, [I.alloc(st, agg(S_, v, K)), ('s', 'formatter')], st)
                    shown = [[e[1] for e in o.st.effects() if e[0] == 'show'] for o in outs]
                    ctx.ob('sources', f'<{S_} as Display>::fmt', bool(shown) and all(s == [('str', 'inherited')] for s in shown), f'an inherited value shows as {shown}')
        else:
            o, r = results(ctx, i, [agg(S_, v)], St(), I)
            ctx.ob('sources', f'{S_}::is_inherited', r == [want], f'{v}: {r}')


def run(ctx):
    for nm, f in (('names', names), ('parse', parse), ('print', prints), ('values', values), ('sources', sources)):
        with ctx.rule(nm, 'property'):
            f(ctx)
