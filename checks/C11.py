"""ISA-L bindings: the library is only ever called with buffers of the size it will touch, and its failures are reported."""
from engine.interp import St
from engine.models import R, seq_value
from engine.terms import *

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR of every binding, for symbolic counts and buffers of symbolic length. On every path that reaches the '
                   'foreign function the lengths its documentation asks for must follow from the checks passed, and the arguments must be the '
                   "caller's, in the right positions. For arguments that satisfy the contract the call must be made exactly once.",
    'assumptions': ['at most 255 columns (GF(2^8)), so products of counts do not wrap', 'column lengths below 2^31', "pointers in arrays of pointers are the caller's responsibility"],
}
k, f, m, n, i, ln = [('s', x) for x in ('k', 'f', 'm', 'n', 'vec_i', 'len')]
# function -> (its arguments in order, lengths demanded of its buffers, further demands, arguments of the foreign function)
A, T, D, PY = [('s', x) for x in ('a', 'tables', 'data', 'parity')]
KF = mul(k, f)
SPEC = {
    'ec_encode_data': ([ln, k, f, T, D, PY], {T: mul(32, KF), D: k, PY: f}, [], [ln, k, f, T, D, PY]),
    'ec_encode_data_update': ([ln, k, f, i, T, D, PY], {T: mul(32, KF), D: ln, PY: f}, [lt(i, k)], [ln, k, f, i, T, D, PY]),
    'ec_init_tables': ([k, f, A, T], {A: KF, T: mul(32, KF)}, [], [k, f, A, T]),
    'gf_gen_cauchy1_matrix': ([A, m, k], {A: mul(m, k)}, [], [A, m, k]),
    'gf_gen_rs_matrix': ([A, m, k], {A: mul(m, k)}, [], [A, m, k]),
    'gf_invert_matrix': ([A, T, n], {A: mul(n, n), T: mul(n, n)}, [], [A, T, n]),
}
# where the documentation says an RS matrix has every square submatrix invertible
RS = [[lt(k, 4)], [eq(k, 4), lt(m, 26)], [eq(k, 5), lt(m, 11)], [lt(k, 22), eq(sub(m, k), 4)], [lt(sub(m, k), 4)]]


def interp(ctx, buffers, status):
    I = ctx.interp()
    for x in (k, f, m, n):
        I.ty[x] = (1, 255)
    I.ty[i] = (0, 255)
    I.ty[ln] = (0, (1 << 31) - 1)

    def ffi(I, st, c):
        args = []
        for x in c.args:
            v = x
            if isinstance(x, tuple) and x[0] == 'ref':
                v = seq_value(I, st, x[1], x[2])
            args.append(v)
        st.log('ffi', c.name.split('::')[-1], args)
        if c.retty in ('()', ''):
            return R(st, UNIT)
        return R(st, status)
    for name in SPEC:
        I.hooks['ffi::' + name] = ffi
    return I


def call(ctx, I, name, st, buffers):
    args = []
    for a in SPEC[name][0]:
        args.append(I.alloc(st, a) if a in buffers else a)
    b = ctx.P.fn(name)
    outs = I.run(b, args, st)
    ctx.used(I, outs)
    return outs


def ffis(o):
    return [e[1:] for e in o.st.effects() if e[0] == 'ffi']


def run(ctx):
    found = 0
    status = ('s', 'status')
    for name, (params, lens, demands, want) in SPEC.items():
        with ctx.rule('safe', name):
            I = interp(ctx, lens, status)
            I.ty[status] = 'i32'
            st = St()
            outs = call(ctx, I, name, st, lens)
            found += 1
            hit = 0
            for o in outs:
                for fn, args in ffis(o):
                    hit += 1
                    for b, need in lens.items():
                        ctx.ob('length', f'{name}({b[1]})', I.known(o.st, not_(lt(I.length(b), need))) == 1,
                               f'ISA-L may be called with fewer than {pp(need)} elements of {b[1]}')
                    for d in demands:
                        ctx.ob('demand', name, I.known(o.st, d) == 1, f'ISA-L may be called without {pp(d)}')
                    ctx.ob('callee', name, fn == name, f'{fn} is called')
                    ctx.ob('arguments', name, args == want, f'ISA-L is called with {[pp(a)[:60] for a in args]}')
                    if name == 'gf_gen_rs_matrix':
                        ctx.ob('invertible', name, any(all(I.known(o.st, c) == 1 for c in cs) for cs in RS),
                               'a matrix may be generated that is not known to be invertible')
            ctx.ob('called', name, hit > 0, 'ISA-L is never called')
        with ctx.rule('complete', name):
            cases = RS if name == 'gf_gen_rs_matrix' else [[]]
            for cs in cases:
                for sv in ((0, 1, -1) if name == 'gf_invert_matrix' else (0,)):
                    I = interp(ctx, lens, sv)
                    st = St()
                    for b, need in lens.items():
                        I.len_of[b] = need
                    for d in demands + cs:
                        I.assume(st, d)
                    if 'matrix' in name and name != 'gf_invert_matrix':
                        I.assume(st, lt(k, m))
                    outs = call(ctx, I, name, st, lens)
                    good = bool(outs) and all(o.kind == 'ret' and len(ffis(o)) == 1 for o in outs)
                    ctx.ob('serves', name, good, f'with valid arguments the outcomes are {[(o.kind, len(ffis(o)), pp(o.val)[:60]) for o in outs][:4]}')
                    if name == 'gf_invert_matrix':
                        for o in outs:
                            v = o.val
                            ctx.ob('failure', name, isagg(v) and v[2] == ('Ok' if sv == 0 else 'Err'), f'when ISA-L returns {sv} the result is {pp(v)[:100]}')
    ctx.floor('safe', 'bindings', found, len(SPEC))
