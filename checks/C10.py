"""Reed-Solomon codec: parity and reconstruction use one and the same code, on exactly the right columns."""
from checks.tables import *
from engine.interp import St
from engine.mir import Missing, strip_generics
from engine.models import R, seq_value, some
from engine.terms import *

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR for symbolic numbers of data columns K and parity columns F and a symbolic set of erasures. Calls of '
                   'ISA-L are uninterpreted; what is judged is what they are called with: the sizes of every table, which rows of the distribution matrix '
                   'are expanded for encoding, and that decoding inverts the rows of the first K healthy columns and expands the rows of the missing data '
                   'columns, by invariants over the loops that fill the tables. Encoding from scattered buffers is judged per turn of its loop.',
    'assumptions': ['ISA-L computes what its documentation says', 'any K rows of the distribution matrix are independent (Cauchy matrices; RS with one parity)',
                    'cursors over scattered buffers behave as C12 says', 'at most F erasures'],
}
CODEC = 'raid::codec::Codec'
K, F = ('s', 'K'), ('s', 'F')
ERR = ('count1', ('*', ('in', 'erasures')), K)


def content(I, st, ref):
    r, p = I.deref(st, ref)
    return I.deep(st, seq_value(I, st, r, p))


class Model:
    def __init__(self, ctx):
        self.ctx = ctx
        self.I = I = ctx.interp()
        I.ty[K], I.ty[F] = (1, 254), (1, 254)
        h = I.hooks
        h['bfffs_isa_l::gf_gen_rs_matrix'] = self.gen('rs')
        h['bfffs_isa_l::gf_gen_cauchy1_matrix'] = self.gen('cauchy')
        h['bfffs_isa_l::ec_init_tables'] = self.tables
        h['bfffs_isa_l::ec_encode_data'] = self.encode
        h['bfffs_isa_l::ec_encode_data_update'] = self.update
        h['bfffs_isa_l::gf_invert_matrix'] = self.invert
        h['core::slice::as_ptr'] = h['core::slice::as_mut_ptr'] = h['std::vec::Vec::as_ptr'] = h['std::vec::Vec::as_mut_ptr'] = self.ptr
        self.seen = {}

    def ptr(self, I, st, c):
        v = c.args[0]
        if isinstance(v, tuple) and v[0] == 'ref':
            x = I.load(st, v)
            if isinstance(x, tuple) and (x[0] == 'chunk' or x[0] == '.' and x[2][:1] == ('[]',) and isinstance(x[1], tuple) and x[1][0] == 'lv'):
                return R(st, ('ptr', x))
        return None

    def isal(self, st, name, *args):
        self.seen[name] = self.seen.get(name, 0) + 1
        st.log('isal', name, *args)

    def gen(self, kind):
        def h(I, st, c):
            a, m, k = c.args
            self.isal(st, 'gen', kind, I.seq_len_at(st, *I.deref(st, a)), m, k)
            I.store(st, a, ('gf', kind, m, k))
            I.len_of[('gf', kind, m, k)] = mul(m, k)
            return R(st, UNIT)
        return h

    def tables(self, I, st, c):
        k, f, a, t = c.args
        src = content(I, st, a)
        self.isal(st, 'tables', k, f, src, I.seq_len_at(st, *I.deref(st, a)), I.seq_len_at(st, *I.deref(st, t)))
        v = ('tables', k, f, src)
        I.len_of[v] = mul(mul(k, f), 32)
        I.store(st, t, v)
        return R(st, UNIT)

    def encode(self, I, st, c):
        n, k, f, t, d, p = c.args
        self.isal(st, 'encode', n, k, f, content(I, st, t), content(I, st, d), content(I, st, p))
        return R(st, UNIT)

    def update(self, I, st, c):
        n, k, f, i, t, d, p = c.args
        self.isal(st, 'update', n, k, f, i, content(I, st, t), content(I, st, d), content(I, st, p))
        return R(st, UNIT)

    def invert(self, I, st, c):
        a, b, n = c.args
        src = content(I, st, a)
        self.isal(st, 'invert', src, I.seq_len_at(st, *I.deref(st, a)), I.seq_len_at(st, *I.deref(st, b)), n)
        v = ('inverse', src, n)
        I.len_of[v] = mul(n, n)
        I.store(st, b, v)
        s2 = st.copy()
        return R(st, ('agg', 'std::result::Result', 'Ok', (('0', UNIT),))) + R(s2, ('agg', 'std::result::Result', 'Err', (('0', ('s', 'singular')),)))

    def codecs(self):
        """[(kind of matrix, state, reference to the codec)] for every way to make one of K data and F parity columns."""
        ctx, I = self.ctx, self.I
        st = St()
        I.assume(st, not_(lt(255, add(K, F))))
        outs = I.run(ctx.P.method(CODEC, 'new'), [add(K, F), F], st)
        ctx.used(I, outs)
        w = 'Codec::new'
        ctx.ob('returns', w, bool(outs) and all(o.kind == 'ret' for o in outs), f'making a codec has outcomes {[o.kind for o in outs]}')
        res = []
        for o in outs:
            if o.kind != 'ret':
                continue
            ev = [e[1:] for e in o.st.effects() if e[0] == 'isal']
            gens = [e for e in ev if e[0] == 'gen']
            if not ctx.ob('matrix', w, len(gens) == 1, f'{len(gens)} distribution matrices are generated'):
                continue
            _, kind, n, m, k = gens[0]
            one = I.known(o.st, eq(F, 1))
            ctx.ob('matrix-kind', w, one is not None and kind == ('rs' if one else 'cauchy'),
                   f'with {"one" if one else "some other number of" if one == 0 else "any number of"} parity columns the matrix is {kind}')
            ctx.ob('matrix-size', w, m == add(K, F) and k == K and n == mul(add(K, F), K), f'the matrix is {pp(m)} by {pp(k)} in {pp(n)} bytes')
            res.append((kind, o.st, I.alloc(o.st, o.val)))
        ctx.ob('matrix-kind', w + ' both kinds', {r[0] for r in res} == {'rs', 'cauchy'}, 'one of the kinds of matrix is never used')
        return res

    def matrix(self, kind):
        return ('gf', kind, add(K, F), K)

    def enc_tables(self, v, kind):
        """Why v is not the expansion of the parity rows; None if it is."""
        if not (isinstance(v, tuple) and v[0] == 'tables'):
            return f'the tables are {pp(v)[:200]}'
        if v[1] != K or v[2] != F:
            return f'the tables are for {pp(v[1])} sources and {pp(v[2])} outputs'
        a = v[3]
        want = ('sub', self.matrix(kind), mul(K, K), mul(K, add(K, F)))
        if a != want:
            return f'the tables are of {pp(a)[:200]}, expected the rows of the matrix from K on'
        return None


def run(ctx):
    kinds = 0
    for i in range(2):
        M = Model(ctx)
        with ctx.rule('new', 'Codec::new'):
            cs = M.codecs()
            if i >= len(cs):
                continue
            kinds += 1
            kind, st, ref = cs[i]
            with ctx.rule('encode', kind):
                encode(ctx, M, kind, st.copy(), ref)
            with ctx.rule('update', kind):
                update(ctx, M, kind, st.copy(), ref)
            with ctx.rule('sizes', kind):
                sizes(ctx, M, kind, st.copy(), ref)
            with ctx.rule('decode', kind):
                decode(ctx, M, kind, st.copy(), ref)
            with ctx.rule('encodev', kind):
                encodev(ctx, M, kind, st.copy(), ref)
    ctx.floor('new', 'kinds of codec', kinds, 2)


def args(b, ref):
    out = []
    for l in b['locals'][1:1 + b['argc']]:
        out.append(('in', l['name']) if l.get('name') else None)
    return out


def go(ctx, M, name, ref, st, *rest):
    b = ctx.P.method(CODEC, name)
    outs = M.I.run(b, [ref] + list(rest), st)
    ctx.used(M.I, outs)
    return outs


def isal(o, name):
    return [e[2:] for e in o.st.effects() if e[0] == 'isal' and e[1] == name]


def slice_arg(M, st, name):
    v = ('s', name)
    return v, M.I.alloc(st, v)


def encode(ctx, M, kind, st, ref):
    n = ('s', 'len')
    M.I.ty[n] = 'usize'
    d, dr = slice_arg(M, st, 'data')
    p, pr = slice_arg(M, st, 'parity')
    outs = go(ctx, M, 'encode', ref, st, n, dr, pr)
    w = f'Codec::encode ({kind})'
    ctx.ob('returns', w, len(outs) == 1 and outs[0].kind == 'ret', f'outcomes {[o.kind for o in outs]}')
    for o in outs:
        ev = isal(o, 'encode')
        if not ctx.ob('encode', w, len(ev) == 1, f'{len(ev)} calls of ISA-L'):
            continue
        n2, k, f, t, d2, p2 = ev[0]
        ctx.ob('encode', w, (n2, k, f, d2, p2) == (n, K, F, d, p), f'encodes length {pp(n2)}, {pp(k)} columns {pp(d2)[:60]} into {pp(f)} {pp(p2)[:60]}')
        why = M.enc_tables(t, kind)
        ctx.ob('encode-tables', w, why is None, why)


def update(ctx, M, kind, st, ref):
    n, i = ('s', 'len'), ('s', 'data_idx')
    M.I.ty[n], M.I.ty[i] = 'usize', 'u32'
    M.I.assume(st, lt(i, K))
    d, dr = slice_arg(M, st, 'data')
    p, pr = slice_arg(M, st, 'parity')
    outs = go(ctx, M, 'encode_update', ref, st, n, dr, pr, i)
    w = f'Codec::encode_update ({kind})'
    ctx.ob('returns', w, bool(outs) and all(o.kind == 'ret' for o in outs), f'outcomes {[o.kind for o in outs]}')
    for o in outs:
        ev = isal(o, 'update')
        if not ctx.ob('update', w, len(ev) == 1, f'{len(ev)} calls of ISA-L'):
            continue
        n2, k, f, i2, t, d2, p2 = ev[0]
        ctx.ob('update', w, (n2, k, f, i2, d2, p2) == (n, K, F, i, d, p), f'updates with column {pp(i2)} of {pp(k)}, length {pp(n2)}, into {pp(f)}')
        why = M.enc_tables(t, kind)
        ctx.ob('update-tables', w, why is None, why)


def sizes(ctx, M, kind, st, ref):
    for name, want in (('protection', F), ('stripesize', add(K, F))):
        outs = go(ctx, M, name, ref, st.copy())
        ctx.ob('sizes', f'Codec::{name}', len(outs) == 1 and outs[0].kind == 'ret' and outs[0].val == want, f'{name} is {[pp(o.val) for o in outs]}, expected {pp(want)}')


def decode(ctx, M, kind, st, ref):
    I = M.I
    n = ('s', 'len')
    I.ty[n] = 'usize'
    d, dr = slice_arg(M, st, 'surviving')
    p, pr = slice_arg(M, st, 'missing')
    S = ('s', 'erasures')
    er = I.alloc(st, S)
    errs = ('count1', S, K)
    I.ty[errs] = (0, 254)
    I.assume(st, lt(0, errs))
    I.assume(st, not_(lt(F, errs)))
    I.len_of[p] = errs
    I.len_of[d] = K
    outs = go(ctx, M, 'decode', ref, st, n, dr, pr, er)
    w = f'Codec::decode ({kind})'
    rets = [o for o in outs if o.kind == 'ret']
    bad = [o for o in outs if o.kind != 'ret' and not any(mentions(x, ('s', 'singular')) for x in [o.val])]
    ctx.ob('returns', w, bool(rets) and not bad, f'decoding may panic: {[pp(o.val)[:150] for o in bad[:2]]}')
    for o in rets:
        ev = isal(o, 'encode')
        if not ctx.ob('decode', w, len(ev) == 1, f'{len(ev)} calls of ISA-L'):
            continue
        n2, k, f, t, d2, p2 = ev[0]
        ctx.ob('decode', w, (n2, k, f, d2, p2) == (n, K, errs, d, p), f'decodes length {pp(n2)}, {pp(k)} columns {pp(d2)[:60]} into {pp(f)} {pp(p2)[:60]}')
        inv = isal(o, 'invert')
        if not ctx.ob('invert', w, len(inv) == 1, f'{len(inv)} matrices are inverted'):
            continue
        src, n1, n2, k = inv[0]
        ctx.ob('invert-size', w, k == K and n1 == mul(K, K) and n2 == mul(K, K), f'a matrix of {pp(n1)} and {pp(n2)} bytes is inverted as {pp(k)} squared')
        loops = loops_of(o.st.effects())
        why = rows(ctx, I, o, src, loops, S, 0, M.matrix(kind), K)
        ctx.ob('survivors', w, why is None, f'the matrix inverted is not that of the first K healthy rows: {why}')
        tb = isal(o, 'tables')
        tb = [e for e in tb if not (e[2][0] == 'sub' and e[2][1] == M.matrix(kind))]
        if not ctx.ob('decode-tables', w, len(tb) == 1 and isinstance(t, tuple) and t[0] == 'tables', f'{len(tb)} tables are made'):
            continue
        k, f, a, n1, n2 = tb[0]
        ctx.ob('decode-tables', w, (k, f) == (K, errs) and t == ('tables', k, f, a), f'the tables are for {pp(k)} sources and {pp(f)} outputs')
        grown = isinstance(a, tuple) and a[0] == 'lv' and n1 == ('len', a)     # its length is what rows() finds below
        ctx.ob('decode-tables-size', w, (n1 == mul(K, errs) or grown) and n2 == mul(mul(32, K), errs), f'tables of {pp(n2)} bytes for {pp(n1)} coefficients')
        why = rows(ctx, I, o, a, loops, S, 1, ('inverse', src, K), errs)
        ctx.ob('missing-rows', w, why is None, f'the rows expanded are not those of the missing data columns: {why}')


def rows(ctx, I, o, v, loops, S, pol, matrix, count):
    """Why v is not the `count` rows of matrix, in order, whose index is in S (pol 1) or not in S (pol 0); None if it is."""
    base, ws = writes(v, loops)
    if not ws:
        return f'it is {pp(base)[:200]}'
    for w in ws:
        if not w.env:
            return 'a row is written outside of any loop'
        p = w.env[0]
        ix = list(w.env[1:])
        val, idx = w.val, w.idx
        if w.n is not None:
            # a row at a time
            if ix:
                return 'rows are written in a loop within a loop'
            if not (isinstance(val, tuple) and val[0] == 'sub' and val[1] == matrix and w.n == K and sub(val[3], val[2]) == K):
                return f'{pp(w.n)} entries are written, of {pp(val)[:200]}'
            src = val[2]
        else:
            if len(ix) != 1:
                return f'an entry is written in {len(ix)} inner loops'
            c = count_in(p, ix[0].loop)
            if c is None or c[1] != 0 or c[2] != K:
                return f'the columns copied are from {pp(c and c[1])} to {pp(c and c[2])}'
            j = c[0]
            val, idx = together(ix[0].loop, c, val), together(ix[0].loop, c, idx)
            if not (isinstance(val, tuple) and val[0] == '.' and val[1] == matrix and isinstance(val[2], tuple) and val[2][0] == '[]'):
                return f'an entry is {pp(val)[:200]}'
            src = sub(val[2][1], j)
            idx = sub(idx, j)
            if mentions(src, j) or mentions(idx, j):
                return f'column {pp(j)[:60]} of the row is taken from elsewhere'
        row, d = exact(src, K), exact(idx, K)
        if row is None or d is None:
            return f'the entry at {pp(idx)[:100]} is from {pp(src)[:100]}'
        why = ranked(I, o, p, row, d, S, pol, [x.env[0].it for x in ws if x.env], matrix, count)
        if why:
            return why
    return None


def together(lp, c, t):
    """t with every place that moves along with the counter c expressed by it."""
    m = {y: add(c[0], sub(lp.entry[l], c[1])) for l, y in lp.carried.items()
         if y != c[0] and lp.iters and all(sub(it[3].get(l, y), y) == 1 for it in lp.iters)}
    return subst(t, lambda x: m.get(x)) if m else t


def ranked(I, o, p, row, d, S, pol, writing, matrix, count):
    """Why row is not the d-th index that is (pol 1) or is not (pol 0) in S; None if it is.  Also that d runs over all below count."""
    lp = p.loop
    st = p.state()
    if pol == 1 and isinstance(row, tuple) and row[0] == 'one' and row[1] == S:
        if row[2] != d and not alike(lp, row[2], d):
            return f'row {pp(d)[:100]} is that of erasure number {pp(row[2])[:100]}'
        if at_entry(lp, d) != 0:
            return f'the first row is row {pp(at_entry(lp, d))[:100]}'
        for it in lp.iters:
            q = Pass(lp, it)
            if step(q, d) != add(d, 1):
                return 'an erasure is passed over'
        n = row[2]
        if I.known(st, lt(row, K)) != 1 and I.known(st, lt(n, count)) != 1 and I.known(st, lt(d, count)) != 1:
            return 'rows of parity columns are taken too'
        ends = (lt(row, K), lt(n, ('count1', S, None)), lt(n, count), lt(pinned(o.st, n), count), lt(pinned(o.st, d), count))
        if all(I.known(o.st, c) != 0 for c in ends):
            return 'the loop may end before the last missing data column'
        return None
    # a scan: the position moves by one at a time and stops at every row wanted
    inner = {}
    for il in p.inner():
        for l, y in il.carried.items():
            inner[y] = (il, l)
    head = subst(row, lambda x: inner[x][0].entry[inner[x][1]] if x in inner else None)
    if at_entry(lp, head) != 0 or at_entry(lp, d) != 0:
        return f'the first row tried is {pp(at_entry(lp, head))[:100]}, for row {pp(at_entry(lp, d))[:100]}'
    has = ('has', S, row)
    if I.known(st, has) != pol and not (pol == 0 and lookup(p, S, row) == 0) and lookup(p, S, row) != pol:
        return f'row {pp(row)[:200]} is used whether or not it is missing'
    for y, (il, l) in inner.items():
        if not mentions(row, y):
            continue
        for it in il.iters:
            q = Pass(il, it)
            if step(q, row) != add(row, 1):
                return f'a scan moves from {pp(row)[:100]} to {pp(step(q, row))[:100]}'
            if lookup(q, S, row) != 1 - pol:
                return 'a row that is wanted is passed over'
    for it in lp.iters:
        q = Pass(lp, it)
        wrote = it is p.it
        if not wrote and any(it is x for x in writing):
            continue        # judged where it writes
        here, dn = step(q, head), step(q, d)
        if wrote:
            if here != add(row, 1) or dn != add(d, 1):
                return f'after {pp(row)[:100]} comes {pp(here)[:100]}, for row {pp(dn)[:100]}'
        elif here == add(head, 1) and dn == d and lookup(q, S, head) == 1 - pol:
            pass
        elif pol == 1 and here == add(head, 1) and dn == d and I.known(q.state(), lt(head, K)) == 0:
            pass
        else:
            return f'another kind of iteration goes from {pp(head)[:100]} to {pp(here)[:100]}'
    dp = pinned(o.st, d)
    hp = pinned(o.st, head)
    # (with at most F erasures there are K healthy rows)
    if I.known(o.st, lt(dp, count)) != 0 and I.known(o.st, lt(hp, K if pol else add(K, F))) != 0:
        return 'the loop may end early'
    return None


def alike(lp, a, b):
    """The two count the same."""
    return at_entry(lp, a) == at_entry(lp, b) and all(sub(step(Pass(lp, it), a), a) == sub(step(Pass(lp, it), b), b) for it in lp.iters)


def pinned(st, t):
    m = {k[1]: v for k, v in st.facts.items() if isinstance(k, tuple) and k[0] == 'pinned'}
    for _ in range(4):
        t, old = subst(t, lambda x: m.get(x)), t
        if t == old:
            break
    return t


def lookup(p, S, row):
    return p.it[1].get(('has', S, row))


def encodev(ctx, M, kind, st, ref):
    P, I = ctx.P, M.I
    n = ('s', 'len')
    I.ty[n] = 'usize'
    D, dr = slice_arg(M, st, 'data')
    p, pr = slice_arg(M, st, 'parity')
    I.len_of[D] = K
    I.len_of[p] = F

    def frm(I, st, c):
        return R(st, ('cursor', I.deep(st, I.load(st, c.args[0]))))

    def peek(I, st, c):
        x = ('peek', I.load(st, c.args[0]))
        I.ty[x] = 'usize'
        return R(st, x)

    def nxt(I, st, c):
        v = I.load(st, c.args[0])
        I.store(st, c.args[0], ('past', v, c.args[1]))
        return R(st, some(('chunk', v, c.args[1])))
    hk = {'from': frm, 'peek_len': peek, 'next': nxt}
    n0 = 0
    for b in P.fns(lambda b: b['path'].startswith('raid::sgcursor::') or 'SGCursor' in (b.get('self') or '')):
        if b.get('name') in hk:
            I.hooks[strip_generics(b['path'])] = hk[b['name']]
            n0 += 1
    I.hooks['std::convert::From::from'] = lambda I, st, c: frm(I, st, c) if 'SGCursor' in c.retty else None
    outs = go(ctx, M, 'encodev', ref, st, n, dr, pr)
    w = f'Codec::encodev ({kind})'
    rets = [o for o in outs if o.kind == 'ret']
    ctx.ob('returns', w, len(rets) >= 1, f'outcomes {[o.kind for o in outs]}')
    for o in rets:
        why = judge_v(ctx, M, kind, o, n, D, p)
        ctx.ob('scattered', w, why is None, why)


def judge_v(ctx, M, kind, o, n, D, par):
    I = M.I
    loops = loops_of(o.st.effects())
    main = [lp for lp in loops if any(e[0] == 'isal' for it in lp.iters for e in it[2])]
    if len(main) != 1 or isal(o, 'encode'):
        return f'ISA-L is called in {len(main)} loops and {len(isal(o, "encode"))} times outside of one'
    lp = main[0]
    for it in lp.iters:
        p = Pass(lp, it)
        st = p.state()
        ev = [e[2:] for e in it[2] if e[0] == 'isal' and e[1] == 'encode']
        if len(ev) != 1:
            return f'{len(ev)} calls of ISA-L in a turn of the loop'
        size, k, f, t, d, q = ev[0]
        if (k, f) != (K, F):
            return f'{pp(k)} columns are encoded into {pp(f)}'
        why = M.enc_tables(t, kind)
        if why:
            return why
        inner = p.inner()
        fx = _F(it[1])
        # where the turn is: every parity column is advanced by the same amount, which grows by the size of the turn
        e = elements(fx, q, inner)
        if e is None:
            return f'the parity columns are {pp(q)[:200]}'
        y, first, end, x, _ = e
        if first != 0 or end != F:
            return f'parity columns from {pp(first)} to {pp(end)} are written'
        ch = ('.', par, ('[]', y))
        if not (isinstance(x, tuple) and x[0] == 'ptradd' and x[1] == ch):
            return f'parity is written to {pp(x)[:200]}'
        at = x[2]
        if at_entry(lp, at) != 0 or step(p, at) != add(at, size):
            return f'parity is written at {pp(at_entry(lp, at))[:80]} first, and {pp(sub(step(p, at), at))[:100]} further after a turn of {pp(size)[:100]}'
        if I.known(o.st, lt(pinned(o.st, at), n)) != 0:
            return 'the loop may end early'
        # the data columns
        e = elements(fx, d, inner)
        if e is None:
            return f'the data columns are {pp(d)[:200]}'
        y, first, end, x, il = e
        if isinstance(x, tuple) and x[0] == 'ptr' and x[1][0] == '.' and x[1][2] == ('[]', y) and first == 0 and pinned(st, I.deep(st, end)) == K:
            # pointers to what was collected before
            e = elements(fx, x[1][1], inner)
            if e is None:
                return f'the data columns are those of {pp(x[1][1])[:200]}'
            y, first, end, x, il = e
            x = ('ptr', x)
        if first != 0 or pinned(st, I.deep(st, end)) != K:
            return f'data columns from {pp(first)} to {pp(end)[:200]} are read'
        if not (isinstance(x, tuple) and x[0] == 'ptr' and x[1][0] == 'chunk' and x[1][2] == size):
            return f'a data column is {pp(x)[:200]}, of {pp(size)[:60]}'
        cur = x[1][1]
        if not (isinstance(cur, tuple) and cur[0] == '.' and cur[2] == ('[]', y)):
            return f'a data column is read at {pp(cur)[:200]}'
        iy = [l for l, s in il.carried.items() if s == cur[1]]
        if not iy:
            return 'the cursors do not move'
        ps = Pass(il, il.iters[0])
        if ps.new(cur[1]) != upd(cur[1], (('[]', y),), ('past', cur, size)):
            return f'a cursor moves to {pp(ps.new(cur[1]))[:200]}'
        heads = il.entry[iy[0]]
        if p.new(heads) != cur[1]:
            return 'the cursors are not kept for the next turn'
        # where the cursors start
        c0 = entry_of(lp, heads)
        e = elements(o.st, c0, loops)
        if e is None or e[1] != 0 or e[2] != K or e[3] != ('cursor', ('.', D, ('[]', e[0]))):
            return f'the cursors start as {pp(c0)[:200]}'
        # the size of a turn is at most what is left of any segment
        why = least(I, p, inner, size, heads, st)
        if why:
            return why
    return None


class _F:
    def __init__(self, facts):
        self.facts = facts


def least(I, p, loops, size, heads, st):
    """Why size is not the least that any of the cursors `heads` has in one piece."""
    for lp in loops:
        for l, s in lp.carried.items():
            if size == s or size == proj(proj(s, 'v:Some'), '0'):
                c = counter(_F(p.it[1]), lp)
                if c is None or c[1] != 0:
                    return 'not all cursors are asked for the size of a turn'
                x = ('peek', ('.', heads, ('[]', c[0])))
                for it in lp.iters:
                    q = Pass(lp, it)
                    v = q.new(s)
                    if isagg(v) and v[2] == 'Some':
                        v = v[3][0][1]
                        old = proj(proj(s, 'v:Some'), '0') if q.it[1].get(('discr', s)) == 'Some' else None
                    else:
                        old = s
                    s2 = q.state()
                    if old is None:
                        good = v == x
                    else:
                        good = v == tmin(old, x) or v == tmin(x, old) or v in (x, old) and \
                            I.known(s2, lt(x, v)) == 0 and I.known(s2, lt(old, v)) == 0
                    if not good:
                        return f'the size of a turn is {pp(v)[:200]}'
                return None
    return f'the size of a turn is {pp(size)[:200]}'
