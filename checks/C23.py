"""Indirect records: a record id stands for one record wherever it is moved; the table from ids to records and the one from addresses to ids are inverse; space goes with the last reference."""
from engine.interp import St
from engine.mir import strip_generics
from engine.models import R, ok, err, some, NONE, UNIT, proj
from engine.terms import *
from checks.proto import op, events, strip, show, cause
from checks import C22
from checks.C19 import names_in

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR: every path of each operation of the indirect layer, as the sequence of what it reads and changes in the two tables, the records below and the cache, '
                   'over every outcome of each of these.',
    'assumptions': ['a tree is a sorted map, and its operations are atomic', 'the allocator never hands out an address that is in use (C21)'],
}
I_ = 'idml::idml::IDML'
T = 'tree::tree::Tree::'
D = C22.D
SELF = C22.SELF
RID = ('in', 'rid')
TXG = C22.TXG
RIDT, ALLOCT, DDML = ('.', SELF, 'ridt'), ('.', SELF, 'alloct'), ('.', SELF, 'ddml')
GIVEN = {'ridt': ('in', 'ridt'), 'alloct': ('in', 'alloct'), 'ddml': ('in', 'ddml'), 'cache': ('in', 'cache')}
CHANGES = ('insert', 'remove', 'range_delete', 'clean_zone')


def run(ctx):
    for r, w, f in (('put', I_ + '::put', putting), ('drop', I_, dropping), ('move', I_ + '::move_record', moving), ('alone', I_, alone), ('clean', I_ + '::clean_zone', cleaning),
                    ('check', I_ + '::check_ridt', checking), ('tables', I_, tables)):
        with ctx.rule(r, w):
            f(ctx)


def base(ctx, move=False):
    I = C22.base(ctx)
    h = I.hooks
    for n in ('get', 'range', 'addresses') + CHANGES:
        h[T + n] = op('tree.' + n)
    for n in ('put_direct', 'delete_direct', 'get_direct', 'pop_direct', 'used', 'assert_clean_zone'):
        h[D + n] = op(n)
    h['dml::DML::delete'] = op('delete')
    for n in ('delete', 'put', 'pop', 'get'):
        h['<ddml::ddml::DDML as dml::DML>::' + n] = op(n)
    if move:
        h[I_ + '::move_record'] = op('move')
    h['futures::TryStreamExt::try_fold'] = h['futures::StreamExt::fold'] = op('fold')
    h['futures::TryStreamExt::try_for_each'] = op('for_each')
    I.ty[('.', entry_(RIDT, RID), 'refcount')] = (1, 2**63)
    return I


def out(e):
    return ('.', ('.', ('out', e), 'v:Ok'), '0')


def entry_(t, k):
    return ('.', ('.', out(('op', 'tree.get', t, k)), 'v:Some'), '0')


def ops(evs):
    return [e for e in evs if e[0] == 'op']


def is_change(e):
    return e[0] == 'op' and e[1].startswith('tree.') and e[1][5:] in CHANGES


def null(c):
    c = strip(c)
    return isagg(c) and c[1].endswith('Credit') and strip(c[3][0][1]) == 0


def well(ctx, rule, w, evs):
    """Each change is told the transaction, and brings no credit."""
    for e in evs:
        if is_change(e):
            n = e[1][5:]
            t = e[5:] if n == 'insert' else e[4:]
            if n == 'clean_zone':
                t = e[5:]
            ctx.ob(rule, w, t and strip(t[0]) == TXG, f'{n} is told another transaction: {pp(t)[:80]}')
            if n != 'clean_zone':
                ctx.ob(rule, w, len(t) > 1 and null(t[1]), f'{n} brings credit to a table whose changes are not charged')
        elif e[0] == 'op' and e[1] in ('delete_direct', 'delete'):
            ctx.ob(rule, w, strip(e[-1]) == TXG, f'{e[1]} is told another transaction')
        elif e[0] == 'op' and e[1] == 'put_direct':
            ctx.ob(rule, w, strip(e[5]) == TXG, 'the record is written in another transaction')


def kind(I, st, v):
    """Whether an optional result is there, as far as is known."""
    return st.facts.get(('discr', v)) or {0: 'None', 1: 'Some'}.get(I.known(st, ('discr', v)))


def amiss(I, o, evs):
    """Whether what the tables held before is seen to be wrong."""
    for e in ops(evs):
        n = e[1][5:] if e[1].startswith('tree.') else None
        k = None
        for st in (o.st,):
            for x in (e, strip(e)):
                k = k or kind(I, st, out(x))
        if n == 'get' and k == 'None' or n == 'remove' and k == 'None':
            return True
        if n == 'insert' and k in ('None', 'Some'):
            return True
    return False


def failed(ctx, rule, w, o, r, evs):
    """On an error, the error is that of what was done last."""
    x = ops(evs)
    ctx.ob(rule, w, x and cause(r) in x, f'its error is {pp(r)[:100]}, not that of what failed')


def same(v, k, **kw):
    """Whether v is k but for the given fields."""
    v = strip(v)
    for f, x in kw.items():
        if strip(proj(v, f)) != strip(x):
            return False
    return True


def putting(ctx):
    P = ctx.P
    w = I_ + '::put'
    I = base(ctx)
    X = ('in', 'cacheable')
    b = P.method(I_, 'put', 'dml::DML')
    seen = set()
    for o in C22.drive(ctx, I, b, [('ref', ('P', SELF), ()), X, ('in', 'compression'), TXG]):
        evs = events(I, o.st)
        well(ctx, 'put', w, evs)
        at = [e for e in evs if e[0] == 'atomic']
        NEXT = ('.', SELF, 'next_rid')
        fine = len(at) == 1 and strip(at[0][4]) == add(strip(at[0][3]), 1) and 'next_rid' in pp(strip(at[0][2]))
        if not ctx.ob('put', w, fine, f'it takes {len(at)} record ids, in {[pp(e[1:])[:80] for e in at]}'):
            continue
        rid = strip(at[0][3])
        x = ops(evs)
        wr = [e for e in x if e[1] == 'put_direct']
        ctx.ob('put', w, len(wr) == 1 and x[0] is wr[0] and strip(wr[0][2]) == DDML and strip(wr[0][3]) == ('made of', X) and strip(wr[0][4]) == ('in', 'compression'), f'it begins with {show(x[:1])[:100]}, not by writing the record')
        if not wr:
            continue
        drp = strip(out(wr[0]))
        ins = [e for e in x if e[1] == 'tree.insert']
        ctx.ob('put', w, len(x) == 1 + len(ins), f'it does {show(x)[:160]}')
        got = set()
        for e in ins:
            k, v = strip(e[3]), strip(e[4])
            if strip(e[2]) == RIDT:
                good = isagg(k) and strip(proj(k, '0')) == rid and strip(proj(v, 'drp')) == drp and proj(v, 'refcount') == 1
                ctx.ob('put', w, good, f'the table of records gets {pp(k)[:60]} => {pp(v)[:100]}')
                got.add('ridt')
            else:
                good = strip(e[2]) == ALLOCT and k == ('.', drp, 'pba') and isagg(v) and strip(proj(v, '0')) == rid
                ctx.ob('put', w, good, f'the table of addresses gets {pp(k)[:60]} => {pp(v)[:60]}')
                got.add('alloct')
        ca = [e for e in evs if e[0] == 'did' and e[1].startswith('cache.')]
        if o.kind != 'ret':
            ctx.ob('put', w, amiss(I, o, evs), f'it panics: {pp(o.val)[:80]}')
            continue
        r = I.deep(o.st, o.val)
        if isagg(r) and r[2] == 'Err':
            failed(ctx, 'put', w, o, r, evs)
            ctx.ob('put', w, not ca, 'a record that could not be put enters the cache')
            seen.add('err')
            continue
        ctx.ob('put', w, got == {'ridt', 'alloct'} and len(ins) == 2, f'the record is entered only in {sorted(got)}')
        ctx.ob('put', w, all(o.st.facts.get(('discr', ('out', e))) == 'Ok' for e in x), 'it succeeds though something failed')
        v = strip(proj(r, '0'))
        ctx.ob('put', w, isagg(v) and strip(proj(v, '0')) == rid, f'it returns {pp(v)[:80]}, not the id it took')
        good = len(ca) == 1 and ca[0][1] == 'cache.insert' and keyed(ca[0][2][1], rid) and strip(ca[0][2][2]) == X
        ctx.ob('put', w, good, 'the record is not kept in the cache under its own id')
        seen.add('ok')
    ctx.ob('put', w, seen == {'ok', 'err'}, f'it only knows {sorted(seen)}')


def keyed(k, rid):
    k = strip(k)
    if not (isagg(k) and k[2] == 'Rid'):
        return False
    x = strip(proj(k, '0'))
    return x == rid or isagg(x) and strip(proj(x, '0')) == rid


def dropping(ctx):
    P = ctx.P
    E = entry_(RIDT, RID)
    DRP = ('.', E, 'drp')
    PBA = ('.', DRP, 'pba')
    left = sub(('.', E, 'refcount'), 1)
    for n in ('delete', 'pop', 'evict'):
        w = I_ + '::' + n
        I = base(ctx)
        pop = n == 'pop'
        b = P.method(I_, n, 'dml::DML')
        args = [('ref', ('P', SELF), ()), ('ref', ('P', RID), ()), TXG][:b['argc']]
        if n == 'evict':
            outs = I.run(b, args, St())
            ctx.used(I, outs)
            for o in outs:
                evs = [e for e in events(I, o.st) if e[0] in ('op', 'did')]
                ctx.ob('drop', w, o.kind == 'ret' and len(evs) == 1 and evs[0][1] == 'cache.remove' and keyed(evs[0][2][1], RID), f'it does {[e[1] for e in evs]}, expected one removal from the cache')
            continue
        seen = set()
        for o in C22.drive(ctx, I, b, args):
            evs = events(I, o.st)
            well(ctx, 'drop', w, evs)
            x = ops(evs)
            if not ctx.ob('drop', w, x and x[0][1] == 'tree.get' and strip(x[0][2]) == RIDT and strip(x[0][3]) == RID, f'it begins with {show(x[:1])[:80]}, not by looking the record up'):
                continue
            ca = [(i, e) for i, e in enumerate(evs) if e[0] == 'did' and e[1].startswith('cache.')]
            ctx.ob('drop', w, all(keyed(e[2][1], RID) for _, e in ca), 'it touches another record in the cache')
            rest = x[1:]
            locked(ctx, w, evs, rest)
            there = kind(I, o.st, out(x[0]))
            if o.kind != 'ret':
                ctx.ob('drop', w, amiss(I, o, evs), f'it panics: {pp(o.val)[:80]}')
                continue
            r = I.deep(o.st, o.val)
            good = isagg(r) and r[2] == 'Ok'
            if not rest and not good:
                e = proj(r, '0')
                ctx.ob('drop', w, cause(r) == x[0] or there == 'None' and isagg(e) and e[2] == 'ENOENT', f'its error is {pp(r)[:80]}')
                ctx.ob('drop', w, not ca, 'it touches the cache')
                continue
            n_ = ('.', ('.', ('.', out(x[0]), 'v:Some'), '0'), 'refcount')
            last = next((k for k in (I.known(o.st, c) for c in (eq(n_, 1), eq(sub(n_, 1), 0), lt(n_, 2), lt(sub(n_, 1), 1))) if k in (0, 1)), None)
            if not ctx.ob('drop', w, last in (0, 1), 'whether this was the last reference is not known'):
                continue
            fetch = [e for e in rest if e[1] in ('get_direct', 'pop_direct')]
            frees = [e for e in rest if e[1] in ('delete', 'delete_direct', 'pop_direct')]
            tree = [e for e in rest if is_change(e)]
            ctx.ob('drop', w, len(fetch) + len(frees) - len([e for e in fetch if e in frees]) + len(tree) == len(rest), f'it does {show(rest)[:160]}')
            for e in fetch + frees:
                ctx.ob('drop', w, strip(e[2]) == DDML and strip(e[3]) == DRP, f'{e[1]} is done to {pp(e[3])[:100]}, not to the record')
            hit = [e for _, e in ca if e[2][2] == 1]
            if last:
                ctx.ob('drop', w, ca and all(e[1] == 'cache.remove' for _, e in ca), 'the record stays in the cache with its last reference gone')
            else:
                ctx.ob('drop', w, all(e[1] in ('cache.get', 'cache.get_ref') for _, e in ca) and not frees, 'a record to which there are other references is taken out of the cache, or freed')
            if pop:
                ctx.ob('drop', w, bool(fetch) != bool(hit) and len(fetch) <= 1, f'the record is {"not " if not fetch else ""}read though it is {"" if hit else "not "}in the cache')
            else:
                ctx.ob('drop', w, not fetch, 'it reads the record')
            # an unreadable record: the tables are as they were
            for e in fetch:
                i = evs.index(e)
                js = [j for j, f in enumerate(evs) if f[0] == 'join' or is_change(f)]
                ctx.ob('drop', w, all(i < j for j in js), 'the tables are changed before, or while, the record is read: if it cannot be, they are left in any state')
            if not good:
                failed(ctx, 'drop', w, o, r, evs)
                ctx.ob('drop', w, cause(r) not in fetch or not tree and not [e for e in frees if e not in fetch], 'the record cannot be read, but is dropped')
                seen.add(('err', last))
                continue
            ctx.ob('drop', w, all(o.st.facts.get(('discr', ('out', e))) in ('Ok', None) for e in x), 'it succeeds though something failed')
            if last:
                ctx.ob('drop', w, len(frees) == 1, f'the space of the record is freed {len(frees)} times')
                want = {('tree.remove', RIDT, RID), ('tree.remove', ALLOCT, PBA)}
                got = {(e[1], strip(e[2]), strip(e[3])) for e in tree}
                ctx.ob('drop', w, got == want and len(tree) == 2, f'it is taken out of the tables with {show(tree)[:160]}')
            else:
                fine = len(tree) == 1 and tree[0][1] == 'tree.insert' and strip(tree[0][2]) == RIDT and strip(tree[0][3]) == RID
                if ctx.ob('drop', w, fine, f'with references left, the tables are changed with {show(tree)[:160]}'):
                    v = strip(tree[0][4])
                    ctx.ob('drop', w, strip(proj(v, 'drp')) == DRP and strip(proj(v, 'refcount')) == left, f'the entry becomes {pp(v)[:120]}')
            if pop:
                v = strip(proj(r, '0'))
                ctx.ob('drop', w, v == (strip(out(fetch[0])) if fetch else strip(('cached', hit[0][2][1]) if hit else None)), f'it returns {pp(v)[:80]}, not the record')
            seen.add(('ok', last, bool(hit)))
        want = {('ok', l, h) for l in (0, 1) for h in ((True, False) if pop else (False,))} | {('err', 0), ('err', 1)}
        ctx.ob('drop', w, want <= seen, f'of what may happen, it only knows {sorted(seen, key=str)}')


def locked(ctx, w, evs, rest):
    """From the time the entry is read until it has been replaced, nobody else does so."""
    seen = ctx.__dict__.setdefault('alone', {})
    if not [e for e in rest if is_change(e) or e[1].startswith('delete') or e[1] == 'pop_direct']:
        return
    held = False
    for e in evs:
        if e[0] == 'op' and e[1] == 'tree.get':
            break
        if e[0] == 'lock' and e[1] != 'read':
            held = True
        elif e[0] == 'unlock':
            held = False
    seen[w] = seen.get(w, True) and held


def alone(ctx):
    for w, held in sorted(ctx.__dict__.get('alone', {}).items()):
        n = w.split('::')[-1]
        ctx.ob('alone', w, held, f'{n} reads the entry of a record and replaces or removes it later, with nothing that keeps others (the cleaner\'s move_record, or a pop or delete of what it moves) from doing so in between')


def moving(ctx):
    P = ctx.P
    w = I_ + '::move_record'
    I = base(ctx)
    b = P.fn(w)
    names = [l['n'] if 'n' in l else None for l in b['locals'][1:1 + b['argc']]]
    tys = [l['ty'] for l in b['locals'][1:1 + b['argc']]]
    args, me = [], dict(GIVEN)
    for t in tys:
        ref = t.startswith('&')
        if 'cache::Cache' in t:
            v = GIVEN['cache']
        elif 'RidtEntry' in t:
            v = GIVEN['ridt']
        elif 'Tree<' in t:
            v = GIVEN['alloct']
        elif 'DDML' in t and 'IDML' not in t:
            v = GIVEN['ddml']
        elif strip_generics(t).endswith('RID'):
            v = RID
        elif strip_generics(t).endswith('TxgT'):
            v = TXG
        elif 'IDML' in t:
            v = SELF
            me = {'ridt': RIDT, 'alloct': ALLOCT, 'ddml': DDML, 'cache': ('.', SELF, 'cache')}
        else:
            ctx.ob('move', w, False, f'it takes {t}')
            return
        args.append(('ref', ('P', v), ()) if ref else v)
    E = entry_(me['ridt'], RID)
    OLD = ('.', E, 'drp')
    seen = set()
    for o in C22.drive(ctx, I, b, args):
        evs = events(I, o.st)
        well(ctx, 'move', w, evs)
        x = ops(evs)
        if not ctx.ob('move', w, x and x[0][1] == 'tree.get' and strip(x[0][2]) == me['ridt'] and strip(x[0][3]) == RID, f'it begins with {show(x[:1])[:80]}'):
            continue
        rest = x[1:]
        locked(ctx, w, evs, rest)
        if o.kind != 'ret':
            ctx.ob('move', w, amiss(I, o, evs), f'it panics: {pp(o.val)[:80]}')
            continue
        r = I.deep(o.st, o.val)
        ca = [e for e in evs if e[0] == 'did' and e[1].startswith('cache.')]
        ctx.ob('move', w, all(keyed(e[2][1], RID) and e[1] in ('cache.get', 'cache.get_ref') for e in ca), f'it does {[e[1] for e in ca]} to the cache')
        good = isagg(r) and r[2] == 'Ok'
        if not rest:
            ctx.ob('move', w, not good and cause(r) == x[0], f'its result is {pp(r)[:80]}')
            continue
        hit = any(e[2][2] == 1 for e in ca)
        packed = I.known(o.st, ('.', OLD, 'compressed'))
        ctx.ob('move', w, not hit or packed == 0, 'a record that was packed is written again from the cache, where it is not')
        i = 0
        src = None
        if not hit:
            e = rest[0]
            d = strip(e[3]) if len(e) > 3 else None
            raw = isagg(d) and {f: strip(proj(d, f)) for f in ('pba', 'compressed', 'lsize', 'csize', 'checksum')}
            want = {'pba': ('.', OLD, 'pba'), 'compressed': 0, 'lsize': ('.', OLD, 'csize'), 'csize': ('.', OLD, 'csize'), 'checksum': ('.', OLD, 'checksum')}
            if not ctx.ob('move', w, e[1] == 'get_direct' and strip(e[2]) == me['ddml'] and raw == want, f'it reads {pp(d)[:120]}, not the record as it is on disk'):
                continue
            src = ('read', strip(out(e)))
            i = 1
        if len(rest) > i:
            e = rest[i]
            v = strip(e[3]) if len(e) > 3 else None
            mine = src[1] in set(subterms(v)) if src else isinstance(v, tuple) and v[0] == 'bytes' and v[1][0] == 'cached'
            none = len(e) > 4 and isagg(strip(e[4])) and strip(e[4])[2] == 'None'
            if not ctx.ob('move', w, e[1] == 'put_direct' and strip(e[2]) == me['ddml'] and mine and none, f'after reading it, it does {show([e])[:120]}, expected it to write what it read as it is'):
                continue
            put = e
            new = strip(out(e))
            tail = rest[i + 1:]
            if tail:
                e = tail[0]
                ctx.ob('move', w, e[1] == 'delete_direct' and strip(e[2]) == me['ddml'] and strip(e[3]) == OLD and o.st.facts.get(('discr', ('out', put))) == 'Ok', f'once it is written, it does {show([e])[:120]}, expected it to free where it was')
            tree = tail[1:]
            for e in tree:
                k = (e[1], strip(e[2]))
                if k == ('tree.insert', me['ridt']):
                    v = strip(e[4])
                    d = strip(proj(v, 'drp'))
                    fine = strip(e[3]) == RID and strip(proj(v, 'refcount')) == ('.', E, 'refcount')
                    for f in ('pba', 'csize', 'checksum'):
                        fine = fine and strip(proj(d, f)) == ('.', new, f)
                    for f in ('lsize', 'compressed'):
                        y = strip(proj(d, f))
                        fine = fine and (y == ('.', OLD, f) or hit and y == ('.', new, f))
                    ctx.ob('move', w, fine, f'its entry becomes {pp(v)[:200]}')
                elif k == ('tree.insert', me['alloct']):
                    ctx.ob('move', w, strip(e[3]) == ('.', new, 'pba') and strip(e[4]) == RID, f'the table of addresses gets {pp(e[3])[:80]} => {pp(e[4])[:60]}')
                else:
                    ctx.ob('move', w, k == ('tree.remove', me['alloct']) and strip(e[3]) == ('.', OLD, 'pba'), f'it also does {show([e])[:100]}')
            if good:
                kinds = sorted((e[1], 'ridt' if strip(e[2]) == me['ridt'] else 'alloct') for e in tree)
                ctx.ob('move', w, ('tree.insert', 'ridt') in kinds and ('tree.insert', 'alloct') in kinds, f'a record is moved with only {kinds} done to the tables')
                ctx.ob('move', w, ('tree.remove', 'alloct') in kinds, 'the address it was at still stands for the record: if its zone is not wholly cleaned, the tables stay out of step')
                ctx.ob('move', w, len(kinds) == 3, f'the tables are changed with {kinds}')
                v = strip(proj(r, '0'))
                ctx.ob('move', w, strip(proj(v, 'pba')) == ('.', new, 'pba'), f'it returns {pp(v)[:80]}, not where the record is now')
        if not good:
            failed(ctx, 'move', w, o, r, evs)
            seen.add('err')
            continue
        ctx.ob('move', w, all(o.st.facts.get(('discr', ('out', e))) in ('Ok', None) for e in x), 'it succeeds though something failed')
        seen.add('hit' if hit else 'packed' if packed else 'miss')
    ctx.ob('move', w, {'hit', 'packed', 'miss', 'err'} <= seen, f'it only knows {sorted(seen)}')


def zone_range(r, z):
    r = strip(r)
    if not isagg(r) or not r[1].endswith('::Range'):
        return False
    a, b = strip(proj(r, 'start')), strip(proj(r, 'end'))
    zp = ('.', z, 'pba')
    end = add(('.', zp, 'lba'), ('.', z, 'total_blocks'))
    return strip(proj(a, 'cluster')) == strip(proj(b, 'cluster')) == ('.', zp, 'cluster') and strip(proj(a, 'lba')) == ('.', zp, 'lba') and strip(proj(b, 'lba')) == end


def item(I, st, src, elem):
    """(table, range, element) of a stream made from a table."""
    maps = []
    while isagg(src) and src[1].startswith('fut:') or isinstance(src, tuple) and src and src[0] == 'ret':
        if isagg(src):
            maps.append((src[1][4:], proj(src, '1')))
            src = proj(src, '0')
        else:
            maps.append((src[1].split('::')[-1], src[2][1]))
            src = src[2][0]
    return src, maps[::-1]


def cleaning(ctx):
    P = ctx.P
    w = I_ + '::clean_zone'
    Z = ('in', 'zone')
    I = base(ctx, move=True)
    seen = set()
    closed = 0
    for o in C22.drive(ctx, I, P.fn(w), [('ref', ('P', SELF), ()), Z, TXG]):
        evs = events(I, o.st)
        well(ctx, 'clean', w, evs)
        x = ops(evs)
        if not ctx.ob('clean', w, o.kind == 'ret', f'it panics: {pp(o.val)[:80]}'):
            continue
        r = I.deep(o.st, o.val)
        good = isagg(r) and r[2] == 'Ok'
        if not ctx.ob('clean', w, x and x[0][1] == 'for_each', f'it begins with {show(x[:1])[:100]}, not by moving the records'):
            continue
        src, maps = item(I, o.st, x[0][2], None)
        fine = isinstance(src, tuple) and src[0] == 'op' and src[1] == 'tree.range' and strip(src[2]) == ALLOCT and zone_range(src[3], Z)
        ctx.ob('clean', w, fine, f'it moves what is in {pp(src)[:120]}, not what the table has in the zone')
        el = ('agg', 'tuple', '', (('0', ('in', 'at')), ('1', ('in', 'id'))))
        vals = [(o.st.copy(), el)]
        for k, f in maps:
            ctx.ob('clean', w, k == 'map_ok', f'the records to move are picked with {k}')
            vals = [(p.st, p.val) for s, v in vals for p in I.apply(s, f, [v])]
        for s, v in vals:
            n = len(events(I, s))
            for p in I.apply(s, x[0][3], [v]):
                for q in (I.run_future(p.st, p.val) if p.kind == 'ret' else [p]):
                    mv = [e for e in events(I, q.st)[n:] if e[0] == 'op']
                    closed += 1
                    a = [strip(y) for y in mv[0][2:]] if mv else []
                    own = [('.', SELF, 'cache'), RIDT, ALLOCT, DDML]
                    ctx.ob('clean', w, len(mv) == 1 and mv[0][1] == 'move' and ('in', 'id') in a and TXG in a and (all(y in a for y in own) or SELF in a), f'for each record it does {show(mv)[:120]}, expected to move it')
                    if q.kind == 'ret' and mv:
                        e = I.deep(q.st, q.val)
                        bad = isagg(e) and e[2] == 'Err'
                        ctx.ob('clean', w, bad == (q.st.facts.get(('discr', ('out', mv[0]))) == 'Err'), 'that a record could not be moved is ignored')
        rest = x[1:]
        if rest:
            ctx.ob('clean', w, o.st.facts.get(('discr', ('out', x[0]))) == 'Ok', 'it goes on though not all records could be moved')
        got = []
        for e in rest:
            if e[1] == 'assert_clean_zone':
                ctx.ob('clean', w, e is rest[-1], 'it looks whether the zone is clean before it is done')
                continue
            t = 'ridt' if strip(e[2]) == RIDT else 'alloct' if strip(e[2]) == ALLOCT else '?'
            got.append((e[1], t))
            ctx.ob('clean', w, zone_range(e[3], Z), f'{e[1]} of {t} is done to {pp(e[3])[:120]}, not to the zone')
            if e[1] == 'tree.clean_zone':
                ctx.ob('clean', w, strip(e[4]) == ('.', Z, 'txgs'), f'{e[1]} of {t} looks at nodes of {pp(e[4])[:60]}')
        ctx.ob('clean', w, set(got) <= {('tree.clean_zone', 'ridt'), ('tree.clean_zone', 'alloct'), ('tree.range_delete', 'alloct')} and len(set(got)) == len(got), f'it does {got}')
        if ('tree.clean_zone', 'alloct') in got:
            ctx.ob('clean', w, ('tree.range_delete', 'alloct') in got[:got.index(('tree.clean_zone', 'alloct'))], 'the table of addresses is cleaned before what it has of the zone is deleted from it')
        if good:
            ctx.ob('clean', w, ('tree.clean_zone', 'ridt') in got and ('tree.clean_zone', 'alloct') in got, f'a zone counts as clean after {got}: nodes of the tables themselves are left in it')
            ctx.ob('clean', w, all(o.st.facts.get(('discr', ('out', e))) in ('Ok', None) for e in x), 'it succeeds though something failed')
        else:
            failed(ctx, 'clean', w, o, r, evs)
        seen.add(good)
    ctx.ob('clean', w, seen == {True, False} and closed, f'it only knows {sorted(seen)}')


def checking(ctx):
    P = ctx.P
    w = I_ + '::check_ridt'
    I = base(ctx)
    I.hooks['std::io::_eprint'] = I.hooks['std::io::stdio::_eprint'] = lambda I, st, c: R(st, UNIT)
    folds = {}
    seen = set()
    for o in C22.drive(ctx, I, P.fn(w), [('ref', ('P', SELF), ())]):
        evs = events(I, o.st)
        if not ctx.ob('check', w, o.kind == 'ret', f'it panics: {pp(o.val)[:80]}'):
            continue
        lk = [e for e in evs if e[0] == 'lock']
        ctx.ob('check', w, lk and lk[0][1] == 'write' and 'transaction' in pp(lk[0][2]), 'the tables are compared while they may change')
        r = I.deep(o.st, o.val)
        for e in ops(evs):
            if e[1] == 'fold':
                folds[strip(e)] = (o, e)
        if not (isagg(r) and r[2] == 'Ok'):
            ctx.ob('check', w, cause(r) in ops(evs), f'its error is {pp(r)[:80]}')
            seen.add('err')
            continue
        ctx.ob('check', w, not [e for e in evs[:-1] if e[0] == 'unlock' and ops(evs[evs.index(e):])], 'the tables may change before it is done')
        fs = [e for e in ops(evs) if e[1] == 'fold']
        us = [e for e in ops(evs) if e[1] == 'used']
        tot = [e for e in fs if strip(e[3]) == 0]
        yes = [e for e in fs if strip(e[3]) == 1]
        ctx.ob('check', w, len(tot) == 3 and len(yes) == 2 and len(us) == 1, f'it goes over the tables {len(yes)} times and adds up {len(tot)} kinds of blocks')
        val = lambda e: out(e) if o.st.facts.get(('discr', ('out', e))) == 'Ok' else ('out', e)
        total = 0
        for e in tot:
            total = add(total, val(e))
        want = eq(('out', us[0]), total) if us else None
        v = proj(r, '0')
        k = I.known(o.st, v)
        match = I.known(o.st, want) if us else None
        oks = [I.known(o.st, val(e)) for e in yes]
        verdict = None
        if match == 0 or 0 in oks:
            verdict = 0
        elif match == 1 and all(y == 1 for y in oks):
            verdict = 1
        parts = set(conj(v))
        free = {val(e) for e in yes if I.known(o.st, val(e)) is None}
        if verdict is not None:
            ctx.ob('check', w, k == verdict, f'the tables {"agree" if verdict else "do not agree"}, but its answer is {pp(v)[:80]}')
        elif match == 1:
            ctx.ob('check', w, free <= parts, f'its answer, {pp(v)[:100]}, does not depend on all it found')
        else:
            ctx.ob('check', w, False, f'its answer, {pp(v)[:100]}, does not depend on the space used')
        seen.add(('ok', match))
    ctx.ob('check', w, ('ok', 1) in seen and ('ok', 0) in seen and 'err' in seen, f'it only knows {sorted(seen, key=str)}')
    kinds = set()
    for o, e in folds.values():
        src, maps = item(I, o.st, e[2], None)
        if not ctx.ob('check', w, not maps and src[0] == 'op' and src[1] in ('tree.range', 'tree.addresses'), f'it goes over {pp(src)[:100]}'):
            continue
        all_ = isagg(strip(src[3])) and strip(src[3])[1].endswith('RangeFull')
        t = 'ridt' if strip(src[2]) == RIDT else 'alloct' if strip(src[2]) == ALLOCT else '?'
        ctx.ob('check', w, all_, f'it goes over only part of {t}')
        A, K, V = ('in', 'acc'), ('in', 'key'), ('in', 'value')
        nodes = src[1] == 'tree.addresses'
        el = V if nodes else ('agg', 'tuple', '', (('0', K), ('1', V)))
        kinds.add((t, 'nodes' if nodes else 'sum' if strip(e[3]) == 0 else 'each'))
        n = len(events(I, o.st))
        I.ty[A] = 'bool' if strip(e[3]) == 1 else (0, 2**60)
        for p in I.apply(o.st.copy(), e[4], [A, el]):
            for q in (I.run_future(p.st, p.val) if p.kind == 'ret' else [p]):
                if not ctx.ob('check', w, q.kind == 'ret', f'over {t}, it panics: {pp(q.val)[:80]}'):
                    continue
                v = I.deep(q.st, q.val)
                x = ops(events(I, q.st)[n:])
                if strip(e[3]) == 0:
                    drp = V if nodes else ('.', V, 'drp')
                    size = div(add(('.', drp, 'csize'), 4095), 4096)
                    got = strip(proj(v, '0')) if isagg(v) and v[2] == 'Ok' else strip(v)
                    ctx.ob('check', w, got == add(A, size), f'the blocks of {t} add up as {pp(got)[:80]}')
                    continue
                other, key = (RIDT, V) if t == 'alloct' else (ALLOCT, ('.', ('.', V, 'drp'), 'pba'))
                if not ctx.ob('check', w, len(x) == 1 and x[0][1] == 'tree.get' and strip(x[0][2]) == other and strip(x[0][3]) == key, f'for each entry of {t}, it does {show(x)[:100]}'):
                    continue
                if isagg(v) and v[2] == 'Err':
                    ctx.ob('check', w, cause(v) == x[0], f'its error is {pp(v)[:80]}')
                    continue
                got = out(strip(x[0]))
                there = kind(I, q.st, got) or kind(I, q.st, out(x[0]))
                found = ('.', ('.', out(x[0]), 'v:Some'), '0')
                res = strip(proj(v, '0'))
                if there == 'None':
                    ctx.ob('check', w, I.known(q.st, res) == 0, f'an entry of {t} that is not in the other table is let pass')
                    continue
                if t == 'alloct':
                    m = [I.known(q.st, eq(('.', ('.', ('.', found, 'drp'), 'pba'), f), ('.', K, f))) for f in ('cluster', 'lba')]
                    whole = I.known(q.st, eq(('.', ('.', found, 'drp'), 'pba'), K))
                else:
                    m = [I.known(q.st, eq(('.', found, '0'), ('.', K, '0')))]
                    whole = I.known(q.st, eq(found, K))
                agree = 1 if whole == 1 or all(y == 1 for y in m) else 0 if whole == 0 or 0 in m else None
                if agree is None:
                    dep = [y for y in conj(res) if y != A]
                    ctx.ob('check', w, any(K in set(subterms(y)) for y in dep), f'an entry of {t} is let pass without its having been compared with that of the other table')
                else:
                    ctx.ob('check', w, I.known(q.st, res) == 0 if not agree else res == A or I.known(q.st, res) is not None and I.known(q.st, A) == I.known(q.st, res), f'an entry of {t} that {"agrees" if agree else "does not agree"} gives {pp(res)[:80]}')
    want = {('ridt', 'each'), ('alloct', 'each'), ('ridt', 'sum'), ('ridt', 'nodes'), ('alloct', 'nodes')}
    ctx.ob('check', w, kinds == want, f'it goes over {sorted(kinds)}')


def conj(v):
    if isinstance(v, tuple) and v and v[0] in ('and', '&', 'band'):
        return [y for x in v[1:] for y in conj(x)]
    return [v]


def tables(ctx):
    """Who changes the two tables."""
    P = ctx.P
    may = {'put': ('insert',), 'delete': ('insert', 'remove'), 'pop': ('insert', 'remove'), 'move_record': ('insert', 'remove'), 'clean_zone': ('range_delete', 'clean_zone')}
    n = 0
    for b in P.bodies.values():
        p = b['path']
        if not (p.startswith('idml::') or p.startswith('<idml::')):
            continue
        root = p.split('::{')[0]
        f = root.split('::')[-1]
        for bb in b['blocks']:
            for c in names_in(bb):
                if c.startswith(T) and c[len(T):] in CHANGES + ('check',):
                    k = c[len(T):]
                    if k == 'check':
                        continue
                    n += 1
                    ok_ = k in may.get(f, ()) or helper(P, root, may)
                    ctx.ob('tables', root, ok_, f'{f} changes a table with {k}')
    ctx.floor('tables', 'changes of the tables', n, 8)


def helper(P, root, may):
    """Whether only those who may change the tables call root."""
    found = False
    for b in P.bodies.values():
        for bb in b['blocks']:
            if root in names_in(bb):
                r = b['path'].split('::{')[0]
                if r.split('::')[-1] not in may:
                    return False
                found = True
    return found
