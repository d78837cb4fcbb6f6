"""The commit protocol: what a label vouches for is stable before it, and nothing that the last label needs is destroyed before the next."""
from engine.interp import St
from engine.mir import Missing, strip_generics
from engine.models import R, ok, UNIT, proj
from engine.terms import *
from checks.proto import op, events, strip, source, gathered, Each, ended, cause, show, place, unref

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR, async state machines included. Every path of a sync is reduced to the sequence of its completed steps; the order of the '
                   'steps, their arguments, the lock held over all of them and the early return after a failed one are decided for every path. Each layer is shown to hand sync, '
                   'flush and advance to everyone below with its arguments, and to report their errors.',
    'assumptions': ['FuturesUnordered with try_collect completes when all its futures have, or with an error of one', 'fsync makes what was written stable (VdevFile, kernel)',
                    'a block device carries out a sync after the writes issued before it'],
}
DB = 'database::database::Database'
INNER = ('in', 'inner')
TXL = ('.', ('.', INNER, 'idml'), 'transaction')
RAID = 'raid::vdev_raid_api::VdevRaidApi::'


def run(ctx):
    with ctx.rule('commit', DB + '::sync_transaction_priv'):
        commit(ctx)
    with ctx.rule('advance', 'idml::idml::IDML::advance_transaction'):
        advance(ctx)
    with ctx.rule('clean-flag', 'Inner::dirty'):
        flags(ctx)
    for t in DOWN:
        with ctx.rule('handed-down', f'{t[0]}::{t[1]}'):
            down(ctx, *t)
    for t in PICK:
        with ctx.rule('handed-down', f'{t[0]}::{t[1]}'):
            pick(ctx, *t)
    with ctx.rule('map', 'cluster::Cluster::flush'):
        spacemap(ctx)
    with ctx.rule('map-of-label', 'cluster::FreeSpaceMap::open'):
        mapcopy(ctx)
    with ctx.rule('erase', 'cluster::Cluster'):
        erase(ctx)
    with ctx.rule('repair', 'cluster::Cluster::repair_mirror_step'):
        repair(ctx)


def did(name, r=None):
    def f(I, st, c):
        st.log('did', name, tuple(I.deep(st, a) for a in c.args[1:]))
        return R(st, ('ret', name, (), 0) if r is None else r)
    return f


def commit(ctx):
    P = ctx.P
    I = ctx.interp()
    h = I.hooks
    for k, n in (('tree::tree::Tree::flush', 'tree.flush'), ('database::Forest::update_tree', 'update'), ('database::Forest::flush', 'forest.flush'),
                 ('idml::idml::IDML::flush', 'idml.flush'), ('idml::idml::IDML::write_label', 'label'), ('ddml::ddml::DDML::advance_transaction', 'advance'),
                 ('dml::DML::sync_all', 'sync')):
        h[k] = op(n)
    h['tree::tree::Tree::serialize'] = lambda I, st, c: R(st, ok(('serialized', strip(I.deep(st, c.args[0])))))

    def ser(I, st, c):
        st.log('did', 'forest.serialize', ())
        return R(st, ('forest', st.fresh('forest') if hasattr(st, 'fresh') else 0))
    h['database::Forest::serialize'] = ser

    def lab(I, st, c):
        v = I.load(st, c.args[0])
        I.store(st, c.args[0], ('part', v, I.deep(st, c.args[1])))
        return R(st, ok(UNIT))
    h['label::LabelWriter::serialize'] = lab
    h['label::LabelWriter::new'] = lambda I, st, c: R(st, ('label', c.args[0]))
    b = P.fn(DB + '::sync_transaction_priv')
    w = b['path']
    outs = []
    for o in I.run(b, [INNER], St()):
        outs.extend(I.run_future(o.st, o.val) if o.kind == 'ret' else [o])
    ctx.used(I, outs)
    oks = 0
    for o in outs:
        if o.kind != 'ret':
            ctx.ob('commit', w, False, f'it may panic: {pp(o.val)[:120]}')
            continue
        evs = events(I, o.st)
        steps = [e for e in evs if e[0] in ('op', 'all', 'await', 'seq')]
        okk = ended(o.val)
        loads = [e for e in evs if e[0] == 'atomic' and e[1] == 'load']
        stores = [(i, e) for i, e in enumerate(evs) if e[0] == 'atomic' and e[1] not in ('load',)]
        if not steps and okk == 'Ok':
            clean = any(strip(k) == ('.', INNER, 'dirty') and v == 0 for k, v in o.st.facts.items()) or any(k[0] in ('eq0',) and strip(k[1:]) == (('.', INNER, 'dirty'),) for k in o.st.facts if isinstance(k, tuple))
            ctx.ob('commit', w, clean, 'nothing is committed though something may have changed')
            ctx.ob('commit', w, not stores, 'a sync that does nothing changes the flags')
            continue
        # one lock, over everything
        locks = [i for i, e in enumerate(evs) if e[0] == 'lock' and e[2] == TXL]
        first = next(i for i, e in enumerate(evs) if e in steps)
        ctx.ob('lock', w, len(locks) == 1 and evs[locks[0]][1] == 'write' and locks[0] < first, 'the transaction is not locked before the first step')
        if not locks:
            continue
        fut = evs[locks[0]][3]
        txg = ('*', ('out', fut))
        un = [i for i, e in enumerate(evs) if e[0] == 'unlock' and e[2] == TXL]
        last = max([i for i, e in enumerate(evs) if e in steps] + [i for i, _ in stores])
        ctx.ob('lock', w, len(un) == 1 and un[0] > last, 'the transaction is unlocked before the last step')
        for e in steps:
            ts = txgs(e)
            ctx.ob('txg', w, all(t == strip(txg) for t in ts), f'{show([e])} is done for the transaction {pp(ts)[:100]}, not for the one locked')
        seq = [name(e) for e in steps]
        if okk != 'Ok':
            c = cause(o.val)
            mine = steps and (c == steps[-1] or steps[-1][0] in ('all', 'await') and c == steps[-1][1])
            ctx.ob('after-error', w, bool(mine), f'after {pp(c)[:100]} failed it goes on to {show(steps[-1:])}')
            ctx.ob('commit', w, WANT[:len(seq)] == seq, f'the steps are {seq}')
            if 'advance' not in seq:
                ctx.ob('clean-flag', w, not stores, 'a commit that fails leaves the database clean')
                ctx.ob('advance', w, not advanced(I, o.st, fut), 'a commit that fails ends the transaction')
            continue
        oks += 1
        ctx.ob('commit', w, seq == WANT, f'the steps of a commit are {seq}, expected {WANT}')
        if seq != WANT:
            continue
        at = {}
        for i, e in enumerate(evs):
            at.setdefault(name(e), []).append(i)
        # all trees, and each under its own name
        trees, upd = [evs[at[n][0]] for n in ('all tree.flush', 'all update')]
        held = [e for e in evs if e[0] == 'lock' and e[2] == ('.', INNER, 'fs_trees')]
        ctx.ob('trees', w, bool(held), 'the list of trees is not locked')
        for e in (trees, upd):
            p = e[2][0]
            ctx.ob('trees', w, len(e[2]) == 1 and isinstance(p, Each) and p.whole and all(x is not None for x, _ in p.ops) and source(p.src) == ('.', INNER, 'fs_trees'),
                   f'{show([e])[0][:100]}: not done for every tree')
        for x, _ in trees[2][0].ops if isinstance(trees[2][0], Each) else ():
            t = strip(x[2])
            ctx.ob('trees', w, t[0] == 'item' or t[0] == '.' and t[1][0] == 'item' and t[2] == '1', f'it flushes {pp(t)[:100]}')
        for x, _ in upd[2][0].ops if isinstance(upd[2][0], Each) else ():
            k, v = strip(x[3]), strip(x[4])
            ctx.ob('trees', w, strip(x[2]) == ('.', INNER, 'forest'), f'it updates {pp(x[2])[:100]}')
            ctx.ob('trees', w, k[0] == '.' and k[2] == '0' and v == ('serialized', ('.', k[1], '1')), f'{pp(k)[:80]} is recorded as {pp(v)[:120]}')
        # the forest as it was flushed
        s = [i for i, e in enumerate(evs) if e[0] == 'did' and e[1] == 'forest.serialize']
        ctx.ob('label', w, bool(s) and all(i > at['forest.flush'][0] and i > at['all update'][0] for i in s), 'the label does not describe the forest after it was flushed')
        fl, la = [evs[i] for i in at['idml.flush']], [evs[i] for i in at['label']]
        ctx.ob('label', w, [idx(e) for e in fl] == [0, 1], f'the flushes are for labels {[idx(e) for e in fl]}')
        ls = []
        for e in la:
            v = next((x for x in e[2:] if isinstance(x, tuple) and x[0] == 'part'), None)
            ctx.ob('label', w, v is not None and any(isinstance(t, tuple) and t[0] == 'forest' for t in subterms(v)), f'the label is {pp(e[2:])[:100]}')
            ls.append(v[1][1] if v and v[1][0] == 'label' else None)
        ctx.ob('label', w, ls == [0, 1], f'the labels written are {ls}')
        for e in steps:
            if e[0] == 'op' and e[1] in ('idml.flush', 'label', 'sync'):
                ctx.ob('label', w, strip(e[2]) == ('.', INNER, 'idml'), f'{e[1]} is asked of {pp(e[2])[:80]}')
        # clean only when all is stable
        ctx.ob('clean-flag', w, all(i > at['sync'][-1] and e[1] in ('store', 'swap') and e[4] == 0 and strip(place(e[2])) == ('.', INNER, 'dirty') for i, e in stores), 'the database is marked clean before the last label is stable')
        ctx.ob('clean-flag', w, len(stores) == 1, 'the database never becomes clean' if not stores else 'the flag is written more than once')
        ctx.ob('advance', w, advanced(I, o.st, fut), 'the transaction does not end')
    ctx.floor('commit', 'paths that commit', oks, 1)
    ctx.floor('commit', 'paths', len(outs), 11)


WANT = ['all tree.flush', 'all update', 'forest.flush', 'idml.flush', 'sync', 'label', 'idml.flush', 'sync', 'label', 'sync', 'advance']


def name(e):
    if e[0] == 'op':
        return e[1]
    if e[0] == 'all':
        ns = {x[1] for p in e[2] for x, _ in (p.ops if isinstance(p, Each) else [(p, 0)]) if isinstance(x, tuple) and x[0] == 'op'}
        return 'all ' + '+'.join(sorted(ns))
    return e[0]


def txgs(e):
    """The transactions a step is told."""
    out = []
    if e[0] == 'op' and e[1] in ('tree.flush', 'update', 'forest.flush', 'idml.flush', 'label', 'sync', 'advance'):
        out.append(strip(e[-1]))
    elif e[0] == 'all':
        for p in e[2]:
            for x, _ in (p.ops if isinstance(p, Each) else [(p, 0)]):
                if x is not None:
                    out.extend(txgs(x))
    return out


def idx(e):
    v = e[3]
    return proj(v, '0') if isagg(v) and v[2] == 'Some' else None


def advanced(I, st, fut):
    v = I.deep(st, I.read(st, ('P', ('out', fut)), ()))
    while isagg(v) and len(v[3]) == 1:
        v = v[3][0][1]
    old = ('.', ('*', ('out', fut)), '0')
    return sub(v, old) == 1


def advance(ctx):
    P = ctx.P
    b = P.fn('idml::idml::IDML::advance_transaction')
    w = b['path']
    I = ctx.interp()
    I.hooks['ddml::ddml::DDML::advance_transaction'] = op('advance')
    outs = []
    for o in I.run(b, [('in', 'idml'), ('in', 'f')], St()):
        outs.extend(I.run_future(o.st, o.val) if o.kind == 'ret' else [o])
    ctx.used(I, outs)
    L = ('.', ('in', 'idml'), 'transaction')
    n = 0
    for o in outs:
        evs = events(I, o.st)
        lk = [i for i, e in enumerate(evs) if e[0] == 'lock' and e[2] == L]
        ap = [i for i, e in enumerate(evs) if e[0] == 'await' and isinstance(e[1], tuple) and e[1][0] == 'app']
        ad = [i for i, e in enumerate(evs) if e[0] == 'op']
        un = [i for i, e in enumerate(evs) if e[0] == 'unlock' and e[2] == L]
        good = o.kind == 'ret' and len(lk) == len(ap) == 1 and evs[lk[0]][1] == 'write' and lk[0] < ap[0] and len(un) == 1 and un[0] > max(ap + ad)
        ctx.ob('advance', w, good, 'what ends a transaction does not run with it locked')
        if not good:
            continue
        fut = evs[lk[0]][3]
        ctx.ob('txg', w, strip(evs[ap[0]][1][2]) == (('out', strip(fut)),), 'it commits another transaction than the one locked')
        if ended(o.val) == 'Ok':
            n += 1
            ctx.ob('advance', w, len(ad) == 1 and ad[0] > ap[0], 'a transaction ends without the pool advancing after the commit')
            ctx.ob('advance', w, advanced(I, o.st, fut), 'the transaction does not advance by one')
        else:
            ctx.ob('after-error', w, cause(o.val) in (evs[ap[0]][1],) + tuple(evs[i] for i in ad), 'the error is not that of the step that failed')
            ctx.ob('after-error', w, not ad or cause(o.val) == evs[ad[-1]], 'the pool advances though the commit failed')
            ctx.ob('advance', w, not advanced(I, o.st, fut), 'the transaction advances after an error')
    ctx.floor('advance', 'ways to end a transaction', n, 1)


def flags(ctx):
    """Nobody but the commit marks the database clean."""
    P = ctx.P
    n = 0
    own = closure_family(P, DB + '::sync_transaction_priv')
    for k, b in P.bodies.items():
        if not b['path'].startswith('database::'):
            continue
        for bb in b['blocks']:
            t = bb['t']
            f = t[1]['k'].get('fn') if t[0] == 'call' and isinstance(t[1], dict) and isinstance(t[1].get('k'), dict) else None
            if not f or not f['p'].startswith('std::sync::atomic::Atomic') or 'bool' not in str(f.get('a')) + f['p'] + str(b['locals'][1:3]) + 'bool':
                continue
            m = f['p'].split('::')[-1]
            if m in ('load', 'new'):
                continue
            v = t[2][1] if len(t[2]) > 1 else None
            true = const_true(v)
            n += 1
            ctx.ob('clean-flag', b['path'], b['path'] in own or m in ('store', 'swap', 'fetch_or') and true, f'{m} may mark the database clean outside of a commit')
    ctx.floor('clean-flag', 'writes of the flag', n, 4)


def const_true(v):
    k = v.get('k') if isinstance(v, dict) else None
    return isinstance(k, dict) and k.get('ty') == 'bool' and k.get('v') == '1'


def closure_family(P, path):
    return {b['path'] for b in P.bodies.values() if b['path'] == path or b['path'].startswith(path + '::{')}


# (type, function, receivers of the operation below, arguments handed down)
D, A = 'one', 'each'
DOWN = (
    ('idml::idml::IDML', 'sync_all', D, ('ddml',), (1,)),
    ('ddml::ddml::DDML', 'sync_all', D, ('pool',), ()),
    ('pool::Pool', 'sync_all', A, ('clusters',), ()),
    ('cluster::Cluster', 'sync_all', D, ('vdev',), (None,)),
    ('raid::RaidImpl', 'sync_all', D, ('',), (1,)),
    ('raid::null_raid::NullRaid', 'sync_all', D, ('mirror',), ()),
    ('raid::vdev_raid::VdevRaid', 'sync_all', A, ('inner', 'children'), ()),
    ('mirror::Mirror', 'sync_all', A, ('children',), ()),
    ('ddml::ddml::DDML', 'flush', D, ('pool',), (1,)),
    ('pool::Pool', 'flush', A, ('clusters',), (1,)),
    ('ddml::ddml::DDML', 'advance_transaction', D, ('pool',), (1,)),
    ('pool::Pool', 'advance_transaction', A, ('clusters',), (1,)),
    ('idml::idml::IDML', 'flush', 'idml', ('alloct', 'ridt', 'ddml'), ()),
)
# which states of a child take part
PICK = (
    ('mirror::Child', 'sync_all', ('Present', 'Rebuilding')),
    ('raid::vdev_raid::Child', 'sync_all', ('Present',)),
)


def hook_all(P, I, names, but):
    for x in P.fns(lambda x: x.get('name') in names and x['path'] != but and x.get('self')):
        f = op(x['name'])
        I.hooks[x['path']] = I.hooks[strip_generics(x['path'])] = f
    for n in names:
        I.hooks[RAID + n] = op(n)
        I.hooks['dml::DML::' + n] = op(n)


def sel(v, fs):
    for f in fs:
        v = ('.', v, f) if f else v
    return v


def recv(v):
    """The field an operation is asked of, through locks."""
    v = strip(v)
    for _ in range(4):
        if isinstance(v, tuple) and v[0] == 'out':
            v = source(v)
        elif isinstance(v, tuple) and v[0] == '.' and isinstance(v[2], str) and (v[2].startswith('v:') or v[2] == '0' and isinstance(v[1], tuple) and v[1][0] == '.' and str(v[1][2]).startswith('v:')):
            v = v[1]
        else:
            break
    return v


def down(ctx, ty, fn, how, fs, args):
    P = ctx.P
    bs = P.fns(lambda b: b.get('name') == fn and strip_generics(b.get('self') or '') == ty)
    if len(bs) != 1:
        raise Missing(f'{ty}::{fn}')
    b = bs[0]
    w = b['path']
    I = ctx.interp()
    hook_all(P, I, (fn,), w)
    ins = [('in', f'a{i}') for i in range(b['argc'])]
    outs = []
    for o in I.run(b, ins, St()):
        outs.extend(I.run_future(o.st, o.val) if o.kind == 'ret' else [o])
    ctx.used(I, outs)
    n = 0
    for o in outs:
        if o.kind != 'ret':
            ctx.ob('handed-down', w, False, f'it may panic: {pp(o.val)[:100]}')
            continue
        evs = [e for e in events(I, o.st) if e[0] in ('op', 'all', 'await', 'seq')]
        if ended(o.val) == 'Err':
            c = cause(o.val)
            ctx.ob('error', w, any(c == e or e[0] in ('all', 'await') and c == e[1] for e in evs), f'the error is that of {pp(c)[:80]}')
            continue
        n += 1
        if how == 'idml':
            trees = [recv(e[2]) for e in evs if e[0] == 'op' and len(e) == 4 and strip(e[3]) == ins[2]]
            ctx.ob('handed-down', w, sorted(trees) == sorted(sel(ins[0], (f,)) for f in fs[:2]), f'it flushes {[pp(t) for t in trees]}')
            rest = [e for e in evs if not (e[0] == 'op' and len(e) == 4 and strip(e[3]) == ins[2])]
            want = any(k == ('discr', ins[1]) and v == 'Some' for k, v in o.st.facts.items())
            if want:
                last = evs[-1]
                ctx.ob('handed-down', w, len(rest) == 1 and last == rest[0] and last[0] == 'op' and recv(last[2]) == sel(ins[0], ('ddml',)) and last[3] == ('.', ('.', ins[1], 'v:Some'), '0'),
                       f'the data below is not flushed last, for the label asked for: {show(evs)}')
            else:
                ctx.ob('handed-down', w, not rest and any(k == ('discr', ins[1]) for k in o.st.facts), f'it also does {show(rest)}')
            continue
        if how == D:
            good = len(evs) == 1 and evs[0][0] == 'op' and evs[0][1] == fn
            ctx.ob('handed-down', w, good, f'{fn} leads to {show(evs)}')
            if good:
                ctx.ob('handed-down', w, recv(evs[0][2]) == sel(ins[0], fs), f'{fn} is asked of {pp(evs[0][2])[:100]}')
                passed(ctx, w, evs[0][3:], args, ins)
                done(ctx, w, o, evs[0])
            continue
        if b['argc'] > 1 and not args and any(k == ('discr', ins[1]) and v == 'Some' for k, v in o.st.facts.items()):
            # one particular child
            i = ('.', ('.', ins[1], 'v:Some'), '0')
            terms = [x for e in o.st.effects() for x in ((e,) if e[0] != 'loop' else (e,) + tuple(e[1].entry.values()))]
            txt = {x for e in terms for x in subterms(e) if isinstance(x, tuple) and x and x[0] == 'op'}
            rs = {recv(x[2]) for x in txt}
            ctx.ob('handed-down', w, rs == {('.', sel(ins[0], fs), ('[]', i))}, f'for one child it asks {[pp(r)[:80] for r in rs]}')
            continue
        good = len(evs) == 1 and evs[0][0] == 'all' and len(evs[0][2]) == 1 and isinstance(evs[0][2][0], Each)
        ctx.ob('handed-down', w, good, f'{fn} leads to {show(evs)}')
        if not good:
            continue
        p = evs[0][2][0]
        ctx.ob('handed-down', w, p.whole and source(p.src) == sel(ins[0], fs), f'not everyone below is asked, but {pp(p.src)[:100]}')
        ops = {unwrapped(x) for x, _ in p.ops if x is not None}
        ctx.ob('handed-down', w, len(ops) == 1, f'they are asked {[pp(x)[:60] for x in ops]}')
        for x in ops:
            passed(ctx, w, x[3:], args, ins)
        for x, facts in p.ops:
            if x is None:
                ctx.ob('handed-down', w, any(k[0] == 'discr' and k[1] in ops and v == 'None' for k, v in facts.items() if isinstance(k, tuple)), 'some of those below are left out')
        ctx.ob('error', w, evs[0][3] in ('try_collect', 'try_join_all'), 'errors from below are lost')
    ctx.floor('handed-down', f'ways of {w} to succeed', n, 1)


def unwrapped(x):
    while isinstance(x, tuple) and x and x[0] == '.':
        x = x[1]
    return x


def passed(ctx, w, got, args, ins):
    want = tuple(('agg', 'std::option::Option', 'None', ()) if i is None else ins[i] for i in args)
    ctx.ob('handed-down', w, tuple(got) == want, f'with {[pp(g) for g in got]}, expected {[pp(g) for g in want]}')


def done(ctx, w, o, e):
    ctx.ob('error', w, o.val == ('out', e) or ended(o.val) == 'Ok' and any(k == ('discr', ('out', e)) and v == 'Ok' for k, v in o.st.facts.items()), f'its result is {pp(o.val)[:80]}, not that of the layer below')


def pick(ctx, ty, fn, states):
    P = ctx.P
    b = P.method(ty, fn)
    w = b['path']
    got = set()
    for v in P.adt(ty)['variants']:
        I = ctx.interp()
        hook_all(P, I, (fn,), w)
        st = St()
        pay = ('s', 'child')
        me = ('agg', ty, v['n'], tuple((f[0], pay) for f in v['f']))
        outs = I.run(b, [I.alloc(st, me)], st)
        ctx.used(I, outs)
        for o in outs:
            r = I.deep(o.st, o.val)
            if isagg(r) and r[2] == 'Some':
                got.add(v['n'])
                ctx.ob('handed-down', w, proj(r, '0')[0] == 'op' and strip(proj(r, '0')[2]) == pay, f'a {v["n"]} child does {pp(r)[:80]}')
            else:
                ctx.ob('handed-down', w, isagg(r) and r[2] == 'None' and v['n'] not in states, f'a {v["n"]} child is left out')
    ctx.ob('handed-down', w, got == set(states), f'the children asked are {sorted(got)}, expected {sorted(states)}')


FSM = 'cluster::FreeSpaceMap'


def spacemap(ctx):
    P = ctx.P
    b = P.fn('cluster::Cluster::flush')
    w = b['path']
    I = ctx.interp()
    I.hooks[RAID + 'flush_zone'] = op('flush_zone')
    I.hooks[RAID + 'write_spacemap'] = op('write_spacemap')
    for n in ('waste_space', 'serialize', 'clear_dirty_zones', 'open_zone_ids'):
        I.hooks[f'{FSM}::{n}'] = did(n)
    me, idx = ('in', 'a0'), ('in', 'a1')
    outs = []
    for o in I.run(b, [me, idx], St()):
        outs.extend(I.run_future(o.st, o.val) if o.kind == 'ret' else [])
    ctx.used(I, outs)
    n = 0
    for o in outs:
        if ended(o.val) != 'Ok':
            continue
        n += 1
        effs = [e for e in o.st.effects()]
        flat = []
        for e in effs:
            if e[0] == 'loop':
                flat.append(e)
                for it in e[1].iters:
                    flat.extend((x[0] + '*',) + tuple(x[1:]) for x in it[2])
            else:
                flat.append(e)

        def at(*k):
            return [i for i, e in enumerate(flat) if e[:len(k)] == k]
        alls = [e for e in events(I, o.st) if e[0] == 'all']
        good = len(alls) == 1 and len(alls[0][2]) == 2 and all(isinstance(p, Each) for p in alls[0][2])
        ctx.ob('map', w, good, f'a flush consists of {show(alls)}')
        if not good:
            continue
        parts = {}
        for p in alls[0][2]:
            for x, _ in p.ops:
                parts.setdefault(x[1] if isinstance(x, tuple) and x[0] == 'op' else unwrapped(x)[1], p)
        ctx.ob('map', w, set(parts) == {'flush_zone', 'write_spacemap'}, f'it waits for {sorted(map(str, parts))}')
        ctx.ob('error', w, alls[0][3] in ('try_collect', 'try_join_all'), 'errors are lost')
        if set(parts) != {'flush_zone', 'write_spacemap'}:
            continue
        fz, wm = parts['flush_zone'], parts['write_spacemap']
        ids = ('ret', 'open_zone_ids', (), 0)
        ls = {e[1].lid: e[1] for e in effs if e[0] == 'loop'}
        s = fz.src
        if isinstance(s, tuple) and s[0] == 'lv':
            sub_ = [x for x in ls.values() if x.lid == s[1]]
            its = {t[1] for x in sub_ for it in x.iters for u in it[3].values() for t in subterms(u) if isinstance(t, tuple) and t and t[0] == 'item'}
            s = its.pop() if len(its) == 1 else s
        ctx.ob('map', w, fz.whole and strip(s) == ids and all(x is not None for x, _ in fz.ops), f'not every open zone is flushed, but {pp(s)[:80]}')
        # what a flush pads is accounted as allocated before the map is made
        g = {x for x, _ in fz.ops}
        for x in g:
            x = unwrapped(x)
            gap = ('.', x, '0')
            ws = [e for e in flat if e[0] == 'did*' and e[1] == 'waste_space']
            ctx.ob('map', w, bool(ws) and all(e[2] == (x[3], gap) for e in ws), f'the padding of a flushed zone is not accounted for: {[pp(e[2])[:80] for e in ws]}')
            ad = [e for e in flat if e[0] == 'atomic*' and e[1] in ('add', 'fetch_add')]
            ctx.ob('map', w, len(ad) >= 1 and all(strip(place(e[2])) == ('.', me, 'allocated_space') and e[4] == gap or gap in set(subterms(e)) for e in ad), 'the padding is not added to what is allocated')
        se, cl = at('did', 'serialize'), at('did', 'clear_dirty_zones')
        wsx = at('did*', 'waste_space')
        ctx.ob('map', w, len(se) == 1 and bool(wsx) and max(wsx) < se[0], 'the map is made before the padding is accounted for')
        ctx.ob('map', w, len(cl) == 1 and cl[0] > se[0], 'the zones that changed are forgotten before they are written')
        lk, un = at('lock'), at('unlock')
        ctx.ob('map', w, len(lk) == 1 and flat[lk[0]][2] == 'write' and len(un) == 1 and un[0] > max(cl + se, default=0), 'the map may change while it is written')
        ctx.ob('map', w, wm.whole and strip(wm.src) == ('ret', 'serialize', (), 0) and all(x is not None for x, _ in wm.ops), f'not all of the map is written, but {pp(wm.src)[:80]}')
        for x, facts in wm.ops:
            it = [t for t in subterms(x) if isinstance(t, tuple) and t and t[0] == 'item']
            ctx.ob('map', w, strip(x[2]) == ('.', me, 'vdev') and x[4] == idx, f'block of the map goes to copy {pp(x[4])[:60]}')
            ctx.ob('map', w, bool(it) and x[5] == ('.', it[0], '0'), f'it is written as block {pp(x[5])[:80]}')
        # marks belong to one copy
        dep = any(idx in set(subterms(k)) for k in o.st.facts) or any(idx in set(subterms(flat[i])) for i in cl)
        ctx.ob('map-copy', w, dep, 'a change is forgotten once it is written to one copy of the map: the other copy never gets it')
    ctx.floor('map', 'ways to flush', n, 1)


def mapcopy(ctx):
    P = ctx.P
    b = P.fn(FSM + '::open')
    w = b['path']
    I = ctx.interp()
    I.hooks[RAID + 'read_spacemap'] = op('read_spacemap')
    I.hooks[FSM + '::deserialize'] = op('deserialize')
    outs = []
    ins = [('in', f'a{i}') for i in range(b['argc'])]
    for o in I.run(b, ins, St()):
        outs.extend(I.run_future(o.st, o.val) if o.kind == 'ret' else [])
    ctx.used(I, outs)
    n = 0
    for o in outs:
        evs = [e for e in events(I, o.st) if e[0] == 'op']
        rd = [e for e in evs if e[1] == 'read_spacemap']
        de = [e for e in evs if e[1] == 'deserialize']
        if de:
            n += 1
            ctx.ob('map-of-label', w, len(rd) == 1 and evs.index(rd[0]) < evs.index(de[0]), 'the map is not read before it is used')
        for e in rd:
            ctx.ob('map-of-label', w, not isinstance(e[4], int), f'copy {pp(e[4])} of the map is used whichever label was believed, though it is overwritten before that label is')
    ctx.floor('map-of-label', 'ways to open', n, 1)


def erase(ctx):
    """Zones are erased only when the transaction that emptied them has been committed."""
    P = ctx.P
    b = P.fn('cluster::Cluster::advance_transaction')
    w = b['path']
    I = ctx.interp()
    I.hooks[RAID + 'erase_zone'] = op('erase_zone')
    I.hooks[FSM + '::reap'] = did('reap')
    outs = []
    me = ('in', 'a0')
    for o in I.run(b, [me, ('in', 'a1')], St()):
        outs.extend(I.run_future(o.st, o.val) if o.kind == 'ret' else [o])
    ctx.used(I, outs)
    for o in outs:
        alls = [e for e in events(I, o.st) if e[0] in ('all', 'op', 'seq', 'await')]
        good = o.kind == 'ret' and len(alls) == 1 and alls[0][0] == 'all' and len(alls[0][2]) == 1 and isinstance(alls[0][2][0], Each)
        ctx.ob('erase', w, good, f'it does {show(alls)}')
        if good:
            p = alls[0][2][0]
            ctx.ob('erase', w, p.whole and strip(p.src) == ('ret', 'reap', (), 0) and all(x is not None and strip(x[2]) == ('.', me, 'vdev') for x, _ in p.ops), 'not exactly the reaped zones are erased')
            ctx.ob('error', w, alls[0][3] in ('try_collect', 'try_join_all'), 'errors are lost')
    callers(ctx, 'erase', RAID + 'erase_zone', {'cluster::Cluster::advance_transaction'}, 'cluster::')
    callers(ctx, 'erase', FSM + '::reap', {'cluster::Cluster::advance_transaction'}, '')
    callers(ctx, 'erase', 'cluster::Cluster::advance_transaction', {'pool::Pool::advance_transaction'}, '')
    callers(ctx, 'erase', 'pool::Pool::advance_transaction', {'ddml::ddml::DDML::advance_transaction'}, '')
    callers(ctx, 'erase', 'ddml::ddml::DDML::advance_transaction', {'idml::idml::IDML::advance_transaction'}, '')
    callers(ctx, 'erase', 'idml::idml::IDML::advance_transaction', {DB + '::sync_transaction_priv'}, '')


def callers(ctx, rule, target, may, within):
    P = ctx.P
    n = 0
    for k, b in P.bodies.items():
        if not b['path'].startswith(within):
            continue
        root = b['path'].split('::{')[0]
        if b['path'].startswith('<'):
            root = b['path']
        for bb in b['blocks']:
            if target in names_in(bb):
                n += 1
                ctx.ob(rule, b['path'], root in may or root == target, f'it calls {target}')
    ctx.floor(rule, f'callers of {target}', n, 1)


def names_in(bb):
    out = set()

    def walk(v):
        if isinstance(v, dict):
            f = v.get('fn')
            if isinstance(f, dict) and 'p' in f:
                out.add(strip_generics(f['p']))
            for x in v.values():
                walk(x)
        elif isinstance(v, (list, tuple)):
            for x in v:
                walk(x)
    walk(bb)
    return out


def repair(ctx):
    P = ctx.P
    b = P.fn('cluster::Cluster::repair_mirror_step')
    w = b['path']
    I = ctx.interp()
    for n in ('repair_mirror_zone', 'sync_all', 'repair_label'):
        I.hooks[RAID + n] = op(n)
    I.hooks['label::LabelWriter::new'] = lambda I, st, c: R(st, ('label', c.args[0]))
    outs = []
    for o in I.run(b, [('in', f'a{i}') for i in range(b['argc'])], St()):
        outs.extend(I.run_future(o.st, o.val) if o.kind == 'ret' else [o])
    ctx.used(I, outs)
    n = 0
    W = ['repair_mirror_zone', 'sync_all', 'repair_label', 'sync_all', 'repair_label', 'sync_all']
    for o in outs:
        if o.kind != 'ret':
            continue
        evs = [e for e in events(I, o.st) if e[0] in ('op', 'all', 'await', 'seq')]
        seq = [name(e) for e in evs]
        if 'repair_label' not in seq and ended(o.val) == 'Ok':
            ctx.ob('repair', w, set(seq) <= {'repair_mirror_zone'}, f'it does {seq}')
            continue
        if ended(o.val) != 'Ok':
            ctx.ob('after-error', w, seq in [W[:i] for i in range(7)] + [W[1:i] for i in range(1, 7)] and cause(o.val) == evs[-1], f'it does {seq}')
            continue
        n += 1
        ctx.ob('repair', w, seq == W or seq == W[1:], f'a repaired child gets its label by {seq}')
        mi = {(e[4] if e[1] == 'repair_label' else proj(e[3], '0') if e[1] == 'sync_all' and isagg(e[3]) and e[3][2] == 'Some' else e[3]) for e in evs}
        ctx.ob('repair', w, len(mi) == 1, f'not all is done to the same child: {[pp(m)[:60] for m in mi]}')
        ls = [e[3] for e in evs if e[1] == 'repair_label']
        ctx.ob('repair', w, ls == [('label', 0), ('label', 1)], f'the labels written are {[pp(x) for x in ls]}')
        ts = {e[5] for e in evs if e[1] == 'repair_label'}
        ctx.ob('repair', w, len(ts) == 1, 'the two labels are of different transactions')
    ctx.floor('repair', 'ways to write the label of a repaired child', n, 1)
