"""Transactions: every change to a file system belongs to one open transaction, has its credit first, and makes the next sync do its work."""
from engine.interp import St
from engine.mir import Missing, strip_generics, successors
from engine.models import R, ok, UNIT, proj
from engine.terms import *
from checks.proto import op, events, strip, source, ended, cause, show, place, lock_of
from checks.C19 import closure_family, names_in

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR, async state machines included. Every path of the functions that change a tree on behalf of a user is reduced to the sequence of its '
                   'completed steps: credit, then the lock of the transaction, then the dirty flag, then the changes, each told the transaction that is locked, then the unlock. '
                   'A closed list of callers over the whole call graph shows that trees are changed from nowhere else.',
    'assumptions': ['a guard is released where its destructor runs (Rust)', 'futures_locks excludes writers while a reader holds the lock'],
}
DBI = 'database::database::Inner::'
DBM = 'database::database::Database::'
INNER = ('in', 'inner')
IDML = ('.', INNER, 'idml')
RWD = 'dataset::dataset::ReadWriteDataset::'


def did(n, r=None):
    def f(I, st, c):
        st.log('did', n, tuple(I.deep(st, a) for a in c.args))
        return R(st, UNIT if r is None else r)
    return f


def rwnew(I, st, c):
    return R(st, ('rw',) + tuple(I.deep(st, a) for a in c.args))


def hooks(I):
    h = I.hooks
    h['idml::idml::IDML::borrow_credit'] = op('borrow')
    h['dml::DML::repay'] = h['idml::idml::IDML::repay'] = did('repay')
    h['dml::DML::borrow_credit'] = op('borrow')
    h[RWD + 'new'] = rwnew
    h['tree::tree::Tree::credit_requirements'] = lambda I, st, c: R(st, ('cr', strip(I.deep(st, c.args[0]))))
    h['tree::tree::Tree::serialize'] = lambda I, st, c: R(st, ok(('serialized', strip(I.deep(st, c.args[0])))))
    h['tree::tree::Tree::create'] = lambda I, st, c: R(st, ('newtree',) + tuple(I.deep(st, a) for a in c.args[:1]))
    for n, k in (('insert', 'tree.insert'), ('remove', 'tree.remove'), ('range_delete', 'range_delete'), ('flush', 'tree.flush')):
        h['tree::tree::Tree::' + n] = op(k)
    for n in ('unlink', 'insert_tree', 'get_tree', 'update_tree'):
        h['database::Forest::' + n] = op(n)
    h[RWD + 'insert'] = op('ds.insert')
    h[RWD + 'remove'] = op('ds.remove')
    h[RWD + 'range_delete'] = op('ds.range_delete')
    # what the first entries are made of has its own checks (C10)
    for n in ('fs_tree::ObjKey::dir_entry', 'fs_tree::FSKey::new', 'fs_tree::FSValue::inode', 'types::Timespec::now', 'fs_tree::Timespec::now'):
        h[n] = lambda I, st, c: R(st, ('made', c.name) + tuple(I.deep(st, a) for a in c.args))
    last(h)


def last(h):
    """The last component of a name: `str::split` always has one."""
    def f(I, st, c):
        v = I.deep(st, c.args[0])
        if any(isinstance(t, tuple) and t and t[0] == 'ret' and t[1].split('::')[-1] in ('split', 'rsplit', 'rsplitn', 'splitn') for t in subterms(v)):
            return R(st, ('agg', 'std::option::Option', 'Some', (('0', ('component', c.name.split('::')[-1], v)),)))
        return None
    for n in ('std::iter::DoubleEndedIterator::next_back', 'std::iter::Iterator::last', 'std::iter::Iterator::next'):
        h[n] = f


def run(ctx):
    with ctx.rule('transaction', DBI + 'fswrite'):
        fswrite(ctx)
    with ctx.rule('transaction', DBI + 'destroy_fs'):
        destroy(ctx)
    with ctx.rule('transaction', DBM + 'create_fs'):
        create(ctx)
    with ctx.rule('one-tree', DBI + 'open_filesystem'):
        opened(ctx)
    with ctx.rule('sync', DBM + 'sync_transaction'):
        sync(ctx)
    with ctx.rule('clean', 'cleaner::SyncCleaner::clean_now'):
        clean(ctx)
    with ctx.rule('flush', DBM + 'flush'):
        flush(ctx)
    for n in ('insert', 'remove', 'range_delete'):
        with ctx.rule('dataset', RWD + n):
            dataset(ctx, n)
    with ctx.rule('credit', 'ReadWriteDataset::drop'):
        dropped(ctx)
    for n in ('insert_tree', 'unlink', 'update_tree'):
        with ctx.rule('forest', 'database::Forest::' + n):
            forest(ctx, n)
    with ctx.rule('callers', 'whole crate'):
        callers(ctx)
    with ctx.rule('atomic', 'fs::Fs'):
        once(ctx)


def drive(ctx, b, args, prep=None, st=None):
    I = ctx.interp()
    hooks(I)
    if prep:
        prep(I)
    outs = []
    for o in I.run(b, args, st or St()):
        outs.extend(I.run_future(o.st, o.val) if o.kind == 'ret' else [o])
    ctx.used(I, outs)
    for o in outs:
        o.val = I.deep(o.st, o.val)
    return I, outs


def fut_of(evs, mode='read', where=('.', IDML, 'transaction')):
    l = [(i, e) for i, e in enumerate(evs) if e[0] == 'lock' and e[2] == where]
    return l


OPS = ('op', 'await', 'all', 'seq')


def changes(evs):
    return [(i, e) for i, e in enumerate(evs) if e[0] in OPS and not (e[0] == 'op' and e[1] in ('open', 'borrow', 'get_tree'))]


def serial(ctx, w, evs, where=('.', IDML, 'transaction'), dirty=True):
    """One lock of the transaction: after the credit, before the changes, released after the last one. Returns the transaction."""
    lk = [(i, e) for i, e in enumerate(evs) if e[0] == 'lock' and e[2] == where]
    un = [i for i, e in enumerate(evs) if e[0] == 'unlock' and e[2] == where]
    bo = [i for i, e in enumerate(evs) if e[0] == 'op' and e[1] == 'borrow']
    ch = changes(evs)
    if not ctx.ob('transaction', w, len(lk) == 1 and lk[0][1][1] in ('read', 'write'), f'changes are made in {len(lk)} transactions'):
        return None
    i0, l = lk[0]
    ctx.ob('transaction', w, all(i > i0 for i, _ in ch), f'{show([ch[0][1]]) if ch else ""} is done before the transaction is locked')
    ctx.ob('transaction', w, len(un) == 1 and all(i < un[0] for i, _ in ch), 'the transaction is unlocked before the last change')
    ctx.ob('credit', w, all(i < i0 for i in bo), 'it waits for credit with the transaction locked')
    if dirty:
        ds = [(i, e) for i, e in enumerate(evs) if e[0] == 'atomic' and e[1] != 'load']
        ctx.ob('dirty', w, all(e[4] == 1 and strip(place(e[2])) == ('.', INNER if dirty is True else dirty, 'dirty') for _, e in ds), 'it clears a flag')
        ctx.ob('dirty', w, bool(ds) and ds[0][0] > i0 and all(ds[0][0] < i for i, _ in ch), 'the database is not marked dirty between locking the transaction and the first change: a sync would find nothing to do')
        ctx.ob('dirty', w, all(i < un[0] for i, _ in ds) if un else False, 'the database is marked dirty after the transaction is unlocked')
    return strip(('*', ('out', l[3])))


def opn(evs):
    return next((e for e in evs if e[0] == 'op' and e[1] == 'open'), None)


def got(e):
    """The success of an operation."""
    return ('.', ('.', ('out', strip(e)), 'v:Ok'), '0')


def okval(v):
    return strip(v)


def fswrite(ctx):
    P = ctx.P
    b = P.fn(DBI + 'fswrite')
    w = b['path']
    names = ['inner', 'tree_id', 'ni', 'nd', 'nr', 'bb', 'f']
    a = dict(zip(names, [('in', n) for n in names]))

    def prep(I):
        I.hooks[DBI + 'open_filesystem'] = op('open')
    I, outs = drive(ctx, b, list(a.values()), prep)
    n = 0
    for o in outs:
        if o.kind != 'ret':
            ctx.ob('transaction', w, False, f'it may panic: {pp(o.val)[:100]}')
            continue
        evs = events(I, o.st)
        e = opn(evs)
        if not ctx.ob('one-tree', w, e is not None and strip(e[2:]) == (INNER, a['tree_id']), 'it does not open the file system asked for'):
            continue
        if not changes(evs):
            ctx.ob('after-error', w, ended(o.val) == 'Err' and cause(o.val) == e, 'it does nothing, and does not say why')
            ctx.ob('credit', w, not any(x[0] == 'op' and x[1] == 'borrow' for x in evs), 'credit is lost')
            continue
        n += 1
        tree = got(e)
        txg = serial(ctx, w, evs)
        bo = [x for x in evs if x[0] == 'op' and x[1] == 'borrow']
        cr = ('cr', tree)
        want = addl([mul(('.', cr, 'insert'), a['ni']), mul(('.', cr, 'range_delete'), a['nd']), mul(('.', cr, 'remove'), a['nr']), a['bb']])
        ctx.ob('credit', w, len(bo) == 1 and strip(bo[0][2]) == IDML and strip(bo[0][3]) == want, f'it borrows {pp(bo[0][3]) if bo else "nothing"}, expected {pp(want)}')
        ch = changes(evs)
        app = ch[0][1]
        good = len(ch) == 1 and app[0] == 'await' and app[1][0] == 'app' and app[1][1] == a['f']
        if not ctx.ob('transaction', w, good, f'the steps are {show([x for _, x in ch])}, expected what it was given'):
            continue
        rw = strip(app[1][2])
        rw = rw[0] if len(rw) == 1 and isinstance(rw[0], tuple) and rw[0][0] == 'rw' else rw
        if not ctx.ob('transaction', w, rw[0] == 'rw', f'it hands on {pp(rw)[:100]}'):
            continue
        ctx.ob('one-tree', w, rw[1] == IDML and rw[2] == tree, f'it hands on {pp(rw[2])[:100]}, which is not the tree opened')
        ctx.ob('transaction', w, rw[3] == txg, f'it writes in transaction {pp(rw[3])[:100]}, not in the one that is locked')
        ctx.ob('credit', w, bool(bo) and rw[4] == ('out', strip(bo[0])), f'the credit is {pp(rw[4])[:100]}, not what was borrowed')
        ctx.ob('after-error', w, o.val == ('out', app[1]) or ended(o.val) and cause(o.val) == app[1], f'its result is {pp(o.val)[:100]}')
    ctx.floor('transaction', 'ways to write', n, 1)


def addl(xs):
    v = xs[0]
    for x in xs[1:]:
        v = add(v, x)
    return v


def destroy(ctx):
    P = ctx.P
    b = P.fn(DBI + 'destroy_fs')
    w = b['path']
    parent, tid, name = ('in', 'parent'), ('in', 'tree_id'), ('in', 'name')

    def prep(I):
        I.hooks[DBI + 'open_filesystem'] = op('open')
    I, outs = drive(ctx, b, [INNER, parent, tid, name], prep)
    n = 0
    FT = ('.', INNER, 'fs_trees')
    for o in outs:
        if o.kind != 'ret':
            ctx.ob('transaction', w, False, f'it may panic: {pp(o.val)[:100]}')
            continue
        evs = events(I, o.st)
        steps = [e for e in evs if e[0] in OPS]
        e = opn(evs)
        ends = ended(o.val)
        if not ctx.ob('one-tree', w, e is not None and strip(e[2:]) == (INNER, tid), 'it does not open the file system asked for'):
            continue
        bo = [x for x in evs if x[0] == 'op' and x[1] == 'borrow']
        if not bo:
            ctx.ob('after-error', w, len(steps) == 1 and ends == 'Err' and cause(o.val) == e, 'it does nothing, and does not say why')
            continue
        credit = ('out', strip(bo[0]))
        cr = ('cr', got(e))
        ctx.ob('credit', w, len(bo) == 1 and strip(bo[0][2]) == IDML and strip(bo[0][3]) == ('.', cr, 'range_delete'), f'it borrows {pp(bo[0][3])[:100]}')
        txg = serial(ctx, w, evs)
        ul = [(i, x) for i, x in enumerate(evs) if x[0] == 'op' and x[1] == 'unlink']
        rd = [(i, x) for i, x in enumerate(evs) if x[0] == 'op' and x[1] == 'range_delete']
        rp = [(i, x) for i, x in enumerate(evs) if x[0] == 'did' and x[1] == 'repay']
        held = [i for i, x in enumerate(evs) if x[0] == 'lock' and x[2] == FT and x[1] == 'write']
        rel = [i for i, x in enumerate(evs) if x[0] == 'unlock' and x[2] == FT]
        extra = [x for x in steps if x not in (e, bo[0]) and x[0:2] not in (('op', 'unlink'), ('op', 'range_delete'))]
        ctx.ob('transaction', w, not extra and len(ul) <= 1 and len(rd) <= 1, f'it also does {show(extra)}')
        for i, x in ul:
            ctx.ob('transaction', w, strip(x[2]) == ('.', INNER, 'forest') and strip(x[3]) == parent and strip(x[4]) == tid, f'it unlinks {pp(x[2:5])[:120]}')
            comp = [t for t in subterms(x[5]) if isinstance(t, tuple) and t and t[0] == 'component']
            ctx.ob('transaction', w, len(comp) == 1 and lastof(comp[0], name), f'it unlinks under the name {pp(x[5])[:100]}, not the last component of the name')
            ctx.ob('transaction', w, strip(x[6]) == txg, 'it unlinks in another transaction than the one locked')
            ctx.ob('one-tree', w, len(held) == 1 and held[0] < i and len(rel) == 1 and rel[0] > i, 'the list of trees is not locked while the forest changes')
        if rd:
            n += 1
            i, x = rd[0]
            good = len(ul) == 1 and ul[0][0] < i and o.st.facts.get(('discr', ('out', ul[0][1]))) == 'Ok'
            ctx.ob('transaction', w, good, 'the contents are deleted though the file system is still in the forest')
            ctx.ob('transaction', w, strip(x[4]) == txg, 'the contents are deleted in another transaction')
            ctx.ob('credit', w, strip(x[5]) == credit and not rp, 'the credit is lost or used twice')
            t = strip(x[2])
            ctx.ob('one-tree', w, t == got(e) or ('[]', tid) in [y for y in subterms(t) if isinstance(y, tuple)] or pp(t).find('[tree_id]') >= 0, f'it deletes from {pp(t)[:100]}')
            ctx.ob('transaction', w, isagg(x[3]) and x[3][1].split('::')[-1] == 'RangeFull', f'it deletes {pp(x[3])[:60]}, not everything')
            ctx.ob('after-error', w, o.val == ('out', x) or ended(o.val) and (cause(o.val) == x or ends == 'Ok' and o.st.facts.get(('discr', ('out', x))) == 'Ok'), f'its result is {pp(o.val)[:100]}')
            # and the tree is no longer offered
            rm = [i for i, x in enumerate(evs) if x[0] == 'mapremove' and x[2] == tid and source(strip(x[1])) == FT]
            ctx.ob('one-tree', w, len(held) == len(rel) == 1 and any(held[0] < i < rel[0] for i in rm), 'the tree destroyed stays in the list of open trees')
        else:
            ctx.ob('after-error', w, ends == 'Err' and (not ul or cause(o.val) == ul[0][1]), f'nothing is deleted, and its result is {pp(o.val)[:100]}')
            ctx.ob('credit', w, len(rp) == 1 and strip(rp[0][1][2]) == (IDML, credit), 'the credit is lost')
    ctx.floor('transaction', 'ways to destroy', n, 1)


def lastof(c, name):
    """next_back of split, last of split, next of rsplit: on '/'."""
    how, v = c[1], c[2]
    for t in subterms(v):
        if isinstance(t, tuple) and t and t[0] == 'ret' and t[1].split('::')[-1] in ('split', 'rsplit'):
            k = t[1].split('::')[-1]
            return strip(t[2][0]) == name and t[2][1] == 47 and (k, how) in (('split', 'next_back'), ('split', 'last'), ('rsplit', 'next'))
    return False


def create(ctx):
    P = ctx.P
    b = P.fn(DBM + 'create_fs')
    w = b['path']
    me, parent, name = ('in', 'self'), ('in', 'parent'), ('in', 'name')
    inner = ('.', me, 'inner')
    idml = ('.', inner, 'idml')

    def prep(I):
        I.hooks[DBI + 'open_filesystem'] = op('open')
        I.hooks[DBI + 'fswrite'] = op('nested')
    I, outs = drive(ctx, b, [me, parent, name], prep)
    n = 0
    for o in outs:
        if o.kind != 'ret':
            ctx.ob('transaction', w, False, f'it may panic: {pp(o.val)[:100]}')
            continue
        evs = events(I, o.st)
        ch = changes(evs)
        txg = serial(ctx, w, evs, ('.', idml, 'transaction'), inner)
        bo = [x for x in evs if x[0] == 'op' and x[1] == 'borrow']
        kinds = [x[1] if x[0] == 'op' else x[0] for _, x in ch]
        ctx.ob('transaction', w, 'nested' not in kinds, 'it waits for another transaction within its own')
        if not ctx.ob('credit', w, len(bo) == 1 and strip(bo[0][2]) == idml, 'it does not borrow its credit once'):
            continue
        credit = ('out', strip(bo[0]))
        ins = [x for _, x in ch if contents_op(x)]
        rp = [x for x in evs if x[0] == 'did' and x[1] == 'repay' and not any(isinstance(t, tuple) and t and t[0] == 'rw' for t in subterms(x[2]))]
        it = [x for _, x in ch if x[0:2] == ('op', 'insert_tree')]
        fl = [x for _, x in ch if x[0:2] == ('op', 'tree.flush')]
        for x in fl:
            ctx.ob('transaction', w, strip(x[3]) == txg and strip(x[2])[0] == 'newtree', f'it flushes {pp(x[2:])[:100]}')
        for x in it:
            ctx.ob('transaction', w, strip(x[2]) == ('.', inner, 'forest') and strip(x[3]) == parent and name in list(subterms(x[4])), f'it enters {pp(x[2:5])[:120]} in the forest')
            ctx.ob('transaction', w, bool(fl) and strip(x[5]) == ('serialized', strip(fl[0][2])), 'what it enters in the forest is not the tree it flushed')
            ctx.ob('transaction', w, strip(x[6]) == txg, 'it enters the tree in the forest in another transaction')
        ends = ended(o.val)
        e = opn(evs)
        if e is not None:
            ctx.ob('one-tree', w, len(it) == 1 and strip(e[2:]) == (inner, got(it[0])), 'it does not open the tree that it entered in the forest')
        used = [t for x in ins for t in subterms(x) if isinstance(t, tuple) and t and t[0] == 'op' and t[1].startswith('ds.')]
        rws = {strip(t[2]) for t in used}
        if ends == 'Ok':
            n += 1
            ctx.ob('transaction', w, kinds[:2] == ['tree.flush', 'insert_tree'] and len(ch) >= 3, f'the steps are {kinds}')
            ctx.ob('transaction', w, len(it) == 1 and strip(proj(o.val, '0')) == got(it[0]), 'it returns another id than the one of the new tree')
            ctx.ob('transaction', w, len(set(used)) == 3 and all(t[1] == 'ds.insert' for t in used), f'{len(set(used))} entries are made in a new file system, expected 3')
            ctx.ob('credit', w, not rp, 'the credit is repaid twice')
            tree = ('newtree', idml)
            ctx.ob('credit', w, strip(bo[0][3]) == mul(3, ('.', ('cr', tree), 'insert')), f'it borrows {pp(bo[0][3])[:100]}')
        else:
            last = ch[-1][1] if ch else None
            c = cause(o.val)
            ctx.ob('after-error', w, ends == 'Err' and c is not None and (c == last or last is not None and last[0] in ('await', 'all') and c == last[1] or e is not None and c == e), f'its result is {pp(o.val)[:120]}')
            ctx.ob('credit', w, bool(rws) or len(rp) == 1 and strip(rp[0][2]) == (idml, credit), 'the credit is lost')
        for r in rws:
            good = r[0] == 'rw' and r[1] == idml and e is not None and r[2] == got(e)
            ctx.ob('one-tree', w, good, f'the first entries are made in {pp(r)[:120]}')
            if good:
                ctx.ob('transaction', w, r[3] == txg, 'the first entries are made in another transaction')
                ctx.ob('credit', w, r[4] == credit, 'the first entries do not use the credit borrowed')
    ctx.floor('transaction', 'ways to create', n, 1)


def contents_op(x):
    return any(isinstance(t, tuple) and t and t[0] == 'op' and str(t[1]).startswith('ds.') for t in subterms(x))


def opened(ctx):
    P = ctx.P
    b = P.fn(DBI + 'open_filesystem')
    w = b['path']
    tid = ('in', 'tree_id')

    def prep(I):
        def opn_(I, st, c):
            st.log('did', 'opened', ())
            return R(st, ('opened',) + tuple(I.deep(st, a) for a in c.args))
        I.hooks['tree::tree::Tree::open'] = opn_
    I, outs = drive(ctx, b, [INNER, tid], prep)
    FT = ('.', INNER, 'fs_trees')
    n = m = 0
    for o in outs:
        if o.kind != 'ret':
            ctx.ob('one-tree', w, False, f'it may panic: {pp(o.val)[:100]}')
            continue
        evs = events(I, o.st)
        gt = [(i, e) for i, e in enumerate(evs) if e[0:2] == ('op', 'get_tree')]
        mi = [(i, e) for i, e in enumerate(evs) if e[0] == 'mapinsert']
        other = [e for e in evs if e[0] in OPS and e[0:2] != ('op', 'get_tree')]
        ctx.ob('one-tree', w, not other and len(gt) <= 1, f'it also does {show(other)}')
        for _, e in gt:
            ctx.ob('one-tree', w, strip(e[2:]) == (('.', INNER, 'forest'), tid), f'it reads {pp(e[2:])[:100]} from the forest')
        if ended(o.val) == 'Err':
            ctx.ob('after-error', w, bool(gt) and cause(o.val) == gt[0][1] and not mi, 'an error of its own')
            continue
        v = strip(proj(o.val, '0'))
        if not gt:
            n += 1
            m_ = [t for t in subterms(v) if isinstance(t, tuple) and len(t) == 3 and t[0] == '.' and t[2] == ('[]', tid)]
            ctx.ob('one-tree', w, not mi and len(m_) == 1 and source(m_[0][1]) == FT, f'it returns {pp(v)[:100]}, which is not the registered tree of that id')
            continue
        m += 1
        i = gt[0][0]
        lk = [j for j, e in enumerate(evs) if e[0] == 'lock' and e[2] == FT and e[1] == 'write']
        un = [j for j, e in enumerate(evs) if e[0] == 'unlock' and e[2] == FT]
        good = len(mi) == 1 and len(lk) == 1 and lk[0] < i < mi[0][0] and all(j < lk[0] or j > mi[0][0] for j in un)
        ctx.ob('one-tree', w, good, 'reading a tree and registering it is not done under one lock: it may be opened twice')
        ctx.ob('one-tree', w, absent(o.st, evs[lk[0]][3], tid) if lk else False, 'it does not look for a registered tree under the lock that it registers it under')
        if mi:
            x = strip(mi[0][1][3])
            ctx.ob('one-tree', w, len([e for e in evs if e[0:2] == ('did', 'opened')]) == 1, 'it opens the tree more than once')
            ctx.ob('one-tree', w, mi[0][1][2] == tid and source(strip(mi[0][1][1])) == FT and x == v, 'it does not register the tree that it returns')
            ctx.ob('one-tree', w, v[0] == 'opened' and v[1] == IDML and v[3] == got(gt[0][1]), f'it opens {pp(v)[:100]}')
    ctx.floor('one-tree', 'ways to find a tree', n, 1)
    ctx.floor('one-tree', 'ways to open a tree', m, 1)


def absent(st, fut, tid):
    """The map under this lock is known to have no such entry."""
    for k, v in st.facts.items():
        if isinstance(k, tuple) and k and k[0] == 'discr' and v == 'None':
            t = strip(k[1])
            if isinstance(t, tuple) and t[0] == '.' and t[2] == ('[]', tid) and t[1] == ('out', strip(fut)):
                return True
    return False


def sync(ctx):
    P = ctx.P
    b = P.fn(DBM + 'sync_transaction')
    w = b['path']
    me = ('in', 'self')

    def prep(I):
        I.hooks[DBM + 'sync_transaction_priv'] = op('commit')
    I, outs = drive(ctx, b, [me], prep)
    n = 0
    for o in outs:
        evs = events(I, o.st)
        cm = [e for e in evs if e[0:2] == ('op', 'commit')]
        if o.kind != 'ret':
            sent = any(isinstance(t, tuple) and t and t[0] == 'ret' and t[1].endswith('SinkExt::send') for t in subterms(o.val))
            ctx.ob('sync', w, sent, f'it may panic: {pp(o.val)[:100]}')
            continue
        ctx.ob('sync', w, len(cm) == 1 and strip(cm[0][2]) == ('.', me, 'inner'), 'it returns without a commit')
        if ended(o.val) == 'Ok':
            n += 1
            ctx.ob('sync', w, any(o.st.facts.get(('discr', ('out', e))) == 'Ok' for e in cm), 'it succeeds though the commit failed')
        else:
            ctx.ob('after-error', w, bool(cm) and (cause(o.val) == cm[0] or o.val == ('out', cm[0])), f'its result is {pp(o.val)[:100]}')
            n += o.val == ('out', cm[0]) if cm else 0
    ctx.floor('sync', 'ways to sync', n, 1)


def itemised(ctx, I, o, evs):
    """The steps of each item of a stream that a closure is applied to: [(state, events, value)]."""
    out = []
    for e in evs:
        v = e[1] if e[0] == 'await' else None
        if not (isinstance(v, tuple) and v and v[0] == 'ret' and v[1].split('::')[-1] in ('try_for_each', 'for_each', 'try_fold')):
            continue
        fold = v[1].endswith('try_fold')
        st = o.st.fork() if hasattr(o.st, 'fork') else o.st
        args = [v[2][1], ('in', 'item')] if fold else [('in', 'item')]
        for r in I.apply(st, v[2][2] if fold else v[2][1], args):
            if r.kind != 'ret':
                out.append((e, r.st, None, r))
                continue
            for x in I.run_future(r.st, r.val):
                out.append((e, x.st, events(I, x.st), x))
    return out


def clean(ctx):
    P = ctx.P
    b = P.fn('cleaner::SyncCleaner::clean_now')
    w = b['path']
    me = ('in', 'self')

    def prep(I):
        I.hooks['idml::idml::IDML::clean_zone'] = op('clean_zone')
        I.hooks['cleaner::SyncCleaner::select_zones'] = op('select')
    I, outs = drive(ctx, b, [me], prep)
    idml = ('.', me, 'idml')
    where = ('.', idml, 'transaction')
    n = 0
    for o in outs:
        evs = events(I, o.st)
        if o.kind != 'ret':
            ctx.ob('clean', w, False, f'it may panic: {pp(o.val)[:100]}')
            continue
        steps = [e for e in evs if e[0] in OPS]
        if ended(o.val) == 'Err' and len(steps) == 1:
            ctx.ob('after-error', w, cause(o.val) == steps[0], 'the error is lost')
            continue
        for e, st, ev, r in itemised(ctx, I, o, evs):
            if r.kind != 'ret':
                ctx.ob('clean', w, False, f'it may panic: {pp(r.val)[:100]}')
                continue
            ev = ev[len(evs):] if ev[:len(evs)] == evs else ev
            txg = serial(ctx, w, ev, where, False)
            cz = [x for x in ev if x[0:2] == ('op', 'clean_zone')]
            ctx.ob('clean', w, len(cz) == 1 and strip(cz[0][2]) == idml and ('in', 'item') in list(subterms(cz[0][3])), 'it does not clean the zone selected')
            for x in cz:
                n += 1
                ctx.ob('transaction', w, strip(x[4]) == txg, f'the zone is cleaned in transaction {pp(x[4])[:100]}, not in the one that is locked')
                ctx.ob('after-error', w, r.val == ('out', x) or ended(r.val) == 'Ok' and st.facts.get(('discr', ('out', x))) == 'Ok' or cause(r.val) == x, 'the error is lost')
    # or a loop
        for e in evs:
            if e[0] == 'seq':
                for ev in e[2]:
                    if not any(x[0:2] == ('op', 'clean_zone') for x in ev):
                        continue
                    n += 1
                    txg = serial(ctx, w, list(ev), where, False)
                    for x in ev:
                        if x[0:2] == ('op', 'clean_zone'):
                            ctx.ob('transaction', w, strip(x[4]) == txg, 'the zone is cleaned in another transaction')
    ctx.floor('clean', 'ways to clean a zone', n, 1)


def flush(ctx):
    P = ctx.P
    b = P.fn(DBM + 'flush')
    w = b['path']

    def prep(I):
        I.hooks['idml::idml::IDML::flush'] = op('idml.flush')
    I, outs = drive(ctx, b, [INNER], prep)
    n = 0
    for o in outs:
        evs = events(I, o.st)
        if o.kind != 'ret':
            ctx.ob('flush', w, False, f'it may panic: {pp(o.val)[:100]}')
            continue
        st = [e for e in evs if e[0] == 'atomic' and e[1] != 'load']
        ctx.ob('dirty', w, not st, 'it changes the flags')
        if not changes(evs):
            continue
        n += 1
        txg = serial(ctx, w, evs, dirty=False)
        for _, x in changes(evs):
            if x[0] == 'op':
                ctx.ob('transaction', w, strip(x[-1]) == txg, f'{x[1]} is done for another transaction than the one locked')
        for e, s, ev, r in itemised(ctx, I, o, evs):
            for x in (ev or [])[0:]:
                if x[0:2] == ('op', 'tree.flush'):
                    ctx.ob('transaction', w, strip(x[-1]) == txg, 'a tree is flushed for another transaction than the one locked')
    ctx.floor('flush', 'ways to flush', n, 1)


def dataset(ctx, name):
    P = ctx.P
    bs = P.fns(lambda b: b.get('name') == name and strip_generics(b.get('self') or '') == 'dataset::dataset::ReadWriteDataset')
    if len(bs) != 1:
        raise Missing(RWD + name)
    b = bs[0]
    w = b['path']
    me, k, v = ('in', 'self'), ('in', 'k'), ('in', 'v')
    args = [me, k, v][:b['argc']]

    def prep(I):
        for n in ('insert', 'remove', 'range_delete'):
            I.hooks.pop(RWD + n, None)
        I.hooks['writeback::writeback::Credit::atomic_split'] = I.hooks['writeback::Credit::atomic_split'] = lambda I, st, c: R(st, ('split', strip(I.deep(st, c.args[0])), strip(I.deep(st, c.args[1]))))
    I, outs = drive(ctx, b, args, prep)
    n = 0
    cr = ('.', me, 'cr')
    for o in outs:
        if o.kind != 'ret':
            ctx.ob('dataset', w, False, f'it may panic: {pp(o.val)[:100]}')
            continue
        ops = [e for e in events(I, o.st) if e[0] in OPS]
        n += 1
        kind = {'insert': 'tree.insert', 'remove': 'tree.remove', 'range_delete': 'range_delete'}[name]
        if not ctx.ob('dataset', w, len(ops) == 1 and ops[0][0:2] == ('op', kind), f'it does {show(ops)}'):
            continue
        e = strip(ops[0])
        ctx.ob('dataset', w, e[2] == ('.', ('.', me, 'dataset'), 'tree') and e[3:-2] == tuple(args[1:]), f'it is asked for {pp(e[2:-2])[:120]}')
        ctx.ob('transaction', w, e[-2] == ('.', me, 'txg'), f'it is done in transaction {pp(e[-2])[:80]}, not in that of the dataset')
        c = e[-1]
        good = c[0] == 'split' and c[1] == ('.', me, 'credit')
        if ctx.ob('credit', w, good, f'its credit is {pp(c)[:100]}'):
            f = {'insert': 'insert', 'remove': 'remove', 'range_delete': 'range_delete'}[name]
            rest = sub(c[2], ('.', cr, f))
            sp = [t for t in subterms(rest) if isinstance(t, tuple) and t and t[0] == 'ret' and t[1].endswith('allocated_space') and strip(t[2]) == (v,)]
            ctx.ob('credit', w, rest == 0 if name != 'insert' else len(sp) == 1 and rest == sp[0], f'it takes {pp(c[2])[:100]} of credit')
        ctx.ob('after-error', w, o.val == ('out', ops[0]) or ended(o.val) and cause(o.val) == ops[0] or ended(o.val) == 'Ok', f'its result is {pp(o.val)[:100]}')
    ctx.floor('dataset', f'ways to {name}', n, 1)


def dropped(ctx):
    P = ctx.P
    b = P.method('dataset::dataset::ReadWriteDataset', 'drop', 'std::ops::Drop')
    w = b['path']
    I = ctx.interp()
    hooks(I)
    I.hooks['writeback::writeback::Credit::take'] = I.hooks['writeback::Credit::take'] = lambda I, st, c: R(st, ('taken', strip(I.deep(st, c.args[0]))))
    outs = I.run(b, [('in', 'self')], St())
    ctx.used(I, outs)
    me = ('in', 'self')
    for o in outs:
        rp = [e for e in o.st.effects() if e[0] == 'did' and e[1] == 'repay']
        ctx.ob('credit', w, o.kind == 'ret' and len(rp) == 1 and strip(rp[0][2]) == (('.', ('.', me, 'dataset'), 'idml'), ('taken', ('.', me, 'credit'))), 'the credit left is not repaid')
    ctx.floor('credit', 'ways to end', len(outs), 1)


def forest(ctx, name):
    P = ctx.P
    b = P.fn('database::Forest::' + name)
    w = b['path']
    ty = [l['ty'] for l in b['locals'][1:1 + b['argc']]]
    args = [('in', 'txg') if 'TxgT' in t else ('in', f'a{i}') for i, t in enumerate(ty)]
    if ('in', 'txg') not in args:
        raise Missing(f'{w}: the transaction')

    def prep(I):
        I.hooks.pop('database::Forest::' + name, None)
        I.hooks['tree::tree::Tree::get'] = op('tree.get')
        I.hooks['tree::tree::Tree::last_key'] = op('tree.last_key')
        I.hooks['tree::tree::Tree::range'] = lambda I, st, c: R(st, ('range', strip(I.deep(st, c.args[0])), I.deep(st, c.args[1])))
        I.hooks['database::ForestKey::tree_ent'] = lambda I, st, c: R(st, ('entkey',) + tuple(I.deep(st, a) for a in c.args))
    I, outs = drive(ctx, b, args, prep)
    n = 0
    for o in outs:
        for e in events(I, o.st):
            for t in {t for t in subterms(e) if isinstance(t, tuple) and t and t[0] == 'op' and t[1] in ('tree.insert', 'tree.remove', 'range_delete')}:
                n += 1
                ctx.ob('transaction', w, strip(t[-2]) == ('in', 'txg'), f'{t[1]} is told transaction {pp(t[-2])[:80]}')
    ctx.floor('forest', 'changes of the forest', n, 1)


# who changes trees
CLOSED = (
    ('a writable handle of a file system is made', r'dataset::dataset::ReadWriteDataset::new', (DBI + 'fswrite', DBM + 'create_fs')),
    ('a tree is changed', r'tree::tree::Tree::(insert|remove|range_delete)', (
        DBI + 'destroy_fs', 'database::Forest::insert_tree', 'database::Forest::unlink', 'database::Forest::update_tree', 'dataset::dataset::Dataset::insert',
        'dataset::dataset::Dataset::remove', 'dataset::dataset::Dataset::range_delete', 'idml::idml::IDML::clean_zone', 'idml::idml::IDML::move_record',
        '<idml::idml::IDML as dml::DML>::delete', '<idml::idml::IDML as dml::DML>::pop', '<idml::idml::IDML as dml::DML>::put')),
    ('a data set is changed without credit', r'dataset::dataset::Dataset::(insert|remove|range_delete)', (RWD + 'insert', RWD + 'remove', RWD + 'range_delete')),
    ('the forest is changed', r'database::Forest::(insert_tree|unlink|update_tree)', (DBI + 'destroy_fs', DBM + 'create_fs', DBM + 'sync_transaction_priv')),
    ('the transaction is locked', r'(idml::idml::)?IDML::txg', (DBI + 'fswrite', DBI + 'destroy_fs', DBM + 'create_fs', DBM + 'flush', 'cleaner::SyncCleaner::clean_now')),
)


def graph(P):
    """function -> the functions named in it; closures belong to their function."""
    g = {}
    for b in P.bodies.values():
        f = plain(b['path'])
        s = g.setdefault(f, set())
        for bb in b['blocks']:
            s |= {n.split('::{closure')[0] for n in names_in(bb)}
    return g


def plain(p):
    p = p.split('::{closure')[0]
    return p if p.startswith('<') else strip_generics(p)


def callers(ctx):
    import re
    P = ctx.P
    g = graph(P)
    back = {}
    for f, s in g.items():
        for n in s:
            if n != f:
                back.setdefault(n, set()).add(f)
    pub = {plain(b['path']): b.get('vis') for b in P.bodies.values()}

    def allowed(f, ok, seen=()):
        if f in ok or f in seen:
            return f in ok
        # a helper, of these alone
        if 'pub' in str(pub.get(f, '')).lower() and 'crate' not in str(pub.get(f, '')).lower():
            return False
        cs = back.get(f, set())
        return bool(cs) and all(allowed(c, ok, seen + (f,)) for c in cs)
    for what, rx, ok in CLOSED:
        who = {f for f, s in g.items() for n in s if re.fullmatch(rx, n)}
        for f in sorted(who):
            ctx.ob('callers', f, allowed(f, set(ok)), f'{what} in {f}, outside of the functions that hold the transaction and its credit')
        ctx.floor('callers', f'places where {what}', len(who), len(ok) if 'without' not in what else 3)


WRITERS = {DBM + 'fswrite', DBM + 'create_fs', DBM + 'destroy_fs'}


def once(ctx):
    """No path of a public operation of a file system writes in two transactions."""
    P = ctx.P
    memo = {}
    by = {}
    for b in P.bodies.values():
        by.setdefault(strip_generics(b['path']), []).append(b)

    def weight(bb, stack):
        n = 0
        for x in sorted(names_in(bb)):
            if x in WRITERS:
                n += 1
            elif 'fs::' == x[:4] or x.startswith('<fs::'):
                n += max([count(b, stack) for b in by.get(x, ())], default=0)
        for k in built(bb):
            if k in P.bodies:
                n += count(P.bodies[k], stack)
        return n

    def count(b, stack=()):
        k = b['key']
        if k not in memo:
            if k in stack:
                return 0
            memo[k] = longest(b, [weight(bb, stack + (k,)) for bb in b['blocks']])
        return memo[k]
    n = 0
    for b in P.bodies.values():
        p = strip_generics(b['path'])
        if not p.startswith('fs::Fs::') or '{closure' in p or b.get('vis') is None:
            continue
        c = count(b)
        n += c == 1
        ctx.ob('atomic', b['path'], c <= 1, f'{b["path"]} may write in {"many" if c >= MANY else c} transactions: a crash between them leaves half of it')
    ctx.floor('atomic', 'operations that write', n, 15)


MANY = 99


def longest(b, w):
    """The greatest weight of a path; what weighs something within a cycle may weigh any number of times."""
    n = len(w)
    succ = [[x for x in successors(bb['t']) if x is not None] for bb in b['blocks']]
    # a coroutine that is suspended goes on where its state says
    t = b['blocks'][0]['t'] if n else [None]
    if b['kind'] == 'Closure' and t[0] == 'switch':
        to = {int(v): x for v, x in t[2]}
        for i, bb in enumerate(b['blocks']):
            succ[i] += [to[s[2]] for s in bb['s'] if s[0] == 'sd' and isinstance(s[2], int) and s[2] > 2 and s[2] in to]
    index, low, onst, stack, comp, order = {}, {}, set(), [], {}, []
    for r in range(n):
        if r in index:
            continue
        work = [(r, iter(succ[r]))]
        index[r] = low[r] = len(index)
        stack.append(r)
        onst.add(r)
        while work:
            v, it = work[-1]
            for x in it:
                if x not in index:
                    index[x] = low[x] = len(index)
                    stack.append(x)
                    onst.add(x)
                    work.append((x, iter(succ[x])))
                    break
                if x in onst:
                    low[v] = min(low[v], index[x])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        x = stack.pop()
                        onst.discard(x)
                        comp[x] = len(order)
                        c.append(x)
                        if x == v:
                            break
                    order.append(c)
    best = []
    for i, c in enumerate(order):   # successors come first
        own = sum(w[x] for x in c)
        if own and (len(c) > 1 or c[0] in succ[c[0]]):
            own = MANY
        best.append(min(MANY, own + max([best[comp[y]] for x in c for y in succ[x] if comp[y] != i], default=0)))
    return best[comp[0]] if n else 0


def built(bb):
    """The closures and coroutines made in a block."""
    out = set()

    def walk(v):
        if isinstance(v, dict):
            for x in v.values():
                walk(x)
        elif isinstance(v, (list, tuple)):
            if len(v) >= 2 and v[0] in ('closure', 'coroutine') and isinstance(v[1], str):
                out.add(v[1])
            for x in v:
                walk(x)
    walk(bb['s'])
    return out
