"""The pool: a block lies in the cluster its address says, and what is used is counted."""
import itertools
from engine.interp import St
from engine.models import R, ok, err, some, NONE, UNIT, proj
from engine.terms import *
from checks import proto
from checks.proto import strip
from checks.C25 import arr, bare, uid, txg, flat, gather

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR. Every method of the pool that concerns blocks, space or devices is run on pools of one to three clusters with symbolic counters, addresses, lengths and '
                   'buffers, for every result of the clusters; the calls made of the clusters, the counters left behind and what is reported are compared with what the address and the results say.',
    'assumptions': ['a pool of more than three clusters is treated like one of three: no method counts its clusters', 'a cluster does what it is asked or reports an error (C21)', 'the uuids of different devices differ'],
}
ME = ('in', 'pool')
ROOT = ('P', ME)
STATS = ('in', 'stats')
SROOT = ('P', STATS)
W = 'pool::Pool'
CL = 'cluster::Cluster::'
OPS = ('read', 'read_long', 'repair_mirror_step')
PURE = ('size', 'used', 'allocated', 'optimum_queue_depth', 'uuid', 'status')
SIZES = (1, 2, 3)


def run(ctx):
    for r, w, f in (('free', f'{W}::free', freeing), ('read', f'{W}::read', reading), ('write', f'{W}::write', writing), ('new', f'{W}::new', creating),
                    ('space', W, space), ('device', W, devices), ('closed', f'{W}::find_closed_zone', closed), ('status', f'{W}::status', status), ('rebuild', W, rebuilding)):
        with ctx.rule(r, w):
            f(ctx)


def cl(i):
    return ('in', f'cluster{i}')


def q(i):
    return ('in', f'depth{i}')


def pba(i, lba):
    return ('agg', 'types::PBA', '', (('cluster', i), ('lba', lba)))


def world(ctx):
    I = ctx.interp()
    I.unroll = 8
    h = I.hooks
    for m in OPS:
        h[CL + m] = proto.op(m)
    for m in PURE:
        h[CL + m] = lambda I, st, c, m=m: R(st, (m, bare(I, st, c.args[0])))
    h['futures::StreamExt::collect'] = gather
    h['std::iter::Iterator::min_by'] = h['std::iter::Iterator::max_by'] = h['std::iter::Iterator::min_by_key'] = h['std::iter::Iterator::max_by_key'] = least
    h['divbuf::DivBuf::len'] = lambda I, st, c: R(st, ('length', bare(I, st, c.args[0])))
    for m in ('free', 'assert_clean_zone'):
        h[CL + m] = lambda I, st, c, m=m: (st.log('did', m, *(bare(I, st, a) for a in c.args)), R(st, UNIT))[1]
    return I


def pool(I, n):
    st = St()
    I.write(st, ROOT, ('clusters',), arr([cl(i) for i in range(n)]))
    I.write(st, ROOT, ('stats',), STATS)
    I.write(st, ROOT, ('uuid',), uid(7))
    I.write(st, SROOT, ('queue_depth',), arr([q(i) for i in range(n)]))
    I.write(st, SROOT, ('optimum_queue_depth',), arr([('in', f'optimum{i}') for i in range(n)]))
    I.write(st, SROOT, ('size',), arr([('in', f'size{i}') for i in range(n)]))
    I.write(st, SROOT, ('used_space',), ('in', 'used'))
    return st


def call(ctx, I, name, args, n, st=None, fut=True):
    outs = []
    for o in I.run(ctx.P.fn(name), [ME, *args], st or pool(I, n)):
        outs.extend(I.run_future(o.st, o.val) if fut and o.kind == 'ret' and not (isagg(o.val) and o.val[2] in ('Ok', 'Err')) else [o])
    ctx.used(I, outs)
    return outs


def counters(I, st, n):
    d = flat(I.deep(st, I.read(st, SROOT, ('queue_depth',))))
    return [strip(x) for x in d], strip(I.deep(st, I.read(st, SROOT, ('used_space',))))


def still(ctx, rule, w, I, o, n, used=('in', 'used'), what=''):
    """The counters are what they were, but for the space used; and they were changed by whole operations."""
    d, u = counters(I, o.st, n)
    ctx.ob(rule, w, d == [q(i) for i in range(n)], f'the commands that are under way are counted as {[pp(x) for x in d]} afterwards{what}')
    ctx.ob(rule, w, u == used, f'{pp(u)[:100]} is counted as used{what}, not {pp(used)[:100]}')
    ctx.ob(rule, w, not any(e[0] == 'atomic' and e[1] == 'store' for e in o.st.effects()), 'a counter is written without regard to what others do to it')


def evs(I, o):
    return [e for e in proto.events(I, o.st) if e[0] == 'op']


def did(o):
    return [e[1:] for e in o.st.effects() if e[0] == 'did']


def freeing(ctx):
    for n in SIZES:
        for i in range(n):
            I = world(ctx)
            L, N = ('in', 'lba'), ('in', 'length')
            outs = call(ctx, I, f'{W}::free', [pba(i, L), N], n, fut=False)
            ctx.ob('free', f'{W}::free', bool(outs), 'no outcome')
            for o in outs:
                got = did(o)
                ctx.ob('free', f'{W}::free', o.kind == 'ret' and got == [('free', cl(i), L, N)], f'what is done to free blocks of cluster {i} is {pp(got)[:200]}')
                still(ctx, 'free', f'{W}::free', I, o, n, sub(('in', 'used'), N))


def reading(ctx):
    for m, args in (('read', [('in', 'buf')]), ('read_long', [('in', 'len')])):
        w = f'{W}::{m}'
        for n in SIZES:
            for i in range(n):
                I = world(ctx)
                L = ('in', 'lba')
                for o in call(ctx, I, w, [*args, pba(i, L)], n):
                    if not ctx.ob('read', w, o.kind == 'ret', f'it panics: {pp(o.val)[:80]}'):
                        continue
                    got = [(e[1],) + tuple(strip(x) for x in e[2:]) for e in evs(I, o)]
                    ctx.ob('read', w, got == [(m, cl(i), args[0], L)], f'what is done to read from cluster {i} is {pp(got)[:200]}')
                    still(ctx, 'read', w, I, o, n)
                    v = I.deep(o.st, o.val)
                    ctx.ob('read', w, strip(v)[:1] == ('out',) and strip(v)[1][:2] == ('op', m), f'its result is {pp(v)[:100]}, not that of the cluster')


def least(I, st, c):
    """The least by an order that is not looked into is one of them."""
    from engine.models import drive, drive_ret, known_iter

    def body(s, a, x):
        r = []
        for s2, pr, b in I.split_opt(s, a):
            r.append((s2, 'next', some(x)))
            if pr:
                r.append((s2.copy(), 'next', some(b)))
        return r
    return drive_ret(I, drive(I, st, known_iter(I, st, c), NONE, body))


def finish(ctx, I, o):
    """Waits for a future with a poll of its own: (outcome, what it was waiting for)."""
    v = I.deep(o.st, o.val)
    f = v[1] if isinstance(v, tuple) and v[:1] == ('out',) else None
    if not isagg(f):
        return [o]
    bs = ctx.P.fns(lambda b: b['path'] == f'<{f[1]} as futures::Future>::poll')
    assert len(bs) == 1, f'what waiting for a {f[1]} does is not known'

    def poll(I, st, c):
        x = bare(I, st, c.args[0])
        waited = sum(1 for e in st.effects() if e[0] == 'polled' and e[2] == x)
        res = []
        for k in ('done', 'pending')[:2 if not waited else 1]:
            s = st.copy()
            s.log('polled', k, x)
            res.extend(R(s, ('agg', 'std::task::Poll', 'Pending', ()) if k == 'pending' else ('agg', 'std::task::Poll', 'Ready', (('0', ('out', x)),))))
        return res
    I.hooks['futures::Future::poll'] = poll
    out, todo = [], []
    me = I.alloc(o.st, f)
    todo = [o.st]
    for _ in range(3):
        now, todo = todo, []
        for st in now:
            for x in I.run(bs[0], [me, ('in', 'cx')], st):
                y = I.deep(x.st, x.val) if x.kind == 'ret' else None
                if isagg(y) and y[2] == 'Pending':
                    todo.append(x.st)
                else:
                    if isagg(y):
                        x.val = proj(y, '0')
                    out.append(x)
    assert not todo, 'it never gets ready'
    return out


def writing(ctx):
    w = f'{W}::write'
    for n in SIZES:
        I = world(ctx)
        seen = set()

        def write(I, st, c):
            x = [bare(I, st, a) for a in c.args]
            st.log('did', 'write', *x)
            bad = st.copy()
            f = ('op', 'write') + tuple(x)
            return [*R(st, ok(('agg', 'tuple', '', (('0', ('in', 'lba')), ('1', f))))), *R(bad, err(('in', 'early')))]
        I.hooks[CL + 'write'] = write
        outs = [x for o in call(ctx, I, w, [('in', 'buf'), ('in', 'txg')], n) for x in finish(ctx, I, o)]
        for o in outs:
            if not ctx.ob('write', w, o.kind == 'ret' and isagg(o.val) and len(did(o)) == 1, f'what is done to write is {pp(did(o))[:200]}'):
                continue
            got = did(o)[0]
            to = next((i for i in range(n) if got == ('write', cl(i), ('in', 'buf'), ('in', 'txg'))), None)
            if not ctx.ob('write', w, to is not None, f'what is done to write is {pp(got)[:200]}'):
                continue
            r = o.st.facts.get(('discr', ('out', ('op',) + got)))
            seen.add((to, r))
            v = strip(I.deep(o.st, o.val))
            if r == 'Ok':
                ctx.ob('write', w, v == ok(pba(to, ('in', 'lba'))), f'what is written to cluster {to} is said to be at {pp(v)[:100]}')
            else:
                e = ('in', 'early') if r is None else strip(('.', ('.', ('out', ('op',) + got), 'v:Err'), '0'))
                ctx.ob('write', w, v == err(e), f'a failed write yields {pp(v)[:100]}')
            still(ctx, 'write', w, I, o, n, add(('in', 'used'), blocks(('length', ('in', 'buf')))) if r == 'Ok' else ('in', 'used'), f' after a write that {"succeeds" if r == "Ok" else "fails"}')
        ctx.ob('write', w, {r for _, r in seen} == {'Ok', 'Err', None}, f'of the results of a cluster it only meets {[r for _, r in seen]}')
        ctx.ob('choose', w, {i for i, _ in seen} == set(range(n)), f'of {n} clusters it only writes to {sorted({i for i, _ in seen})}')


def blocks(n):
    return div(add(n, 4095), 4096)


def creating(ctx):
    """A pool counts what its clusters hold, and nothing is under way."""
    w = f'{W}::new'
    for n in SIZES:
        I = world(ctx)
        outs = I.run(ctx.P.fn(w), [('in', 'name'), uid(7), arr([cl(i) for i in range(n)])], St())
        ctx.used(I, outs)
        for o in outs:
            v = I.deep(o.st, o.val) if o.kind == 'ret' else None
            s = I.deep(o.st, proj(v, 'stats')) if isagg(v) else None
            for _ in range(4):
                s = I.deep(o.st, s)
                if isinstance(s, tuple) and s[:1] in (('&',), ('*',)):
                    s = s[1]
                elif isinstance(s, tuple) and s[:1] == ('ref',):
                    s = I.load(o.st, s)
            if not ctx.ob('new', w, isagg(s), f'the counters are {pp(s)[:100]}'):
                continue
            ctx.ob('new', w, [strip(x) for x in flat(proj(v, 'clusters')) or []] == [cl(i) for i in range(n)], 'the clusters are others, or in another order')
            ctx.ob('new', w, flat(proj(s, 'queue_depth')) == [0] * n, f'of {n} idle clusters the commands under way are {pp(proj(s, "queue_depth"))[:100]}')
            ctx.ob('new', w, [strip(x) for x in flat(proj(s, 'size')) or []] == [('size', cl(i)) for i in range(n)], f'the sizes are {pp(proj(s, "size"))[:100]}')
            want = 0
            for i in range(n):
                want = add(want, ('used', cl(i)))
            ctx.ob('new', w, strip(proj(s, 'used_space')) == want, f'{pp(proj(s, "used_space"))[:100]} is counted as used')
            ctx.ob('new', w, strip(proj(v, 'uuid')) == uid(7) and strip(proj(v, 'name')) == ('in', 'name'), 'the pool has another name')
        ctx.ob('new', w, len(outs) == 1, f'{len(outs)} outcomes')


def space(ctx):
    """The space is the sum of that of the clusters; what is used is what is counted."""
    for n in SIZES:
        want = 0
        for i in range(n):
            want = add(want, ('in', f'size{i}'))
        for m, x in (('size', want), ('used', ('in', 'used'))):
            I = world(ctx)
            outs = call(ctx, I, f'{W}::{m}', [], n, fut=False)
            ctx.ob('space', f'{W}::{m}', len(outs) == 1, f'{len(outs)} outcomes')
            for o in outs:
                ctx.ob('space', f'{W}::{m}', o.kind == 'ret' and strip(o.val) == x, f'{m} of {n} clusters is {pp(o.val)[:100]}')
                still(ctx, 'space', f'{W}::{m}', I, o, n)


def error(x):
    return ('agg', 'types::Error', x, ())


def devices(ctx):
    """A device is attached to, or faulted in, the cluster that knows it; of an unknown one, nothing is done."""
    for m, args in (('attach', [uid(9), ('in', 'path')]), ('fault', [uid(9)])):
        w = f'{W}::{m}'
        for n in SIZES:
            I = world(ctx)

            def ask(I, st, c):
                x = [bare(I, st, a) for a in c.args]
                res = []
                for r in (ok(UNIT), err(error('ENOENT')), err(error('EIO'))):
                    s = st.copy()
                    s.log('did', m, r, *x)
                    res.extend(R(s, r))
                return res
            I.hooks[CL + m] = ask
            for o in call(ctx, I, w, args, n):
                d = did(o)
                if not ctx.ob('device', w, o.kind == 'ret' and all(e[0] == m and e[3:] == tuple(args) for e in d), f'the clusters are asked {pp(d)[:200]}'):
                    continue
                asked = [e[2] for e in d]
                said = [e[1] for e in d]
                v = strip(I.deep(o.st, o.val))
                ctx.ob('device', w, len(set(asked)) == len(asked) and set(asked) <= {cl(i) for i in range(n)}, f'the clusters asked are {pp(asked)}')
                last = [r for r in said if r != err(error('ENOENT'))]
                ctx.ob('device', w, v == (last[0] if last else err(error('ENOENT'))), f'when the clusters say {pp(said)[:120]}, it says {pp(v)}')
                ctx.ob('device', w, len(last) <= 1 and (bool(last) or len(asked) == n), f'when the clusters say {pp(said)[:120]}, it stops there')
            I.hooks[CL + m] = lambda I, st, c: (st.log('did', m), R(st, ok(UNIT)))[1]
            for o in call(ctx, I, w, [uid(7)] + args[1:], n):
                ctx.ob('device', w, o.kind == 'ret' and not did(o) and strip(I.deep(o.st, o.val)) == err(error('EINVAL')), 'the pool itself is taken for a device')
    w = f'{W}::restore'
    for n in SIZES:
        for i in range(n):
            I = world(ctx)
            I.hooks[CL + 'restore'] = lambda I, st, c: R(st, ('restored',) + tuple(bare(I, st, a) for a in c.args))
            for o in call(ctx, I, w, [i, ('in', 'mirror')], n, fut=False):
                ctx.ob('device', w, o.kind == 'ret' and strip(o.val) == ('restored', cl(i), ('in', 'mirror')), f'to restore a mirror of cluster {i}, it does {pp(o.val)[:100]}')


def closed(ctx):
    """Every closed zone of every cluster is found, one after another."""
    w = f'{W}::find_closed_zone'
    F = ('freed_blocks', 'start', 'total_blocks', 'txgs', 'zid')
    Z = ('agg', 'cluster::ClosedZone', '', tuple((f, ('in', 'found.' + f)) for f in F))
    for n in SIZES:
        for i in range(n):
            I = world(ctx)

            def find(I, st, c):
                st.log('did', 'find', *(bare(I, st, a) for a in c.args))
                return [*R(st, some(Z)), *R(st.copy(), NONE)]
            I.hooks[CL + 'find_closed_zone'] = find
            got = []
            for o in call(ctx, I, w, [i, ('in', 'zone')], n, fut=False):
                if o.kind == 'panic':
                    ctx.ob('closed', w, 'overflow' in str(o.val), f'it panics: {pp(o.val)[:100]}')
                    continue
                ctx.ob('closed', w, did(o) == [('find', cl(i), ('in', 'zone'))], f'from zone z of cluster {i} on, it looks at {pp(did(o))[:100]}')
                v = strip(I.deep(o.st, o.val))
                z, nx = proj(v, '0'), proj(v, '1')
                nxt = (proj(proj(nx, '0'), '0'), proj(proj(nx, '0'), '1')) if isagg(nx) and nx[2] == 'Some' else None
                if isagg(z) and z[2] == 'Some':
                    f = dict(proj(z, '0')[3])
                    ctx.ob('closed', w, f.pop('pba', None) == pba(i, ('in', 'found.start')) and f == {k: ('in', 'found.' + k) for k in F if k != 'start'}, f'a zone of cluster {i} becomes {pp(z)[:200]}')
                    ctx.ob('closed', w, nxt == (i, add(('in', 'found.zid'), 1)), f'after a zone of cluster {i} it goes on with {pp(nx)[:100]}')
                else:
                    ctx.ob('closed', w, z == NONE and nxt == ((i + 1, 0) if i < n - 1 else None), f'after the zones of cluster {i} of {n} it goes on with {pp(nx)[:100]}')
                got.append(z != NONE)
            ctx.ob('closed', w, sorted(got) == [False, True], 'it does not tell a closed zone from none')


def compared(v):
    if isinstance(v, tuple) and v[:1] == ('cmp',) and all(isinstance(x, int) for x in v[1:3]):
        return 'Less' if v[1] < v[2] else 'Greater' if v[1] > v[2] else 'Equal'
    return v[2] if isagg(v) else pp(v)


def worst(order):
    """Of a list of healths the greatest, or the least, by the order of the source."""
    def f(I, st, c):
        from engine.models import drive, drive_ret, known_iter
        sign = -1 if c.name.endswith('min') else 1

        def body(s, a, x):
            x = strip(I.deep(s, x))
            y = proj(a, '0') if isagg(a) and a[2] == 'Some' else None
            return [(s, 'next', some(x if y is None or sign * order[x, strip(y)] >= 0 else y))]
        return drive_ret(I, drive(I, st, known_iter(I, st, c), NONE, body))
    return f


def status(ctx):
    """A pool is as healthy as the worst of its clusters."""
    w = f'{W}::status'
    H = [('agg', 'vdev::Health', 'Online', ()), ('agg', 'vdev::Health', 'Degraded', (('0', 1),)), ('agg', 'vdev::Health', 'Degraded', (('0', 2),)),
         ('agg', 'vdev::Health', 'Faulted', (('0', ('agg', 'vdev::FaultedReason', 'User', ())),))]
    order = {}
    for i, a in enumerate(H):
        for j, b in enumerate(H):
            I = world(ctx)
            st = St()
            outs = I.run(ctx.P.fn('<vdev::Health as std::cmp::Ord>::cmp'), [I.alloc(st, a), I.alloc(st, b)], st)
            got = [compared(o.val) for o in outs]
            ctx.ob('status', 'vdev::Health', got == ['Less' if i < j else 'Greater' if i > j else 'Equal'], f'{pp(a)} compares to {pp(b)} as {got}')
            order[a, b] = i - j
    for n in SIZES:
        for hs in itertools.product(range(len(H)), repeat=n):
            I = world(ctx)
            me = {cl(i): ('agg', 'cluster::Status', '', (('health', H[h]), ('which', cl(i)))) for i, h in enumerate(hs)}
            I.hooks['std::iter::Iterator::max'] = I.hooks['std::iter::Iterator::min'] = worst(order)
            I.hooks[CL + 'status'] = lambda I, st, c: R(st, me[bare(I, st, c.args[0])])
            outs = call(ctx, I, w, [], n, fut=False)
            for o in outs:
                v = I.deep(o.st, o.val) if o.kind == 'ret' else None
                if not ctx.ob('status', w, isagg(v), f'it panics: {pp(o.val)[:100]}'):
                    continue
                ctx.ob('status', w, strip(proj(v, 'health')) == H[max(hs)], f'of clusters that are {[pp(H[h]) for h in hs]} the pool is {pp(proj(v, "health"))[:100]}')
                ctx.ob('status', w, [strip(x) for x in flat(proj(v, 'clusters')) or []] == [me[cl(i)] for i in range(n)], 'it does not report its clusters')
                ctx.ob('status', w, strip(proj(v, 'uuid')) == uid(7), 'it reports another name')
            ctx.ob('status', w, len(outs) == 1, f'{len(outs)} outcomes')


def rebuilding(ctx):
    """A rebuild goes on in the cluster in which it began."""
    w = f'{W}::repair_mirror'
    for n in SIZES:
        for i in range(n):
            I = world(ctx)
            I.hooks[CL + 'repair_mirror'] = lambda I, st, c: R(st, ('task',) + tuple(bare(I, st, a) for a in c.args))
            for o in call(ctx, I, w, [i, ('in', 'mirror'), ('in', 'txgs')], n, fut=False):
                v = I.deep(o.st, o.val) if o.kind == 'ret' else None
                ctx.ob('rebuild', w, isagg(v) and proj(v, 'cluster_idx') == i and strip(proj(v, 'task')) == ('task', cl(i), ('in', 'mirror'), ('in', 'txgs')), f'the task for a mirror of cluster {i} is {pp(v)[:100]}')
            w2 = w + '_step'
            I = world(ctx)
            st = pool(I, n)
            task = I.alloc(st, ('agg', 'pool::RepairMirrorTask', '', (('cluster_idx', i), ('task', ('in', 'task')))))
            for o in call(ctx, I, w2, [task, ('in', 'open')], n, st):
                got = [(e[1], strip(e[2]), strip(e[-1])) for e in evs(I, o)]
                ctx.ob('rebuild', w2, o.kind == 'ret' and got == [('repair_mirror_step', cl(i), ('in', 'open'))], f'a step for cluster {i} is {pp(got)[:150]}')
                v = strip(I.deep(o.st, o.val)) if o.kind == 'ret' else None
                ctx.ob('rebuild', w2, isinstance(v, tuple) and v[:1] == ('out',) and v[1][:2] == ('op', 'repair_mirror_step'), f'its result is {pp(v)[:100]}')
