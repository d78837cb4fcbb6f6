"""A mirror: every healthy child has everything, a read is served by any of them, and no other is asked."""
import itertools

from engine.interp import St
from engine.models import R, ok, err, some, NONE, UNIT, proj, iter_of
from engine.terms import *
from checks import proto
from checks.proto import strip
from checks.C21 import together

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR. Every method of the mirror is run on every mirror of up to three children in every combination of their states (84 mirrors, and the counter of reads at '
                   'each of its residues and at its wrap), with symbolic addresses, buffers and results; the calls it makes of its children, what it waits for, what it reports and the children left '
                   'behind are compared with the table of the states.',
    'assumptions': ['a mirror of more than three children is treated like one of three: no method counts its children', 'a VdevBlock does what it is asked or reports an error',
                    'FuturesUnordered, Vec and BTreeMap do what they document', 'the uuids of different disks differ'],
}
ME = ('in', 'mirror')
ROOT = ('P', ME)
M = 'mirror::Mirror'
KINDS = ('Present', 'Missing', 'Rebuilding', 'Faulted')
OPS = ('erase_zone', 'finish_zone', 'open_zone', 'write_at', 'writev_at', 'write_spacemap', 'write_label', 'sync_all', 'read_at', 'read_spacemap', 'readv_at')
PURE = ('size', 'lbas_per_zone', 'uuid', 'txg', 'status', 'optimum_queue_depth', 'lba2zone', 'zone_limits', 'zones')
WRAP = 2**32 - 1


def run(ctx):
    for r, w, f in (('child', 'mirror::Child', lives), ('spread', M, spread), ('label', f'{M}::write_label', label), ('read', M, reading), ('long', f'{M}::read_long', long),
                    ('open', f'{M}::open', opening), ('new', f'{M}::new', creating), ('attach', f'{M}::attach', attaching), ('who', M, who), ('status', f'{M}::status', status),
                    ('size', M, sizes), ('repair', f'{M}::repair_zone', repairing), ('null', 'raid::null_raid::NullRaid', null)):
        with ctx.rule(r, w):
            f(ctx)


def arr(xs):
    return ('agg', 'array', '', tuple((('[]', i), x) for i, x in enumerate(xs)))


def vb(i):
    return ('in', f'disk{i}')


def uid(n):
    return ('agg', 'uuid::Uuid', '', (('0', n),))


def txg(n):
    return ('agg', 'types::TxgT', '', (('0', n),))


def child(kind, i):
    return ('agg', 'mirror::Child', kind, (('0', vb(i) if kind != 'Missing' else ('in', f'lost{i}')),))


def mirrors(least=1, most=3):
    for n in range(least, most + 1):
        yield from itertools.product(KINDS, repeat=n)


def flat(v):
    """The elements of a list built one by one."""
    xs = []
    while isinstance(v, tuple) and v and v[0] in ('put', 'push'):
        xs.insert(0, v[2])
        v = v[1]
    if isagg(v) and v[1] == 'array':
        return [x for _, x in v[3]] + xs
    return xs if isinstance(v, tuple) and v and v[0] == 'empty' else None


def pure(m):
    def f(I, st, c):
        if 'VdevBlock' not in c.argtys[0]:
            return None
        return R(st, ('disk', m) + tuple(bare(I, st, a) for a in c.args))
    return f


def bare(I, st, v):
    v = strip(I.deep(st, v))
    return v


def gather(I, st, c):
    xs = flat(c.args[0])
    return None if xs is None else R(st, ('agg', 'fut:join_all', '', (('0', iter_of(I, st, arr(xs), 'std::vec::Vec<T>')),)))


def empty(I, st, c):
    xs = flat(I.load(st, c.args[0]))
    return None if xs is None else R(st, int(not xs))


def poll(I, st, c):
    """A read of a child may be waited for once, and then succeeds or fails."""
    if 'VdevBlockFut' not in str(c.gen):
        return None
    v = bare(I, st, c.args[0])
    waited = any(e[0] == 'did' and e[1] == 'pending' and e[2] == v for e in st.effects())
    out = []
    for k in ('ok', 'err') + (() if waited else ('pending',)):
        s = st.copy()
        s.log('did', k, v)
        x = ('agg', 'std::task::Poll', 'Pending', ()) if k == 'pending' else ('agg', 'std::task::Poll', 'Ready', (('0', ok(UNIT) if k == 'ok' else err(('failure', v))),))
        out.extend(R(s, x))
    return out


def world(ctx, polled=False):
    I = ctx.interp()
    I.unroll = 8
    h = I.hooks
    for m in OPS:
        h['vdev_block::VdevBlock::' + m] = proto.op(m)
    for m in PURE:
        h['vdev_block::VdevBlock::' + m] = h['vdev::Vdev::' + m] = pure(m)
    h['vdev_block::VdevBlock::create'] = lambda I, st, c: R(st, ('made',) + tuple(bare(I, st, a) for a in c.args))
    h['futures::TryStreamExt::try_collect'] = together
    h['futures::StreamExt::collect'] = gather
    h['futures::stream::FuturesUnordered::is_empty'] = empty
    h['divbuf::DivBufMut::clone_inaccessible'] = lambda I, st, c: R(st, ('span', bare(I, st, c.args[0])))
    h['divbuf::DivBufInaccessible::try_mut'] = lambda I, st, c: R(st, ok(('again', bare(I, st, c.args[0]))))
    h['divbuf::DivBufShared::try_mut'] = lambda I, st, c: R(st, ok(('whole', bare(I, st, c.args[0]))))
    h['divbuf::DivBufShared::try_const'] = lambda I, st, c: R(st, ok(('whole', bare(I, st, c.args[0]))))
    h['label::LabelWriter::serialize'] = lambda I, st, c: (st.log('did', 'serialize', bare(I, st, c.args[1])), R(st, ok(UNIT)))[1]
    for m in ('std::convert::From::from', 'std::convert::Into::into', 'std::num::NonZero::get'):
        h[m] = lambda I, st, c: R(st, c.args[0]) if 'NonZero' in c.argtys[0] and isinstance(c.args[0], int) else None
    if polled:
        h['futures::Future::poll'] = poll
    h['std::num::NonZero::new'] = lambda I, st, c: R(st, some(c.args[0]) if c.args[0] else NONE) if isinstance(c.args[0], int) else None
    return I


def mirror(I, kinds, idx=0):
    st = St()
    I.write(st, ROOT, ('children',), arr([child(k, i) for i, k in enumerate(kinds)]))
    I.write(st, ROOT, ('next_read_idx',), idx)
    return st


def call(ctx, name, args, kinds, idx=0, fut=True):
    I = world(ctx)
    st = mirror(I, kinds, idx)
    outs = []
    for o in I.run(ctx.P.fn(name), [ME, *args], st):
        outs.extend(I.run_future(o.st, o.val) if fut and o.kind == 'ret' else [o])
    ctx.used(I, outs)
    return I, outs


def asked(I, st):
    """The operations the children were asked for."""
    xs = [strip(I.deep(st, e)) for e in proto.events(I, st) if e[0] in ('op', 'await')]
    return [x[1] if x[0] == 'await' else x for x in xs]


def kinds_of(I, st):
    """The children of the mirror, as far as they are the ones it had: [(kind, whose)]."""
    xs = flat(I.deep(st, I.read(st, ROOT, ('children',))))
    return None if xs is None else [(x[2], strip(x[3][0][1])) for x in xs if isagg(x)]


def whole(kinds):
    return [(k, vb(i) if k != 'Missing' else ('in', f'lost{i}')) for i, k in enumerate(kinds)]


def fails(o):
    return isagg(o.val) and o.val[2] == 'Err'


def succeeds(o):
    return isagg(o.val) and o.val[2] == 'Ok'


def error(o):
    e = proj(o.val, '0')
    return e[2] if isagg(e) else None


# ---- the life of a child

AFTER = {'fault': {'Present': 'Faulted', 'Faulted': 'Faulted', 'Rebuilding': 'Faulted', 'Missing': 'Missing'},
         'rebuild': {'Present': 'Present', 'Faulted': 'Rebuilding', 'Rebuilding': 'Rebuilding', 'Missing': 'Missing'},
         'restore': {'Present': 'Present', 'Faulted': None, 'Rebuilding': 'Present', 'Missing': 'Missing'}}


def lives(ctx):
    """fault, rebuild and restore take a child from state to state, and restore never takes one that has not been rebuilt."""
    for m, table in AFTER.items():
        w = f'mirror::Child::{m}'
        for k, want in table.items():
            I = world(ctx)
            st = St()
            C = ('in', 'child')
            st.mem[('P', C)] = child(k, 0)
            outs = I.run(ctx.P.fn(w), [C], st)
            ctx.used(I, outs)
            for o in outs:
                if want is None:
                    ctx.ob('child', w, o.kind == 'panic', f'a {k} child is taken back without having been rebuilt')
                    continue
                v = strip(I.deep(o.st, o.st.mem[('P', C)]))
                ctx.ob('child', w, o.kind == 'ret' and isagg(v) and (v[2], v[3][0][1]) == (want, child(k, 0)[3][0][1]), f'{m} of a {k} child does not leave it {want}')
            ctx.ob('child', w, bool(outs), f'{m} of a {k} child has no outcome')


# ---- what every child is asked

SPREAD = {'erase_zone': (('start', 'end'), ('Present',)), 'finish_zone': (('start', 'end'), ('Present',)), 'open_zone': (('start',), ('Present',)),
          'write_at': (('buf', 'lba'), ('Present',)), 'writev_at': (('bufs', 'lba'), ('Present',)), 'write_spacemap': (('sglist', 'idx', 'block'), ('Present',)),
          'sync_all': ((), ('Present', 'Rebuilding'))}
STORES = ('write_at', 'writev_at', 'write_spacemap')


def spread_one(ctx, rule, w, kinds, I, outs, want, stores):
    good = 0
    for o in outs:
        if not ctx.ob(rule, w, o.kind == 'ret', f'it panics on a mirror of {kinds}'):
            continue
        did = asked(I, o.st)
        ctx.ob(rule, w, kinds_of(I, o.st) == whole(kinds), f'it changes the states of a mirror of {kinds}')
        if not want and stores:
            ctx.ob(rule, w, fails(o) and not did, f'a mirror of {kinds}, none of which can store it, reports a write done')
            good += 1
            continue
        js = [e[1] for e in o.st.effects() if e[0] == 'join']
        ctx.ob(rule, w, all(did.count(x) == 1 and x in want for x in did), f'a mirror of {kinds} is asked for something else: {[pp(x)[:80] for x in did]}')
        if succeeds(o):
            good += 1
            ctx.ob(rule, w, sorted(map(str, did)) == sorted(map(str, want)), f'a mirror of {kinds} reports success although not every child has been asked: {[pp(x)[:80] for x in did]}')
            ctx.ob(rule, w, all(done(I, o.st, x) for x in want), f'a mirror of {kinds} reports success although a child has failed')
        else:
            ctx.ob(rule, w, fails(o) and bool(want) and any(not done(I, o.st, x) for x in want), f'a mirror of {kinds} reports failure although no child has failed')
        # all of them are started before any is waited for
        ctx.ob(rule, w, not want or js in ([len(want)], ['all']), f'the children of a mirror of {kinds} are not asked all at once')
    ctx.ob(rule, w, good == 1, f'the success of a mirror of {kinds} has {good} paths')


def done(I, st, x):
    """The operation x has completed well."""
    for k, v in st.facts.items():
        if isinstance(k, tuple) and k[0] == 'discr' and strip(I.deep(st, k[1])) == ('out', x):
            return v == 'Ok'
    return False


def spread(ctx):
    """An operation goes to every healthy child once, as it was given, and to no other; it succeeds if all of them do; what no child can store is not stored."""
    n = 0
    for m, (args, to) in SPREAD.items():
        w = f'{M}::{m}'
        a = [('in', x) for x in args]
        for kinds in mirrors():
            I, outs = call(ctx, w, a, kinds)
            want = [('op', m, vb(i), *a) for i, k in enumerate(kinds) if k in to]
            spread_one(ctx, 'spread', w, kinds, I, outs, want, m in STORES)
            n += 1
    ctx.floor('spread', 'mirrors', n, 588)


def label(ctx):
    """A label names the mirror and all of its children in their order; it goes to the healthy ones, or to the rebuilt ones only when repairing."""
    w = f'{M}::write_label'
    for kinds in mirrors():
        for rep in (0, 1):
            I, outs = call(ctx, w, [('in', 'labeller'), ('in', 'txg'), rep], kinds)
            to = 'Rebuilding' if rep else 'Present'
            want = [('op', 'write_label', vb(i), ('in', 'labeller'), ('in', 'txg')) for i, k in enumerate(kinds) if k == to]
            spread_one(ctx, 'label', w, kinds, I, outs, want, not rep)
            for o in outs:
                effs = [e for e in o.st.effects()]
                ser = [e[2] for e in effs if e[0] == 'did' and e[1] == 'serialize']
                ctx.ob('label', w, len(ser) == 1 and names(ser[0]) == (strip(('.', ME, 'uuid')), [('disk', 'uuid', vb(i)) if k != 'Missing' else ('in', f'lost{i}') for i, k in enumerate(kinds)]),
                       f'the label of a mirror of {kinds} does not name it and its children in their order')


def names(l):
    if not (isagg(l) and l[1] == 'mirror::Label'):
        return None
    return proj(l, 'uuid'), flat(proj(l, 'children'))


# ---- reads

READS = {'read_at': ('lba', 'ReadAt', False), 'read_spacemap': ('idx', 'ReadSpacemap', False), 'readv_at': ('lba', 'ReadvAt', True)}


def reading(ctx):
    """A read is served by a healthy child; each of the others is tried once, at the same place and into the same memory, until one succeeds."""
    n = 0
    for m, (arg, ty, many) in READS.items():
        w = f'{M}::{m}'
        p = ctx.P.fn(f'<mirror::{ty} as futures::Future>::poll')
        buf = arr([('in', 'buf0'), ('in', 'buf1')]) if many else ('in', 'buf')
        for kinds in mirrors():
            healthy = {vb(i) for i, k in enumerate(kinds) if k == 'Present'}
            firsts = set()
            for idx in [*range(len(kinds)), WRAP - 1, WRAP]:
                I = world(ctx, polled=True)
                st = mirror(I, kinds, idx)
                outs = []
                for o in I.run(ctx.P.fn(w), [ME, buf, ('in', arg)], st):
                    outs.extend(settle(I, p, o))
                ctx.used(I, outs)
                n += 1
                ctx.ob('read', w, bool(outs), f'a read of a mirror of {kinds} has no outcome')
                for o in outs:
                    if not ctx.ob('read', w, o.kind == 'ret', f'a read of a mirror of {kinds} panics at turn {idx}'):
                        continue
                    tried = [(e[1], e[2]) for e in o.st.effects() if e[0] == 'did' and e[1] in ('ok', 'err')]
                    if not healthy:
                        ctx.ob('read', w, fails(o) and not tried, f'a read of a mirror of {kinds} does not fail')
                        continue
                    who_ = [x[2] for _, x in tried if x[0] == 'op' and x[1] == m]
                    ctx.ob('read', w, len(who_) == len(tried) == len(set(who_)) and set(who_) <= healthy, f'a read of a mirror of {kinds} asks {[pp(x)[:60] for _, x in tried]}')
                    for j, (_, x) in enumerate(tried):
                        good = len(x) == 5 and x[4] == ('in', arg) and x[3] == buf if not j else len(x) == 5 and x[4] == ('in', arg) and again(x[3], buf)
                        ctx.ob('read', w, good, f'the {"first" if not j else "next"} read of a mirror of {kinds} goes elsewhere: {pp(x)[:100]}')
                    firsts |= set(who_[:1])
                    if succeeds(o):
                        ctx.ob('read', w, [k for k, _ in tried] == ['err'] * (len(tried) - 1) + ['ok'], f'a read of a mirror of {kinds} succeeds although no child has')
                    else:
                        ctx.ob('read', w, fails(o) and set(who_) == healthy and all(k == 'err' for k, _ in tried), f'a read of a mirror of {kinds} fails although a child has not been tried')
                        ctx.ob('read', w, proj(o.val, '0') in [('failure', x) for _, x in tried], 'the error of a read is not one of a child')
                ctx.ob('read', w, not healthy or sum(succeeds(o) for o in outs if o.kind == 'ret') >= len(healthy), f'not every healthy child of a mirror of {kinds} can serve a read at turn {idx}')
            ctx.ob('read', w, firsts == healthy, f'the reads of a mirror of {kinds} never begin with some of the healthy ones')
    ctx.floor('read', 'mirrors', n, 3 * 84 * 3)


def again(x, buf):
    want = ('again', ('span', buf))
    if x == want:
        return True
    xs, bs = flat(x), flat(buf)
    return xs is not None and bs is not None and xs == [('again', ('span', b)) for b in bs]


def settle(I, p, o):
    """The future is polled until it is ready."""
    if o.kind != 'ret':
        return [o]
    ref = I.alloc(o.st, o.val)
    todo, out = [o.st], []
    for _ in range(8):
        nxt = []
        for s in todo:
            for q in I.run(p, [ref, ('ctx',)], s):
                if q.kind == 'ret' and isagg(q.val) and q.val[2] == 'Pending':
                    nxt.append(q.st)
                    continue
                if q.kind == 'ret' and isagg(q.val) and q.val[2] == 'Ready':
                    q.val = I.deep(q.st, proj(q.val, '0'))
                out.append(q)
        todo = nxt
        if not todo:
            return out
    raise RuntimeError('a read that never ends')


def long(ctx):
    """Every healthy child gives its own version into a buffer of its own; one alone has nothing to add."""
    w = f'{M}::read_long'
    for kinds in mirrors():
        I, outs = call(ctx, w, [('in', 'len'), ('in', 'lba')], kinds)
        healthy = [vb(i) for i, k in enumerate(kinds) if k == 'Present']
        ctx.ob('long', w, bool(outs), f'it has no outcome on a mirror of {kinds}')
        for o in outs:
            if not ctx.ob('long', w, o.kind == 'ret', f'it panics on a mirror of {kinds}'):
                continue
            did = asked(I, o.st)
            if len(healthy) < 2:
                ctx.ob('long', w, fails(o) and error(o) == 'EINTEGRITY' and not did, f'a mirror of {kinds} has more than one version of a block')
                continue
            ctx.ob('long', w, sorted(str(x[2]) for x in did) == sorted(map(str, healthy)) and all(len(x) == 5 and x[1] == 'read_at' and x[4] == ('in', 'lba') for x in did),
                   f'the versions on a mirror of {kinds} are read from {[pp(x)[:60] for x in did]}')
            bufs = [x[3] for x in did]
            ctx.ob('long', w, all(isinstance(b, tuple) and b[0] == 'whole' and room(b[1]) for b in bufs), 'a buffer is not as long as the range read')
            oks = [x for x in did if done(I, o.st, x)]
            if fails(o):
                ctx.ob('long', w, not oks, f'a version read from a mirror of {kinds} is lost')
                continue
            it = proj(o.val, '0')
            ctx.ob('long', w, succeeds(o) and bool(oks), f'a mirror of {kinds} of which none could be read has a version of the block')
            got = drain(I, o.st, it)
            ctx.ob('long', w, got is not None and got == [x[3][1] for x in oks], f'the versions are not those of the children of {kinds} that could be read')


def room(b):
    """A buffer of len blocks."""
    return any(isinstance(t, tuple) and t and t[0] == 'repeat' and t[2] == mul(4096, ('in', 'len')) for t in subterms(b))


def drain(I, st, it):
    from engine.models import drive, drive_ret
    for _ in range(4):
        if isinstance(it, tuple) and it and it[0] in ('ref', '&'):
            it = I.load(st, it) if it[0] == 'ref' else it[1]
    outs = drive_ret(I, drive(I, st, it, ('agg', 'array', '', ()), lambda s, a, x: [(s, 'next', ('push', a, x))]))
    if len(outs) != 1:
        return None
    return [strip(I.deep(outs[0].st, x)) for x in flat(outs[0].val) or []]


# ---- opening and creating

def hook_disks(I, us, txgs, sizes=None):
    """Disks that are known: their uuids and their last transactions."""
    h = I.hooks

    def at(vals, wrap):
        def f(I, st, c):
            v = bare(I, st, c.args[0])
            return R(st, wrap(vals[v])) if v in vals else None
        return f
    h['vdev_block::VdevBlock::uuid'] = h['vdev::Vdev::uuid'] = at({vb(i): u for i, u in enumerate(us)}, uid)
    h['vdev_block::VdevBlock::txg'] = at({vb(i): t for i, t in enumerate(txgs)}, txg)


def rows(v):
    """The entries of a map with known keys, the last one of a key."""
    xs = flat(v)
    if xs is None or not all(isagg(x) for x in xs):
        return None
    d = {}
    for x in xs:
        d[proj(x, '0')] = proj(x, '1')
    return d


def table(I):
    """Maps from known keys."""
    h = I.hooks

    def remove(I, st, c):
        d = rows(I.load(st, c.args[0]))
        if d is None:
            return None
        k = I.deep(st, c.args[1])
        while isinstance(k, tuple) and k and k[0] == '&':
            k = k[1]
        if k not in d:
            return R(st, NONE)
        v = d.pop(k)
        I.store(st, c.args[0], arr([tup(a, b) for a, b in d.items()]))
        return R(st, some(v))
    h['std::collections::BTreeMap::remove'] = remove
    h['std::collections::BTreeMap::is_empty'] = lambda I, st, c: R(st, int(not rows(I.load(st, c.args[0])))) if rows(I.load(st, c.args[0])) is not None else None


def opening(ctx):
    """The newest label rules: its children in its order, up to date, behind or missing; a disk of another mirror is refused."""
    w = f'{M}::open'
    n = 0
    b = ctx.P.fn(w)
    for disks in (1, 2, 3):
        for txgs in itertools.product((4, 5, 6), repeat=disks):
            for order in itertools.permutations(range(3)) if disks > 1 else [(0, 1, 2), (1, 0, 2)]:
                for foreign in (None, *range(disks)) if order == (0, 1, 2) else (None,):
                    for given in (True, False) if order == (0, 1, 2) else (True,):
                        n += 1
                        open_one(ctx, w, b, disks, txgs, order, foreign, given)
    ctx.floor('open', 'mirrors', n, 300)


def open_one(ctx, w, b, disks, txgs, order, foreign, given):
    I = world(ctx)
    hook_disks(I, [100 + i for i in range(disks)], txgs)
    table(I)
    top = max(txgs)

    def lab(I, st, c):
        i = next((i for i in range(disks) if bare(I, st, c.args[0]) == ('in', f'label{i}')), None)
        if i is None:
            return None
        # an older label may name fewer children
        kids = order if txgs[i] == top else order[:1]
        return R(st, ok(('agg', 'mirror::Label', '', (('uuid', uid(7 if i != foreign else 8)), ('children', arr([uid(100 + j) for j in kids]))))))
    I.hooks['label::LabelReader::deserialize'] = lab
    I.hooks[f'{M}::new'] = lambda I, st, c: R(st, ok(('agg', 'made', '', (('uuid', c.args[0]), ('children', c.args[1])))))
    outs = I.run(b, [some(uid(7)) if given else NONE, arr([tup(vb(i), ('in', f'label{i}')) for i in range(disks)])], St())
    ctx.used(I, outs)
    what = f'disks at {txgs}, labelled {order}'
    ctx.ob('open', w, bool(outs), f'opening {what} has no outcome')
    for o in outs:
        if foreign is not None and given:
            ctx.ob('open', w, o.kind == 'panic' or fails(o), f'a disk of another mirror is opened with {what}')
            continue
        if foreign is not None:
            continue
        if not ctx.ob('open', w, o.kind == 'ret' and succeeds(o), f'opening {what} fails'):
            continue
        v = I.deep(o.st, proj(o.val, '0'))
        m, r = proj(v, '0'), proj(v, '1')
        ctx.ob('open', w, strip(r) in [('in', f'label{i}') for i in range(disks) if txgs[i] == top], f'the label of {what} is not the newest one')
        got = [(x[2], strip(x[3][0][1])) for x in flat(proj(m, 'children')) or []] if isagg(m) and m[1] == 'made' else None
        want = [('Missing', uid(100 + j)) if j >= disks else ('Present' if txgs[j] == top else 'Rebuilding', vb(j)) for j in order]
        ctx.ob('open', w, got == want and strip(proj(m, 'uuid')) == uid(7), f'{what} open as {got}')


def creating(ctx):
    """A mirror is made only of disks of one size and one zone size; its queue is as deep as the shallowest of its healthy children."""
    w = f'{M}::new'
    b = ctx.P.fn(w)
    for kinds in mirrors():
        I = world(ctx)
        depth = {vb(i): 10 + (i * 7) % 4 for i in range(3)}
        I.hooks['vdev_block::VdevBlock::optimum_queue_depth'] = I.hooks['vdev::Vdev::optimum_queue_depth'] = \
            lambda I, st, c: R(st, depth[bare(I, st, c.args[0])]) if bare(I, st, c.args[0]) in depth else None
        outs = I.run(b, [('in', 'uuid'), arr([child(k, i) for i, k in enumerate(kinds)])], St())
        ctx.used(I, outs)
        disks = [vb(i) for i, k in enumerate(kinds) if k != 'Missing']
        healthy = [vb(i) for i, k in enumerate(kinds) if k == 'Present']
        ctx.ob('new', w, bool(outs), 'no outcome')
        made = 0
        for o in outs:
            alike = True
            for m in ('size', 'lbas_per_zone'):
                for d in disks[1:]:
                    k = I.known(o.st, eq(('disk', m, disks[0]), ('disk', m, d)))
                    alike = False if k == 0 else alike if k == 1 or not alike else None
            if o.kind == 'panic':
                ctx.ob('new', w, not healthy, f'a mirror of {kinds} cannot be made')
                continue
            if fails(o):
                ctx.ob('new', w, alike is False and error(o) == 'EINVAL', f'a mirror of {kinds} that are alike is refused')
                continue
            made += 1
            ctx.ob('new', w, alike is True or len(disks) < 2, f'a mirror of {kinds} is made of disks that are not alike')
            v = I.deep(o.st, proj(o.val, '0'))
            ctx.ob('new', w, isagg(v) and strip(proj(v, 'uuid')) == ('in', 'uuid') and [(x[2], strip(x[3][0][1])) for x in flat(proj(v, 'children')) or []] == whole(kinds)
                   and strip(proj(v, 'size')) in [('disk', 'size', d) for d in disks] and proj(v, 'optimum_queue_depth') == min(depth[d] for d in healthy),
                   f'a mirror of {kinds} is not made as asked')
        ctx.ob('new', w, made == (1 if healthy else 0), f'a mirror of {kinds} is made in {made} ways')
    outs = (I := world(ctx)).run(b, [('in', 'uuid'), arr([])], St())
    ctx.ob('new', w, bool(outs) and all(o.kind == 'panic' or fails(o) for o in outs), 'a mirror of no disks is made')


def attaching(ctx):
    """A disk joins as one to rebuild, if it is like the others and none is being rebuilt."""
    w = f'{M}::attach'
    b = ctx.P.fn(w)
    for kinds in mirrors():
        if 'Present' not in kinds:
            continue
        I = world(ctx)
        st = mirror(I, kinds)
        outs = I.run(b, [ME, ('in', 'path')], st)
        ctx.used(I, outs)
        first = vb(kinds.index('Present'))
        ctx.ob('attach', w, bool(outs), 'no outcome')
        joined = 0
        for o in outs:
            if not ctx.ob('attach', w, o.kind == 'ret', f'attaching to a mirror of {kinds} panics'):
                continue
            left = kinds_of(I, o.st)
            if 'Rebuilding' in kinds:
                ctx.ob('attach', w, fails(o) and error(o) == 'EBUSY' and left == whole(kinds), f'a disk is attached to a mirror of {kinds}')
                continue
            if fails(o):
                ctx.ob('attach', w, left == whole(kinds), f'a disk that is refused joins a mirror of {kinds}')
                continue
            joined += 1
            if not ctx.ob('attach', w, succeeds(o) and left is not None and len(left) == len(kinds) + 1 and left[:-1] == whole(kinds) and left[-1][0] == 'Rebuilding',
                          f'a disk attached to a mirror of {kinds} does not join it as one to rebuild'):
                continue
            new = left[-1][1]
            ctx.ob('attach', w, any(isinstance(t, tuple) and t and t[0] == 'made' and t[1] == ('in', 'path') for t in subterms(new)), 'the disk attached is another')
            ctx.ob('attach', w, all(I.known(o.st, eq(('disk', m, new), ('disk', m, first))) == 1 for m in ('size', 'lbas_per_zone')), f'a disk that is not like the others joins a mirror of {kinds}')
        ctx.ob('attach', w, joined == (0 if 'Rebuilding' in kinds else 1), f'a disk joins a mirror of {kinds} in {joined} ways')


# ---- who is meant

def who(ctx):
    """fault and rebuild act on the child that is named and no other; restore on those being rebuilt; a name is known if it is the mirror's or a child's."""
    for kinds in mirrors():
        for m in ('fault', 'rebuild', 'contains_uuid'):
            w = f'{M}::{m}'
            for i in range(len(kinds) + 2):
                I = world(ctx)
                names_ = {vb(j): 100 + j for j in range(3)}
                I.hooks['vdev_block::VdevBlock::uuid'] = I.hooks['vdev::Vdev::uuid'] = lambda I, st, c: R(st, uid(names_[bare(I, st, c.args[0])])) if bare(I, st, c.args[0]) in names_ else None
                st = mirror(I, kinds)
                I.write(st, ROOT, ('uuid',), uid(7))
                I.write(st, ROOT, ('children',), arr([child(k, j) if k != 'Missing' else ('agg', 'mirror::Child', k, (('0', uid(100 + j)),)) for j, k in enumerate(kinds)]))
                name = uid(100 + i if i < len(kinds) else 7 if i == len(kinds) else 9)
                outs = I.run(ctx.P.fn(w), [ME, I.alloc(st, name) if m == 'contains_uuid' else name], st)
                ctx.used(I, outs)
                ctx.ob('who', w, len(outs) == 1, f'{len(outs)} outcomes')
                for o in outs:
                    left = kinds_of(I, o.st)
                    old = [(k, vb(j) if k != 'Missing' else uid(100 + j)) for j, k in enumerate(kinds)]
                    if m == 'contains_uuid':
                        ctx.ob('who', w, o.kind == 'ret' and o.val == int(i <= len(kinds)) and left == old, f'whether a name is known to a mirror of {kinds}')
                    elif i >= len(kinds):
                        ctx.ob('who', w, o.kind == 'ret' and fails(o) and error(o) == 'ENOENT' and left == old, f'{m} of an unknown disk of {kinds}')
                    else:
                        want = [(AFTER[m][k] if j == i else k, x) for j, (k, x) in enumerate(old)]
                        ctx.ob('who', w, o.kind == 'ret' and succeeds(o) and left == want, f'{m} of child {i} of {kinds} leaves {left}')
        w = f'{M}::restore'
        I, outs = call(ctx, w, [], kinds, fut=False)
        for o in outs:
            ctx.ob('who', w, o.kind == 'ret' and kinds_of(I, o.st) == [(k if k != 'Rebuilding' else 'Present', x) for k, x in whole(kinds)], f'restoring {kinds} leaves {kinds_of(I, o.st)}')
        ctx.ob('who', w, len(outs) == 1, f'{len(outs)} outcomes')


def status(ctx):
    """A mirror is healthy if all of its children are, faulted if none is, and else degraded by the number of those that are not."""
    w = f'{M}::status'
    for kinds in mirrors():
        I = world(ctx)
        txgs = {vb(i): 5 + (i * 5) % 3 for i in range(3)}
        I.hooks['vdev_block::VdevBlock::txg'] = lambda I, st, c: R(st, txg(txgs[bare(I, st, c.args[0])])) if bare(I, st, c.args[0]) in txgs else None

        def one(I, st, c):
            v = bare(I, st, c.args[0])
            return R(st, ('agg', 'vdev_block::Status', '', (('health', ('agg', 'vdev::Health', 'Online', ())), ('path', ('disk', 'path', v)), ('uuid', ('disk', 'uuid', v)))))
        I.hooks['vdev_block::VdevBlock::status'] = one
        outs = I.run(ctx.P.fn(w), [ME], mirror(I, kinds))
        ctx.used(I, outs)
        ctx.ob('status', w, len(outs) == 1, f'{len(outs)} outcomes')
        for o in outs:
            if not ctx.ob('status', w, o.kind == 'ret' and isagg(v := I.deep(o.st, o.val)), f'the status of {kinds} panics'):
                continue
            sick = sum(k != 'Present' for k in kinds)
            h = proj(v, 'health')
            want = ('Online', None) if not sick else ('Faulted', 'InsufficientRedundancy') if sick == len(kinds) else ('Degraded', sick)
            ctx.ob('status', w, health(h) == want, f'the health of a mirror of {kinds} is {health(h)}')
            ls = flat(proj(v, 'leaves')) or []
            got = [(health(proj(l, 'health')), strip(proj(l, 'uuid'))) for l in ls if isagg(l)]
            hs = {'Present': ('Online', None), 'Missing': ('Faulted', 'Removed'), 'Rebuilding': ('Degraded', 1), 'Faulted': ('Faulted', 'User')}
            ctx.ob('status', w, got == [(hs[k], ('disk', 'uuid', vb(i)) if k != 'Missing' else ('in', f'lost{i}')) for i, k in enumerate(kinds)], f'the disks of {kinds} are reported as {got}')
            reb = [txgs[vb(i)] for i, k in enumerate(kinds) if k == 'Rebuilding']
            r = proj(v, 'rebuilding')
            ctx.ob('status', w, r == (some(txg(min(reb))) if reb else NONE), f'the oldest transaction of those rebuilding in {kinds} is {pp(r)}')
            ctx.ob('status', w, strip(proj(v, 'uuid')) == strip(('.', ME, 'uuid')), 'the status is of another mirror')


def health(h):
    if not isagg(h):
        return None
    x = proj(h, '0') if h[3] else None
    return h[2], x[2] if isagg(x) else x


def sizes(ctx):
    """Sizes and zones are those of a healthy child."""
    for m, args in (('lba2zone', ('lba',)), ('zone_limits', ('zone',)), ('zones', ())):
        b = ctx.P.fn(f'<{M} as vdev::Vdev>::{m}')
        w = f'{M}::{m}'
        for kinds in mirrors():
            if 'Present' not in kinds:
                continue
            I = world(ctx)
            a = [('in', x) for x in args]
            outs = I.run(b, [ME, *a], mirror(I, kinds))
            ctx.used(I, outs)
            ctx.ob('size', w, bool(outs) and all(o.kind == 'ret' and strip(I.deep(o.st, o.val)) in [('disk', m, vb(i), *a) for i, k in enumerate(kinds) if k == 'Present'] for o in outs),
                   f'{m} of a mirror of {kinds} is not the one of a healthy child')
    for m in ('size', 'optimum_queue_depth'):
        I = world(ctx)
        outs = I.run(ctx.P.fn(f'<{M} as vdev::Vdev>::{m}'), [ME], mirror(I, ('Present',)))
        ctx.used(I, outs)
        ctx.ob('size', f'{M}::{m}', len(outs) == 1 and strip(outs[0].val) == strip(('.', ME, m)), f'{m} is not the one the mirror was made with')


# ---- repair

BLOCK = 64


def repairing(ctx):
    """Every block of the zone, and none beyond it, is read from a healthy child and written at the same place to every child being rebuilt."""
    w = f'{M}::repair_zone'
    b = ctx.P.fn(w)
    n = 0
    start = 1000
    for kinds in mirrors():
        if 'Present' not in kinds:
            continue
        for length in (1, BLOCK - 1, BLOCK, BLOCK + 1, 3 * BLOCK, 3 * BLOCK + 5):
            for lbas in (None, length) if len(kinds) == 2 else (None,):
                n += repair_one(ctx, w, b, kinds, start, length, lbas)
    ctx.floor('repair', 'repairs', n, 300)


def repair_one(ctx, w, b, kinds, start, length, lbas):
    I = world(ctx)
    I.unroll = 12
    h = I.hooks
    h['vdev_block::VdevBlock::zone_limits'] = h['vdev::Vdev::zone_limits'] = lambda I, st, c: R(st, tup(start, start + (length if lbas is None else length + 77))) if 'VdevBlock' in c.argtys[0] else None
    h['futures::futures_channel::mpsc::channel'] = h['futures::channel::mpsc::channel'] = lambda I, st, c: R(st, tup(('tx',), ('rx',)))

    def feed(I, st, c):
        st.log('did', 'feed', I.deep(st, c.args[1]))
        return R(st, ('agg', 'fut:ready', '', (('0', ok(UNIT)),)))
    for m in ('feed', 'send'):
        h[f'futures::SinkExt::{m}'] = feed
    h['futures::StreamExt::map'] = lambda I, st, c: R(st, ('mapped', c.args[0]))
    h['futures::TryStreamExt::try_for_each_concurrent'] = h['futures::TryStreamExt::try_for_each'] = lambda I, st, c: R(st, ('sink', c.args[-1], c.args[0], c.args[1] if len(c.args) > 2 else some(1)))
    fresh = [0]

    def buffer(I, st, c):
        fresh[0] += 1
        return R(st, ('buffer', fresh[0], c.args[0]))
    h['divbuf::DivBufShared::uninitialized'] = buffer
    pair = []

    def both(I, st, c):
        pair.append(c.args)
        return R(st, ('both', c.args[0], c.args[1]))
    h['futures::future::try_join'] = both
    st = mirror(I, kinds, 1)
    outs = I.run(b, [ME, ('in', 'zone'), NONE if lbas is None else some(lbas)], st)
    ctx.used(I, outs)
    what = f'repairing {length} blocks of a mirror of {kinds}'
    rebuilt = [vb(i) for i, k in enumerate(kinds) if k == 'Rebuilding']
    healthy = [vb(i) for i, k in enumerate(kinds) if k == 'Present']
    for o in outs:
        v = o.val
        while isagg(v) and v[1] in ('fut:map_ok', 'fut:map') and v[3]:
            v = v[3][0][1]
        if not ctx.ob('repair', w, o.kind == 'ret' and isinstance(v, tuple) and v[0] == 'both' and isinstance(v[2], tuple) and v[2][0] == 'sink', f'{what} is not reading and writing side by side'):
            continue
        sink = v[2]
        ends = I.run_future(o.st, v[1])
        full = 0
        for e in ends:
            if not ctx.ob('repair', w, e.kind == 'ret', f'{what} panics'):
                continue
            rd = [x for x in asked(I, e.st) if x[1] == 'read_at']
            fed = [x[2] for x in e.st.effects() if x[0] == 'did' and x[1] == 'feed']
            if fails(e):
                ctx.ob('repair', w, len(fed) == len(rd) - 1 and not done(I, e.st, rd[-1]), f'{what} fails although no read has')
                continue
            full += 1
            want = [(start + BLOCK * i, min(BLOCK, length - BLOCK * i)) for i in range((length + BLOCK - 1) // BLOCK)] if rebuilt else []
            got = [(x[4], x[3][1][2]) for x in rd if len(x) == 5 and isinstance(x[3], tuple) and x[3][0] == 'whole' and isinstance(x[3][1], tuple) and x[3][1][0] == 'buffer']
            cover = got == [(a, n * 4096) for a, n in want] or tiles(got, start, length if rebuilt else 0)
            ctx.ob('repair', w, cover and len(got) == len(rd), f'{what} reads {got}')
            ctx.ob('repair', w, all(x[2] in healthy for x in rd), f'{what} reads from a child that is not healthy')
            ctx.ob('repair', w, [strip(f) for f in fed] == [x[3][1] for x in rd], f'{what} does not pass on what it has read')
            # what is written, one buffer after the other
            states = [e.st]
            ref = None
            for s in states:
                ref = I.alloc(s, sink[1])
            for i, f in enumerate(fed):
                nxt = []
                for s in states:
                    before = len(asked(I, s))
                    for q in I.apply(s, ref, [f]):
                        for r in I.run_future(q.st, q.val) if q.kind == 'ret' else [q]:
                            if not ctx.ob('repair', w, r.kind == 'ret', f'{what} panics when writing'):
                                continue
                            wr = asked(I, r.st)[before:]
                            if succeeds(r):
                                ws = [('op', 'write_at', d, ('whole', strip(f)), got[i][0]) for d in rebuilt] if i < len(got) else None
                                ctx.ob('repair', w, ws is not None and sorted(map(str, wr)) == sorted(map(str, ws)), f'{what} writes {[pp(x)[:80] for x in wr]}')
                                ctx.ob('repair', w, all(done(I, r.st, x) for x in wr), f'{what} does not notice that a write fails')
                                nxt.append(r.st)
                            else:
                                ctx.ob('repair', w, any(not done(I, r.st, x) for x in wr), f'{what} fails although no write has')
                ctx.ob('repair', w, len(nxt) == 1, f'{what} ends in {len(nxt)} ways')
                states = nxt
        ctx.ob('repair', w, full == 1, f'{what} reads all in {full} ways')
    ctx.ob('repair', w, len(outs) == 1, f'{what} has {len(outs)} outcomes')
    return 1


def tiles(got, start, length):
    """The ranges read follow one another from start for length blocks."""
    at = start
    for a, n in got:
        if a != at or not isinstance(n, int) or n % 4096 or n <= 0:
            return False
        at += n // 4096
    return at == start + length


# ---- the raid of one mirror

NULL = 'raid::null_raid::NullRaid'
LEN = ('in', 'bytes')


def null(ctx):
    """A cluster of one mirror passes every request on to it, with the limits of the zone it names."""
    N = ('in', 'null')
    MI = ('.', ('*', N), 'mirror')
    for m, args, want in (('read_at', ('buf', 'lba'), None), ('read_spacemap', ('buf', 'idx'), None), ('readv_at', ('bufs', 'lba'), None), ('write_at', ('buf', 'zone', 'lba'), ('buf', 'lba')),
                          ('writev_at', ('buf', 'zone', 'lba'), ('buf', 'lba')), ('write_spacemap', ('sglist', 'idx', 'block'), None), ('sync_all', (), None),
                          ('erase_zone', ('zone',), ('lo', 'hi')), ('finish_zone', ('zone',), ('lo', 'hi')), ('open_zone', ('zone',), ('lo',))):
        found = [b for b in ctx.P.fns(lambda x: x['path'] == f'<{NULL} as raid::vdev_raid_api::VdevRaidApi>::{m}')]
        w = f'{NULL}::{m}'
        if not found:
            continue
        I = world(ctx)
        for k in SPREAD:
            I.hooks[f'{M}::{k}'] = proto.op(k)
        for k in READS:
            I.hooks[f'{M}::{k}'] = proto.op(k)
        I.hooks['vdev::Vdev::zone_limits'] = lambda I, st, c: R(st, tup(('in', 'lo'), ('in', 'hi'))) if strip(c.args[-1]) == ('in', 'zone') else None
        I.ty[('in', 'lo')] = I.ty[('in', 'hi')] = (1, 2**60)
        I.hooks['divbuf::DivBuf::len'] = lambda I, st, c: R(st, LEN) if bare(I, st, c.args[0]) == ('in', 'buf') else None
        I.hooks['divbuf::DivBuf::slice_to'] = lambda I, st, c: R(st, ('part', bare(I, st, c.args[0]), c.args[1]))
        I.ty[LEN] = (0, 2**40)
        outs = []
        for o in I.run(found[0], [N, *((('in', a) for a in args) if m != 'sync_all' else (NONE,))], St()):
            outs.extend(I.run_future(o.st, o.val) if o.kind == 'ret' else [o])
        ctx.used(I, outs)
        exp = tuple(('in', x) if x != 'hi' else sub(('in', 'hi'), 1) for x in (want or args))
        whole_ = partial = 0
        for o in outs:
            did = asked(I, o.st)
            good = o.kind == 'ret' and len(did) == 1 and len(did[0]) == 3 + len(exp) and strip(o.val) == ('out', did[0]) and did[0][2] == strip(MI)
            if good and m == 'write_at' and did[0][1] == 'writev_at':
                # padded with zeroes to a whole block
                xs = flat(did[0][3])
                rest = I.mod(o.st, LEN, 4096)
                partial += 1
                good = xs is not None and len(xs) == 2 and xs[0] == exp[0] and zeroes(xs[1]) and I.known(o.st, eq(add(LEN, zeroes_len(xs[1])), add(sub(LEN, rest), 4096))) == 1 \
                    and did[0][4] == exp[1] and I.known(o.st, eq(rest, 0)) == 0
            elif good:
                whole_ += 1
                good = did[0][1] == m and did[0][3:] == exp and (m != 'write_at' or I.known(o.st, eq(I.mod(o.st, LEN, 4096), 0)) == 1)
            ctx.ob('null', w, good, f'it does not pass the request on as it is: {[pp(x)[:100] for x in did]}, {pp(strip(o.val))[:80]}')
        ctx.ob('null', w, whole_ == 1 and partial == (1 if m == 'write_at' else 0), f'{whole_} and {partial} outcomes')
    for m, rep in (('write_label', 0), ('repair_label', 1)):
        w = f'{NULL}::{m}'
        I = world(ctx)
        I.hooks[f'{M}::write_label'] = proto.op('write_label')
        I.hooks[f'{M}::uuid'] = lambda I, st, c: R(st, ('mirror', 'uuid'))
        outs = []
        b = ctx.P.fn(f'<{NULL} as raid::vdev_raid_api::VdevRaidApi>::{m}')
        for o in I.run(b, [N, ('in', 'labeller'), *([0] if rep else []), ('in', 'txg')], St()):
            outs.extend(I.run_future(o.st, o.val) if o.kind == 'ret' else [o])
        ctx.used(I, outs)
        for o in outs:
            did = asked(I, o.st)
            ctx.ob('null', w, o.kind == 'ret' and did == [('op', 'write_label', strip(MI), ('in', 'labeller'), ('in', 'txg'), rep)] and strip(o.val) == ('out', did[0]), 'it does not have the mirror labelled')
            ser = [e[2] for e in o.st.effects() if e[0] == 'did' and e[1] == 'serialize']
            l = proj(ser[0], '0') if len(ser) == 1 and isagg(ser[0]) and ser[0][2] == 'NullRaid' else None
            ctx.ob('null', w, isagg(l) and strip(proj(l, 'uuid')) == strip(('.', ('*', N), 'uuid')) and proj(l, 'child') == ('mirror', 'uuid'), 'the label does not name the raid and its mirror')
        ctx.ob('null', w, len(outs) == 1, f'{len(outs)} outcomes')


def zeroes(x):
    return isinstance(x, tuple) and x[0] == 'part' and 'ZERO_REGION' in str(x[1])


def zeroes_len(x):
    return x[2]
