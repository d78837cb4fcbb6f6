"""A RAID array: whatever is written is stored with its parity on every disk, and read back right from any of the disks that are left."""
import itertools

from checks.raid_model import *
from checks.raid_model import done as completed
from checks.C25 import settle
from engine.models import drive

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR. Every method of the array is run on arrays of three to five disks in every combination of the states of their disks, over every position and length of a '
                   'read or write within a few stripes, with symbolic contents and with every operation of a disk free to fail. What each path leaves in memory and on the disks is computed block by block '
                   'from the operations it asks for and the codec calls it makes, and compared with the columns of the stripes.',
    'assumptions': ['the layout is what C01 establishes; the codec computes what C02 establishes', 'a mirror does what it is asked or reports an error (C25)',
                    'an array of more disks, or of larger chunks, is treated like one of these', 'FuturesUnordered, Vec and BTreeMap do what they document'],
}
SB = V + 'StripeBuffer'


def run(ctx):
    for r, w, f in (('child', V + 'Child', lives), ('spread', VR, spread), ('label', VR + 'write_label', label), ('spacemap', VR + 'read_spacemap', spacemap), ('status', VR + 'status', status),
                    ('fault', VR + 'fault', faulting), ('write', VR + 'write_at', writing), ('flush', VR + 'flush_zone', flushing), ('read', VR + 'read_at', reading), ('long', VR + 'read_long', long),
                    ('zones', V + 'VdevRaid', zoning), ('open', VR + 'open_zone', opening),
                    ('repair', VR + 'repair_mirror_zone', repairing), ('assemble', V + 'VdevRaid::open', assembling)):
        if not ctx.enough():
            with ctx.rule(r, w):
                f(ctx)


def arrays(least=1, most=3):
    for n in range(least, most + 1):
        yield from itertools.product(KINDS, repeat=n)


def kinds_of(I, st):
    v = strip(I.deep(st, I.read(st, ROOT, ('inner',))))
    xs = flat(strip(I.deep(st, proj(v, 'children'))))
    return None if xs is None else [(x[2], strip(x[3][0][1])) for x in xs if isagg(x)]


def whole(kinds):
    return [(x, strip(child(x, i)[3][0][1])) for i, x in enumerate(kinds)]


# ---- the children

LIVES = {'fault': {'Present': 'Faulted', 'Missing': 'Missing', 'Faulted': 'Faulted'}, 'restore': {'Present': 'Present', 'Missing': 'Missing', 'Faulted': 'Faulted'}}
ASKS = {'erase_zone': 2, 'finish_zone': 2, 'open_zone': 1, 'read_at': 2, 'readv_at': 2, 'read_spacemap': 2, 'repair_label': 2, 'repair_zone': 2, 'write_at': 2, 'writev_at': 2, 'write_label': 2,
        'write_spacemap': 3, 'sync_all': 0}


def lives(ctx):
    """A child in service passes on what it is asked, as it was asked; no other does; only a fault takes one out of service and nothing but a rebuild puts one back."""
    C = ('in', 'child')
    n = 0
    for m, to in LIVES.items():
        for k, want in to.items():
            I = world(ctx)
            I.hooks['mirror::Mirror::restore'] = lambda I, st, c: (st.log('did', 'restore', strip(I.deep(st, c.args[0]))), R(st, UNIT))[1]
            st = St()
            st.mem[('P', C)] = child(k, 0)
            for o in I.run(ctx.P.fn(f'{V}Child::{m}'), [C], st):
                n += 1
                if not ctx.ob('child', m, o.kind == 'ret', f'{m} of a {k} child panics'):
                    continue
                v = strip(I.deep(o.st, o.st.mem[('P', C)]))
                ctx.ob('child', m, isagg(v) and (v[2], v[3][0][1]) == (want, strip(child(k, 0)[3][0][1])), f'{m} of a {k} child does not leave it {want}')
                if m == 'fault':
                    ctx.ob('child', m, o.val == int(k == 'Present'), f'a fault of a {k} child counts as {pp(o.val)} lost')
                else:
                    did = [e for e in o.st.effects() if e[0] == 'did' and e[1] == 'restore']
                    ctx.ob('child', m, len(did) == (k == 'Present'), f'the disks of a {k} child are {"not " if k == "Present" else ""}returned to service')
    for m, argc in ASKS.items():
        for k in KINDS:
            if m == 'open_zone' and k != 'Present':
                continue
            I = world(ctx)
            st = St()
            st.mem[('P', C)] = child(k, 0)
            a = [('in', f'a{i}') for i in range(argc)]
            for o in I.run(ctx.P.fn(f'{V}Child::{m}'), [C, *a], st):
                n += 1
                if not ctx.ob('child', m, o.kind == 'ret', f'{m} of a {k} child panics'):
                    continue
                v = strip(I.deep(o.st, o.val))
                for _ in range(3):
                    if isagg(v) and v[2] in ('Some', 'ReadAt', 'ReadvAt', 'WriteAt', 'WritevAt', 'Left'):
                        v = proj(v, '0')
                did = v if isinstance(v, tuple) and v and v[0] == 'op' else None
                if k == 'Present':
                    mm = 'write_label' if m == 'repair_label' else m
                    x = a + ([int(m == 'repair_label')] if mm == 'write_label' else [])
                    ctx.ob('child', m, did == ('op', mm, vb(0), *x), f'a child in service is asked {pp(v)[:100]} for {m}')
                else:
                    ctx.ob('child', m, did is None and not asked(I, o.st), f'a {k} child is asked for something: {pp(v)[:100]}')
                    ctx.ob('child', m, isagg(v) and (v[2] in ('None', 'Enxio', 'Right')), f'a {k} child does not refuse {m}')
    ctx.floor('child', 'methods', n, 30)


# ---- what every child is asked

SPREAD = {'erase_zone': [('in', 'zone')], 'sync_all': [NONE], 'write_spacemap': [('in', 'sglist'), ('in', 'idx'), ('in', 'block')], 'write_label': [('in', 'labeller'), ('in', 'txg')]}


def first(kinds):
    return next(i for i, k in enumerate(kinds) if k == 'Present')


def wanted(m, i, kinds):
    z = ('mirror', 'zone_limits', vb(first(kinds)), ('in', 'zone'))
    if m in ('erase_zone', 'finish_zone'):
        return ('op', m, vb(i), ('.', z, '0'), sub(('.', z, '1'), 1))
    if m == 'write_label':
        return ('op', m, vb(i), ('in', 'labeller'), ('in', 'txg'), 0)
    return ('op', m, vb(i), *[x for x in SPREAD[m] if x != NONE])


def buffers(I, st, zone=None, sb=None):
    """The partial stripes of the open zones."""
    return ('agg', 'mutex', '', (('data', ('agg', 'buffers', '', (('zone', zone), ('sb', I.alloc(st, sb) if sb is not None else None)))),))


def table(I):
    """The table of the partial stripes."""
    def get(I, st, r):
        for _ in range(4):
            if isagg(r) and r[1] == 'buffers':
                return r
            if not (isinstance(r, tuple) and r and r[0] == 'ref'):
                return None
            r = I.load(st, r)
        return None

    def key(I, st, v):
        for _ in range(3):
            if isinstance(v, tuple) and v and v[0] == 'ref':
                v = I.load(st, v)
        return v

    def has(t, k):
        return proj(t, 'sb') is not None and proj(t, 'zone') == k

    def mk(ret):
        def f(I, st, c):
            t = get(I, st, c.args[0])
            return None if t is None else ret(I, st, c, t)
        return f

    def insert(I, st, c, t):
        k = key(I, st, c.args[1])
        if proj(t, 'sb') is not None and not has(t, k):
            return None
        old = some(I.load(st, proj(t, 'sb'))) if has(t, k) else NONE
        I.store(st, c.args[0], ('agg', 'buffers', '', (('zone', k), ('sb', I.alloc(st, c.args[2])))))
        return R(st, old)

    def remove(I, st, c, t):
        if not has(t, key(I, st, c.args[1])):
            return R(st, NONE)
        v = I.load(st, proj(t, 'sb'))
        I.store(st, c.args[0], ('agg', 'buffers', '', (('zone', None), ('sb', None))))
        return R(st, some(v))
    h = I.hooks
    B = 'std::collections::BTreeMap::'
    h[B + 'get_mut'] = h[B + 'get'] = mk(lambda I, st, c, t: R(st, some(proj(t, 'sb')) if has(t, key(I, st, c.args[1])) else NONE))
    h[B + 'contains_key'] = mk(lambda I, st, c, t: R(st, int(has(t, key(I, st, c.args[1])))))
    h[B + 'values'] = mk(lambda I, st, c, t: R(st, iter_of(I, st, arr([proj(t, 'sb')] if proj(t, 'sb') is not None else []), 'std::vec::Vec<T>')))
    h[B + 'insert'] = mk(insert)
    h[B + 'remove'] = mk(remove)
    return I


def left(I, st):
    """The partial stripe an array is left with: (zone, the buffer)."""
    t = I.deep(st, I.read(st, ROOT, ('stripe_buffers',)))
    while isagg(t) and t[1] == 'mutex':
        t = proj(t, 'data')
    if not (isagg(t) and t[1] == 'buffers'):
        return None
    return proj(t, 'zone'), proj(t, 'sb')


def spread(ctx):
    """An operation on the whole array goes to every child in service once, as it was given, and to no other, however many are left; it succeeds if and only if all of them do."""
    n = 0
    for m, args in SPREAD.items():
        w = VR + m
        for kinds in arrays(1, 4):
            if 'Present' not in kinds:
                continue
            n += 1
            I = table(world(ctx))
            if m == 'write_label':
                I.hooks['label::LabelWriter::serialize'] = lambda I, st, c: R(st, ok(UNIT))
            st = raid(ctx, I, kinds)
            I.write(st, ROOT, ('stripe_buffers',), buffers(I, st))
            outs = call(ctx, I, w, args, st)
            everyone(ctx, 'spread', w, I, outs, kinds, [wanted(m, i, kinds) for i, k in enumerate(kinds) if k == 'Present'])
    # one of them alone
    for kinds in arrays(1, 3):
        for i, k in enumerate(kinds):
            I = table(world(ctx))
            st = raid(ctx, I, kinds)
            I.write(st, ROOT, ('stripe_buffers',), buffers(I, st))
            outs = call(ctx, I, VR + 'sync_all', [some(i)], st)
            everyone(ctx, 'spread', VR + 'sync_all', I, outs, kinds, [('op', 'sync_all', vb(i))] if k == 'Present' else [])
    ctx.floor('spread', 'arrays', n, 360)


def everyone(ctx, rule, w, I, outs, kinds, want):
    good = 0
    for o in outs:
        if not ctx.ob(rule, w, o.kind == 'ret', f'it panics on an array of {kinds}'):
            continue
        did = asked(I, o.st)
        ctx.ob(rule, w, kinds_of(I, o.st) == whole(kinds), f'it changes the states of an array of {kinds}')
        ctx.ob(rule, w, all(did.count(x) == 1 and x in want for x in did), f'an array of {kinds} is asked for something else: {[pp(x)[:80] for x in did]}')
        js = [e[1] for e in o.st.effects() if e[0] == 'join']
        if verdict(I, o) == 'Ok':
            good += 1
            ctx.ob(rule, w, sorted(map(str, did)) == sorted(map(str, want)), f'an array of {kinds} reports success although not every disk has been asked: {[pp(x)[:80] for x in did]}')
            ctx.ob(rule, w, all(completed(I, o.st, x) for x in want), f'an array of {kinds} reports success although a disk has failed')
        else:
            ctx.ob(rule, w, verdict(I, o) == 'Err' and any(not completed(I, o.st, x) for x in want), f'an array of {kinds} reports failure although no disk has failed')
        ctx.ob(rule, w, not want or sum(len(want) if j == 'all' else j for j in js) >= len(want), f'the disks of an array of {kinds} are not asked all at once')
    ctx.ob(rule, w, good == 1, f'the success of an array of {kinds} has {good} paths')


def label(ctx):
    """A label names the array, its geometry and all its children in their order, whatever has become of them."""
    n = 0
    for m, args in (('write_label', [('in', 'labeller'), ('in', 'txg')]), ('repair_label', [('in', 'labeller'), 0, ('in', 'txg')])):
        w = VR + m
        for kinds in arrays(1, 3):
            if 'Present' not in kinds:
                continue
            I = world(ctx)
            I.hooks['label::LabelWriter::serialize'] = lambda I, st, c: (st.log('did', 'serialize', bare(I, st, c.args[1])), R(st, ok(UNIT)))[1]
            for q in ('stripesize', 'protection'):
                I.hooks['raid::declust::Locator::' + q] = lambda I, st, c, q=q: R(st, ('locator', q))
            st = raid(ctx, I, kinds)
            for o in call(ctx, I, w, args, st):
                n += 1
                ls = [e[2] for e in o.st.effects() if e[0] == 'did' and e[1] == 'serialize']
                l = ls[0] if len(ls) == 1 else None
                l = proj(l, '0') if isagg(l) and l[2] == 'Raid' else None
                ctx.ob('label', w, isagg(l) and flat(proj(l, 'children')) == [strip(('mirror', 'uuid', vb(i)) if k != 'Missing' else lost(i)) for i, k in enumerate(kinds)],
                       f'the label of an array of {kinds} does not name its children in their order')
                ctx.ob('label', w, isagg(l) and all(proj(l, x) == strip(('.', ME, x)) for x in ('uuid', 'chunksize', 'layout_algorithm')) and proj(l, 'disks_per_stripe') == ('locator', 'stripesize')
                       and proj(l, 'redundancy') == ('locator', 'protection'), f'the label of an array of {kinds} does not tell its geometry')
    ctx.floor('label', 'labels', n, 40)


def spacemap(ctx):
    """A spacemap is read from a child in service; each of the others is tried once, at the same place and into the same memory, until one succeeds."""
    w = VR + 'read_spacemap'
    p = ctx.P.fn(f'<{V}ReadSpacemap as futures::Future>::poll')
    n = 0
    for kinds in arrays(1, 3):
        healthy = {vb(i) for i, k in enumerate(kinds) if k == 'Present'}
        I = world(ctx)
        I.hooks['futures::Future::poll'] = polls
        st = raid(ctx, I, kinds)
        b = buf(('in', 'user'), 0, 8192, 'divbuf::DivBufMut')
        outs = []
        for o in I.run(ctx.P.fn(w), [ME, b, ('in', 'idx')], st):
            while o.kind == 'ret' and not isagg(o.val) and o.val[0] == 'ref':
                o.val = I.load(o.st, o.val)
            if o.kind == 'ret' and isagg(o.val) and o.val[1].startswith('std::pin::Pin'):
                o.val = I.load(o.st, o.val[3][0][1])
            outs.extend(settle(I, p, o))
        ctx.used(I, outs)
        good = 0
        for o in outs:
            n += 1
            if not ctx.ob('spacemap', w, o.kind == 'ret', f'reading the spacemap of an array of {kinds} panics'):
                continue
            tried = [(e[1], e[2]) for e in o.st.effects() if e[0] == 'did' and e[1] in ('ok', 'err')]
            who = [x[2] for _, x in tried]
            ctx.ob('spacemap', w, len(who) == len(set(who)) and set(who) <= healthy, f'a spacemap is read from {who} of an array of {kinds}')
            ctx.ob('spacemap', w, all(x[:2] == ('op', 'read_spacemap') and is_buf(x[3]) and span(x[3]) == span(b) and x[4] == ('in', 'idx') for _, x in tried), 'a spacemap is read from elsewhere, or into other memory')
            how = [k for k, _ in tried]
            if isagg(o.val) and o.val[2] == 'Ok':
                good += 1
                ctx.ob('spacemap', w, how and how == ['err'] * (len(how) - 1) + ['ok'], f'a spacemap of an array of {kinds} is reported read although it is not')
            else:
                ctx.ob('spacemap', w, isagg(o.val) and o.val[2] == 'Err' and set(who) == healthy and 'ok' not in how, f'reading the spacemap of an array of {kinds} fails although a disk has not been tried')
        ctx.ob('spacemap', w, good >= len(healthy) and bool(outs), f'not every disk of an array of {kinds} can serve a spacemap')
    ctx.floor('spacemap', 'paths', n, 100)


def polls(I, st, c):
    """The read of a child may be waited for once, and then succeeds or fails."""
    v = bare(I, st, c.args[0])
    if not (isinstance(v, tuple) and v and v[0] == 'op'):
        return None
    waited = any(e[0] == 'did' and e[1] == 'pending' and e[2] == v for e in st.effects())
    out = []
    for k in ('ok', 'err') + (() if waited else ('pending',)):
        s = st.copy()
        s.log('did', k, v)
        x = ('agg', 'std::task::Poll', 'Pending', ()) if k == 'pending' else ('agg', 'std::task::Poll', 'Ready', (('0', ok(UNIT) if k == 'ok' else err(('failure', v))),))
        out.extend(R(s, x))
    return out


# ---- what is lost

HEALTHS = (('Online', None), ('Degraded', 1), ('Degraded', 2), ('Faulted', None))


def health(h, x=None):
    return ('agg', 'vdev::Health', h, (('0', x if x is not None else ('agg', 'vdev::FaultedReason', 'User', ())),) if h != 'Online' else ())


def nonzero(I):
    I.hooks['std::num::NonZero::new'] = lambda I, st, c: R(st, some(c.args[0]) if c.args[0] else NONE) if isinstance(c.args[0], int) else None
    for q in ('std::convert::From::from', 'std::convert::Into::into', 'std::num::NonZero::get'):
        old = I.hooks.get(q)
        I.hooks[q] = lambda I, st, c, old=old: R(st, c.args[0]) if 'NonZero' in c.argtys[0] and isinstance(c.args[0], int) else old(I, st, c) if old else None


def status(ctx):
    """An array that has lost more disks than it can do without is faulted; one that has lost none is online; any other is degraded. Its mirrors are told in their order."""
    w = VR + 'status'
    n = 0
    for k, f in ((3, 1), (4, 2)):
        for kinds in arrays(3, 3) if f == 1 else arrays(5, 5):
            for hs in itertools.product((('Online', None), ('Degraded', 1)), repeat=kinds.count('Present')) if f == 1 else [(('Online', None),) * kinds.count('Present')]:
                I = world(ctx)
                it = iter(hs)
                hh = {i: next(it) if x == 'Present' else ('Online', None) for i, x in enumerate(kinds)}

                def stat(I, st, c, hh=hh):
                    b = bare(I, st, c.args[0])
                    i = int(b[1][len('mirror'):])
                    return R(st, ('agg', 'mirror::Status', '', (('health', health(*hh[i])), ('uuid', ('mirror', 'uuid', b)), ('rebuilding', NONE), ('leaves', arr([('in', 'leaf')])))))
                I.hooks['mirror::Mirror::status'] = stat
                nonzero(I)
                I.hooks['std::fmt::format'] = I.hooks['alloc::fmt::format'] = lambda I, st, c: R(st, ('text',))
                st = raid(ctx, I, kinds, 3 if f == 1 else 4, f)
                for o in call(ctx, I, w, [], st, fut=False):
                    n += 1
                    if not ctx.ob('status', w, o.kind == 'ret', f'the status of an array of {kinds} panics'):
                        continue
                    v = strip(I.deep(o.st, o.val))
                    h = proj(v, 'health')
                    lostn = sum(x != 'Present' for x in kinds)
                    want = 'Faulted' if lostn > f else 'Online' if not lostn and all(x == 'Online' for x, _ in hs) else 'Degraded'
                    ctx.ob('status', w, isagg(h) and h[2] == want and (want != 'Faulted' or proj(h, '0')[2] == 'InsufficientRedundancy'), f'an array of {kinds} ({hs}) that can do without {f} is {pp(h)}')
                    ms = flat(proj(v, 'mirrors'))
                    ctx.ob('status', w, ms is not None and [proj(x, 'uuid') for x in ms] == [strip(('mirror', 'uuid', vb(i))) if x != 'Missing' else lost(i) for i, x in enumerate(kinds)],
                           f'the mirrors of an array of {kinds} are not told in their order')
                    ctx.ob('status', w, ms is not None and all(proj(x, 'health')[2] == ('Faulted' if kinds[i] != 'Present' else hh[i][0]) for i, x in enumerate(ms)), f'the state of a mirror of {kinds} is told wrong')
                    ctx.ob('status', w, proj(v, 'uuid') == strip(('.', ME, 'uuid')), 'the status is of something else')
    ctx.floor('status', 'arrays', n, 64 + 243)


def faulting(ctx):
    """The disks an array knows it has lost are those that are not in service, whatever has been faulted or returned."""
    n = 0
    for kinds in arrays(1, 3):
        if 'Present' not in kinds:
            continue
        for who in [('me',)] + [('child', i) for i in range(len(kinds))] + [('leaf', i) for i in range(len(kinds))] + [('none',)]:
            for dies in (0, 1):
                if dies and who[0] != 'leaf':
                    continue
                I = world(ctx)
                I.write(st0 := St(), ROOT, ('x',), 0)
                target = {'me': uid(('own',)), 'child': None, 'leaf': uid(('leaf',)), 'none': uid(('nobody',))}[who[0]]
                if who[0] == 'child':
                    target = uid(('in', f'lost{who[1]}')) if kinds[who[1]] == 'Missing' else uid(('child', who[1]))
                I.hooks['mirror::Mirror::uuid'] = lambda I, st, c: R(st, uid(('child', int(bare(I, st, c.args[0])[1][6:]))))

                def fault(I, st, c, who=who):
                    b = bare(I, st, c.args[0])
                    st.log('did', 'fault', b)
                    return R(st, ok(UNIT) if who == ('leaf', int(b[1][6:])) else err(('agg', 'types::Error', 'ENOENT', ())))
                I.hooks['mirror::Mirror::fault'] = fault
                I.hooks['mirror::Mirror::status'] = lambda I, st, c, dies=dies: R(st, ('agg', 'mirror::Status', '', (('health', health('Faulted') if dies else health('Degraded', 1)), ('uuid', ('in', 'u')), ('rebuilding', NONE), ('leaves', ('in', 'leaves')))))
                I.hooks['std::sync::Arc::get_mut'] = lambda I, st, c: R(st, some(I.load(st, c.args[0]))) + R(st.copy(), NONE)
                I.hooks['uuid::Uuid::eq'] = None
                del I.hooks['uuid::Uuid::eq']

                def same(I, st, c):
                    a, b = bare(I, st, c.args[0]), bare(I, st, c.args[1])
                    if isagg(a) and isagg(b) and a[1] == b[1] == 'uuid::Uuid':
                        return R(st, int((a == b) != (c.name.endswith('::ne'))))
                    return None
                for q in ('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne', 'core::cmp::PartialEq::eq'):
                    I.hooks[q] = same
                st = raid(ctx, I, kinds)
                I.write(st, ROOT, ('uuid',), uid(('own',)))
                w = VR + 'fault'
                for o in call(ctx, I, w, [target], st, fut=False):
                    n += 1
                    if not ctx.ob('fault', w, o.kind == 'ret', f'a fault of {who} of an array of {kinds} panics'):
                        continue
                    now = kinds_of(I, o.st)
                    cnt = I.read(o.st, ROOT, ('faulted_children',))
                    ctx.ob('fault', w, now is not None and cnt == sum(k != 'Present' for k, _ in now), f'an array of {now} counts {pp(cnt)} of them lost')
                    good = verdict(I, o) == 'Ok'
                    want = list(kinds)
                    hit = who[0] == 'child' or who[0] == 'leaf' and kinds[who[1]] == 'Present'
                    if good and (who[0] == 'child' or dies) and hit and want[who[1]] == 'Present':
                        want[who[1]] = 'Faulted'
                    ctx.ob('fault', w, now is not None and [x for x, _ in now] == want and [x for _, x in now] == [x for _, x in whole(kinds)], f'a fault of {who} of {kinds} leaves {now}')
                    ctx.ob('fault', w, not good or hit, f'a fault of {who}, which an array of {kinds} does not have, succeeds')
                    if not good:
                        e = proj(o.val, '0')
                        ctx.ob('fault', w, isagg(e) and e[2] in ('EINVAL',) if who[0] == 'me' else isagg(e) and (e[2] == 'EAGAIN' or not hit and e[2] == 'ENOENT'), f'a fault of {who} of {kinds} fails with {pp(e)}')
    w = VR + 'restore'
    for kinds in arrays(1, 3):
        for i in range(len(kinds)):
            I = world(ctx)
            I.hooks['std::sync::Arc::get_mut'] = lambda I, st, c: R(st, some(I.load(st, c.args[0]))) + R(st.copy(), NONE)
            I.hooks['mirror::Mirror::restore'] = lambda I, st, c: (st.log('did', 'restore', bare(I, st, c.args[0])), R(st, UNIT))[1]
            st = raid(ctx, I, kinds)
            for o in call(ctx, I, w, [i], st, fut=False):
                n += 1
                if not ctx.ob('fault', w, o.kind == 'ret', f'restoring child {i} of {kinds} panics'):
                    continue
                now = kinds_of(I, o.st)
                ctx.ob('fault', w, now is not None and I.read(o.st, ROOT, ('faulted_children',)) == sum(k != 'Present' for k, _ in now), f'an array of {now} counts others of them lost')
                ctx.ob('fault', w, now == whole(kinds), f'restoring child {i} of {kinds} leaves {now}')
                did = [e[2] for e in o.st.effects() if e[0] == 'did' and e[1] == 'restore']
                if verdict(I, o) == 'Ok':
                    ctx.ob('fault', w, did == ([vb(i)] if kinds[i] == 'Present' else []), f'restoring child {i} of {kinds} returns {did}')
                else:
                    ctx.ob('fault', w, not did, 'a refused return to service returns a disk')
    ctx.floor('fault', 'paths', n, 400)


# ---- what is written

def pieces(spans, lo, hi):
    """The bytes [lo, hi) of some spans of memory, as the fewest pieces of memory that are the same."""
    out, at = [], 0
    for b, a, z in spans:
        x, y = max(lo - at, 0), min(hi - at, z - a)
        at += z - a
        if x >= y:
            continue
        if b == ('zeros',):
            if out and out[-1][0] == 'zero':
                out[-1] = ('zero', out[-1][1] + y - x)
            else:
                out.append(('zero', y - x))
        elif out and out[-1][0] == 'mem' and out[-1][1] == b and out[-1][3] == a + x:
            out[-1] = ('mem', b, out[-1][2], a + y)
        else:
            out.append(('mem', b, a + x, a + y))
    return tuple(out)


def blocks(spans):
    n = sum(z - a for _, a, z in spans)
    if n % BLOCK:
        raise Tangled('what is stored is no whole number of blocks')
    return [pieces(spans, i * BLOCK, (i + 1) * BLOCK) for i in range(n // BLOCK)]


def stored(I, st):
    """What a path puts where: [(the operation, disk, lba, block, its content)]."""
    made, out = {}, []

    def content(x):
        if len(x) == 1 and x[0][0] == 'mem' and (x[0][1], x[0][2]) in made and x[0][3] - x[0][2] == BLOCK:
            return made[x[0][1], x[0][2]]
        return x
    for e in st.effects():
        if e[0] == 'did' and e[1] == 'encode':
            n, data, par = e[2:]
            cols = [blocks([s for s in _cut(d, n)]) for d in data]
            for j, p in enumerate(par):
                for u in range(n // BLOCK):
                    made[p[1], p[2] + u * BLOCK] = ('par', j, tuple(content(c[u]) for c in cols))
        elif e[0] == 'await':
            x = strip(I.deep(st, e[1]))
            if not (isinstance(x, tuple) and x and x[0] == 'op' and x[1] in ('write_at', 'writev_at')):
                continue
            ps = [x[3]] if x[1] == 'write_at' else listed(x[3])
            if ps is None or not all(is_buf(p) for p in ps):
                raise Tangled(pp(x)[:200])
            d = int(x[2][1][len('mirror'):])
            for i, b in enumerate(blocks([span(p) for p in ps])):
                out.append((x, d, x[4] + i, content(b)))
    return out


def _cut(spans, n):
    """The first n bytes of some spans."""
    for b, a, z in spans:
        if n <= 0:
            return
        yield b, a, min(z, a + n)
        n -= min(z - a, n)


def due(D, where, m, k, chunk, stripes):
    """What whole stripes put where: {(disk, lba): (stripe, column, content)}."""
    out = {}
    for s in stripes:
        for c in range(k):
            d, o = where[s, c]
            for u in range(chunk):
                col = lambda c: D[(s * m + c) * chunk + u]
                out[d, o * chunk + u] = (s, c, col(c) if c < m else ('par', c - m, tuple(col(x) for x in range(m))))
    return out


def a_stripe(lba, n, size, short=0):
    """A partial stripe that holds n blocks, the last of them short of some bytes."""
    xs = [] if not n else [buf(('in', 'held'), 0, n * BLOCK - short)] + ([buf(('zeros',), 0, short)] if short else [])
    return ('agg', SB, '', (('buf', arr(xs)), ('lba', lba), ('stripesize', size * BLOCK)))


def shapes(thorough):
    """(disks, stripe, parity, chunk)"""
    return [(3, 3, 1, 2), (3, 3, 1, 1), (5, 4, 1, 1), (5, 4, 2, 2)] + ([(5, 5, 1, 1), (5, 3, 2, 2), (5, 4, 2, 3)] if thorough else [])


def fates(n, f):
    """The disks that are not in service: none, some the array can do without, and one more."""
    yield ('Present',) * n
    for i in range(n):
        yield tuple('Faulted' if j == i else 'Present' for j in range(n))
    if f > 1 or n > 3:
        yield tuple('Missing' if j < 2 else 'Present' for j in range(n))
    if n == 3:
        yield ('Missing', 'Present', 'Faulted')


def judge(ctx, rule, w, I, o, what, kinds, D, where, m, k, f, chunk, full, zone=None):
    """A path of a write of these whole stripes."""
    try:
        did = stored(I, o.st)
    except Tangled as e:
        ctx.ob(rule, w, False, f'{what}: {e}')
        return
    want = due(D, where, m, k, chunk, full)
    bad = [(d, lba, got) for _, d, lba, got in did if (d, lba) not in want or want[d, lba][2] != got or kinds[d] != 'Present']
    ctx.ob(rule, w, not bad, f'{what}: disk {bad[0][0]} gets {pp(bad[0][2])[:120]} at {bad[0][1]}' if bad else '')
    at = [(d, lba) for _, d, lba, _ in did]
    ctx.ob(rule, w, len(at) == len(set(at)), f'{what}: the same block is stored twice')
    good = {(d, lba) for x, d, lba, _ in did if completed(I, o.st, x)}
    lack = {}
    for (d, lba), (s, c, _) in want.items():
        if (d, lba) not in good:
            lack.setdefault(s, set()).add(c)
    gone = {d for x, d, _, _ in did if not completed(I, o.st, x)} | {d for (d, _) in want if kinds[d] != 'Present'}
    if verdict(I, o) == 'Ok':
        ctx.ob(rule, w, all(len(cs) <= f for cs in lack.values()), f'{what} is reported done although a stripe lacks columns {sorted(max(lack.values(), key=len)) if lack else ""}')
    else:
        ctx.ob(rule, w, verdict(I, o) == 'Err' and len(gone) > f, f'{what} is reported failed although only disks {sorted(gone)} have')
    healthy = {(d, lba) for d, lba in want if kinds[d] == 'Present'}
    ctx.ob(rule, w, verdict(I, o) != 'Ok' or set(at) == healthy, f'{what} does not store a column on every disk in service')


def writing(ctx):
    """A write stores every stripe it completes, each column and its parity at its place on its disk, and keeps the rest for later; it is done if and only if no stripe lacks more columns than can be
    done without."""
    jobs = []
    for N, k, f, chunk in shapes(ctx.tier == 'thorough'):
        locator(ctx, N, k, f)
        jobs += [(N, k, f, chunk, kinds, held) for kinds in fates(N, f) for held in range((k - f) * chunk)]
    ctx.floor('write', 'writes', sum(x or 0 for x in ctx.share(writes, jobs)), 300)


def writes(ctx, job):
    N, k, f, chunk, kinds, held = job
    w = VR + 'write_at'
    size = (k - f) * chunk
    where = locator(ctx, N, k, f)[1]
    whole_ = set(kinds) == {'Present'}
    n = 0
    for short in ((0, 100) if held and whole_ else (0,)):
        for ln in range(1, 2 * size + 2) if whole_ and N == 3 else sorted({1, size - held, size, 2 * size, 2 * size + 1} - {0}):
            for cut in (0, 1000) if whole_ else (0,):
                n += one_write(ctx, w, N, k, f, chunk, kinds, where, held, short, ln, cut)
    return n


def one_write(ctx, w, N, k, f, chunk, kinds, where, held, short, ln, cut):
    m = k - f
    size = m * chunk
    base = size                                   # the open stripe is the second of the array
    I = table(world(ctx))
    old = I.hooks['vdev::Vdev::lba2zone']
    I.hooks['vdev::Vdev::lba2zone'] = I.hooks['<raid::vdev_raid::VdevRaid as vdev::Vdev>::lba2zone'] = lambda I, st, c: R(st, some(7)) if 'VdevRaid' in c.argtys[0] else old(I, st, c)
    st = raid(ctx, I, kinds, k, f, chunk)
    I.write(st, ROOT, ('stripe_buffers',), buffers(I, st, 7, a_stripe(base, held, size, short)))
    nbytes = ln * BLOCK - cut
    new = [(('in', 'user'), 0, nbytes)] + ([(('zeros',), 0, cut)] if cut else [])
    had = [span(x) for x in flat(proj(a_stripe(base, held, size, short), 'buf'))]
    D = {base + i: x for i, x in enumerate(blocks(had) + blocks(new))}
    total = held + ln
    full = range(1, 1 + total // size)
    what = f'a write of {ln} blocks less {cut} bytes behind {held} to ({N},{k},{f}) of {chunk}, {kinds}'
    outs = call(ctx, I, w, [buf(('in', 'user'), 0, nbytes), 7, base + held], st)
    ctx.ob('write', w, any(o.kind == 'ret' and (verdict(I, o) == 'Ok') for o in outs) or sum(x != 'Present' for x in kinds) > f, f'{what} cannot succeed')
    for o in outs:
        if not ctx.ob('write', w, o.kind == 'ret', f'{what} panics'):
            continue
        judge(ctx, 'write', w, I, o, what, kinds, D, where, m, k, f, chunk, full)
        rest(ctx, 'write', w, I, o, what, 7, base + len(full) * size, [D[base + i] for i in range(len(full) * size, total)], size)
    return 1


def rest(ctx, rule, w, I, o, what, zone, lba, want, size):
    z = left(I, o.st)
    sb = strip(z[1]) if z else None
    if not ctx.ob(rule, w, z is not None and z[0] == zone and isagg(sb), f'{what}: the zone is not open any more'):
        return
    xs = flat(strip(I.deep(o.st, proj(sb, 'buf'))))
    xs = listed(strip(I.deep(o.st, proj(sb, 'buf')))) if xs is None else xs
    try:
        got = None if xs is None or not all(is_buf(x) for x in xs) else blocks([span(x) for x in xs])
    except Tangled:
        got = None
    ctx.ob(rule, w, got == want, f'{what}: what is left for later is {pp(tuple(got)) if got is not None else pp(proj(sb, "buf"))[:150]}')
    ctx.ob(rule, w, proj(sb, 'lba') == lba and proj(sb, 'stripesize') == size * BLOCK, f'{what}: what is left for later belongs to {pp(proj(sb, "lba"))}')


def flushing(ctx):
    """A partial stripe that is flushed is stored whole, filled up with as many zeros as are reported; a zone that is finished keeps nothing for later and every disk in service finishes its own."""
    n = 0
    for N, k, f, chunk in shapes(False) + [(3, 3, 1, 6)]:
        m = k - f
        size = m * chunk
        where = locator(ctx, N, k, f)[1]
        for kinds in fates(N, f):
            for held in range(size):
                for short in (0, 100) if held else (0,):
                    for which in ('flush', 'finish'):
                        n += one_flush(ctx, which, N, k, f, chunk, kinds, where, held, short)
    # nothing is open
    I = table(world(ctx))
    st = raid(ctx, I, ('Present',) * 3, 3, 1, 2)
    I.write(st, ROOT, ('stripe_buffers',), buffers(I, st))
    w = VR + 'flush_zone'
    for o in I.run(ctx.P.fn(w), [ME, 7], st):
        if ctx.ob('flush', w, o.kind == 'ret', 'flushing a zone that is not open panics'):
            for q in I.run_future(o.st, proj(o.val, '1')):
                ctx.ob('flush', w, proj(o.val, '0') == 0 and q.kind == 'ret' and verdict(I, q) == 'Ok' and not asked(I, q.st), 'flushing a zone that is not open does something')
    ctx.floor('flush', 'partial stripes', n, 150)


def one_flush(ctx, which, N, k, f, chunk, kinds, where, held, short):
    m = k - f
    size = m * chunk
    base = size
    w = VR + which + '_zone'
    I = table(world(ctx))
    st = raid(ctx, I, kinds, k, f, chunk)
    I.write(st, ROOT, ('stripe_buffers',), buffers(I, st, 7, a_stripe(base, held, size, short)))
    had = [span(x) for x in flat(proj(a_stripe(base, held, size, short), 'buf'))]
    pad = size - held if held else 0
    D = {base + i: x for i, x in enumerate(blocks(had + [(('zeros',), 0, pad * BLOCK)]))}
    full = [1] if held else []
    what = f'a {which} of {held} blocks of ({N},{k},{f}) of {chunk}, {kinds}'
    outs = []
    for o in I.run(ctx.P.fn(w), [ME, 7], st):
        if o.kind == 'ret' and which == 'flush':
            ctx.ob('flush', w, proj(o.val, '0') == pad, f'{what} reports {pp(proj(o.val, "0"))} blocks of padding')
        outs.extend(I.run_future(o.st, proj(o.val, '1') if which == 'flush' else o.val) if o.kind == 'ret' else [o])
    ctx.used(I, outs)
    ctx.ob('flush', w, any(o.kind == 'ret' and verdict(I, o) == 'Ok' for o in outs) or sum(x != 'Present' for x in kinds) > f, f'{what} cannot succeed')
    z = ('mirror', 'zone_limits', vb(first(kinds)), 7)
    fin = [('op', 'finish_zone', vb(i), ('.', z, '0'), sub(('.', z, '1'), 1)) for i, x in enumerate(kinds) if x == 'Present']
    for o in outs:
        if not ctx.ob('flush', w, o.kind == 'ret', f'{what} panics'):
            continue
        if which == 'flush':
            judge(ctx, 'flush', w, I, o, what, kinds, D, where, m, k, f, chunk, full)
            rest(ctx, 'flush', w, I, o, what, 7, base + len(full) * size, [], size)
            continue
        z = left(I, o.st)
        ctx.ob('flush', w, z is not None and z[1] is None, f'{what} leaves the zone open')
        did = [x for x in asked(I, o.st) if x[1] == 'finish_zone']
        ctx.ob('flush', w, all(did.count(x) == 1 and x in fin for x in did), f'{what} asks the disks for {[pp(x)[:80] for x in did]}')
        if verdict(I, o) == 'Ok' or all(completed(I, o.st, x) for x in did):
            judge(ctx, 'flush', w, I, o, what, kinds, D, where, m, k, f, chunk, full)
        if verdict(I, o) == 'Ok':
            ctx.ob('flush', w, len(did) == len(fin) and all(completed(I, o.st, x) for x in did), f'{what} is reported done although a disk has not finished its zone')
    return 1


# ---- what is read

def reads(ctx):
    """(disks, stripe, parity, chunk, first blocks, longest)"""
    more = [(5, 5, 2, 1, 3, 8), (5, 3, 2, 2, 2, 6), (7, 4, 2, 1, 2, 6)] if ctx.tier == 'thorough' else []
    return [(3, 3, 1, 2, 4, 9), (3, 3, 1, 3, 6, 8), (5, 4, 2, 2, 4, 6), (5, 4, 1, 2, 3, 13), (5, 4, 2, 1, 2, 7)] + more


def reading(ctx):
    """A read that succeeds leaves the right data in every block asked for, whichever disks are lost and whichever fail; it does not fail unless a disk does; and within a stripe it does not fail while
    as many columns are left as can be done with."""
    jobs = []
    for N, k, f, chunk, top, most in reads(ctx):
        locator(ctx, N, k, f)
        for kinds in losses(N, f):
            jobs += [(N, k, f, chunk, kinds, lba, [(ln, None) for ln in range(1, most + 1)]) for lba in range(top)]
    # some of it has not been stored yet
    for kinds in (('Present',) * 3, ('Present', 'Missing', 'Present')):
        for lba in range(13):
            jobs.append((3, 3, 1, 2, kinds, lba, [(ln, (8, held)) for held in range(1, 5) for ln in range(1, 9) if (lba + ln <= 8 + held if lba + ln > 8 else lba + ln > 4)]))
    ctx.floor('read', 'reads', sum(x or 0 for x in ctx.share(some_reads, jobs)), 1000)


def losses(N, f):
    """The sets of no more than f disks that are not in service."""
    for lost_ in range(f + 1):
        for fs in itertools.combinations(range(N), lost_):
            yield tuple(('Missing' if i % 2 else 'Faulted') if i in fs else 'Present' for i in range(N))


def some_reads(ctx, job):
    N, k, f, chunk, kinds, lba, which = job
    where = locator(ctx, N, k, f)[1]
    return sum(one_read(ctx, N, k, f, chunk, kinds, where, lba, ln, partial) for ln, partial in which)


def one_read(ctx, N, k, f, chunk, kinds, where, lba, ln, partial):
    m = k - f
    size = m * chunk
    w = VR + 'read_at'
    I = table(world(ctx))
    st = raid(ctx, I, kinds, k, f, chunk)
    held = {}
    if partial:
        held = {(('in', 'held'), i): (('D', partial[0] + i), frozenset()) for i in range(partial[1])}
        h = partial[1]
        # in two pieces
        xs = [buf(('in', 'held'), 0, BLOCK), buf(('in', 'held'), BLOCK, h * BLOCK)] if h > 1 else [buf(('in', 'held'), 0, BLOCK)]
        I.write(st, ROOT, ('stripe_buffers',), buffers(I, st, 7, ('agg', SB, '', (('buf', arr(xs)), ('lba', partial[0]), ('stripesize', size * BLOCK)))))
    else:
        I.write(st, ROOT, ('stripe_buffers',), buffers(I, st, 7, a_stripe(8 * size, 0, size)))
    what = f'a read of {ln} blocks at {lba} of ({N},{k},{f}) of {chunk}, {kinds}' + (f' with {partial[1]} held back at {partial[0]}' if partial else '')
    outs = call(ctx, I, w, [buf(('in', 'user'), 0, ln * BLOCK, 'divbuf::DivBufMut'), lba], st)
    ctx.ob('read', w, any(o.kind == 'ret' and verdict(I, o) == 'Ok' for o in outs), f'{what} cannot succeed')
    last = min(lba + ln, partial[0]) - 1 if partial else lba + ln - 1
    for o in outs:
        if not ctx.ob('read', w, o.kind == 'ret', f'{what} panics'):
            continue
        bad = {int(x[2][1][6:]) for x in asked(I, o.st) if not completed(I, o.st, x)}
        ctx.ob('read', w, all(kinds[int(x[2][1][6:])] == 'Present' for x in asked(I, o.st)), f'{what} asks a disk that is not in service')
        if verdict(I, o) == 'Ok':
            try:
                M = Memory(I, o.st, where, m, f, chunk, held)
            except Tangled as e:
                ctx.ob('read', w, False, f'{what}: {e}')
                continue
            wrong = [(lba + i, M.get(('in', 'user'), i)[0]) for i in range(ln) if M.get(('in', 'user'), i)[0] != ('D', lba + i)]
            ctx.ob('read', w, not wrong, f'{what} with disks {sorted(bad)} failing succeeds, and block {wrong[0][0]} is {wrong[0][1]}' if wrong else '')
            continue
        ctx.ob('read', w, verdict(I, o) == 'Err' and bad, f'{what} fails although no disk does')
        if last // size == lba // size:
            cols = {where[lba // size, c][0] for c in range(k)}
            gone = {d for d in cols if kinds[d] != 'Present' or d in bad}
            ctx.ob('read', w, len(gone) > f, f'{what} fails although only disks {sorted(gone)} have')
    return 1


def offers(I, o):
    v = proj(o.val, '0')
    if isinstance(v, tuple) and v[0] == 'ref':
        v = I.load(o.st, v)
    for s, a, _ in drive(I, o.st, v, arr([]), lambda s, a, x: [(s, 'next', arr(flat(a) + [x]))]):
        yield s, flat(a)


def long(ctx):
    """The other ways to make out what is stored: each offered has the right data if the disks it comes from do, and whichever disks have gone bad, as many as can be done without, one comes from none of
    them."""
    jobs = []
    for N, k, f, chunk, top, most in [(3, 3, 1, 2, 4, 9), (5, 4, 2, 1, 2, 5)] + ([(5, 4, 2, 2, 4, 6), (5, 4, 1, 1, 3, 7)] if ctx.tier == 'thorough' else []):
        locator(ctx, N, k, f)
        jobs += [(N, k, f, chunk, kinds, lba, most) for kinds in losses(N, f + 1) for lba in range(top)]
    ctx.floor('long', 'reads', sum(x or 0 for x in ctx.share(versions, jobs)), 200)


def versions(ctx, job):
    N, k, f, chunk, kinds, lba, most = job
    w = VR + 'read_long'
    m = k - f
    size = m * chunk
    where = locator(ctx, N, k, f)[1]
    lost_ = sum(x != 'Present' for x in kinds)
    for ln in range(1, most + 1):
        what = f'making out {ln} blocks at {lba} of ({N},{k},{f}) of {chunk}, {kinds}'
        I = world(ctx)
        st = raid(ctx, I, kinds, k, f, chunk)
        outs = call(ctx, I, w, [ln, lba], st)
        disks = {where[s, c][0] for s in range(lba // size, (lba + ln - 1) // size + 1) for c in range(k)}
        some_ = 0
        for o in outs:
            if not ctx.ob('long', w, o.kind == 'ret', f'{what} panics'):
                continue
            if verdict(I, o) != 'Ok':
                ctx.ob('long', w, verdict(I, o) == 'Err' and lost_ >= f, f'{what} is refused')
                continue
            failed = {int(x[2][1][6:]) for x in asked(I, o.st) if not completed(I, o.st, x)} | {d for d in disks if kinds[d] != 'Present'}
            for s, cs in offers(I, o):
                some_ += 1
                try:
                    M = Memory(I, s, where, m, f, chunk)
                except Tangled as e:
                    ctx.ob('long', w, False, f'{what}: {e}')
                    continue
                whence = []
                for x in cs:
                    x = dict(x[3])
                    got = [M.get(x['b'], i) for i in range(x['n'] // BLOCK)]
                    ok_ = [g[0] for g in got] == [('D', lba + i) for i in range(ln)]
                    ctx.ob('long', w, ok_, f'{what} with disks {sorted(failed)} lost offers {[g[0] for g in got]}')
                    whence.append(frozenset().union(*(g[1] for g in got)))
                for C in itertools.combinations(sorted(disks), f):
                    if failed <= set(C):
                        ctx.ob('long', w, any(not (p & set(C)) for p in whence), f'{what} with disks {sorted(failed)} lost offers nothing made without {C}')
        ctx.ob('long', w, some_ or lost_ >= f, f'{what} offers nothing')
    return most


# ---- zones

def limits(Z):
    def f(I, st, c):
        if 'mirror::Mirror' not in c.argtys[0]:
            return None
        z = c.args[1]
        return R(st, tup(z * Z, (z + 1) * Z)) if isinstance(z, int) else None
    return f


def zoned(ctx, kinds, k, f, chunk, Z):
    I = table(world(ctx, 400))
    h = I.hooks
    zl, lz, vz, vl = limits(Z), lambda I, st, c: R(st, some(c.args[1] // Z)) if isinstance(c.args[1], int) else None, h['vdev::Vdev::zone_limits'], h['vdev::Vdev::lba2zone']
    h['mirror::Mirror::zone_limits'] = zl
    h['mirror::Mirror::lba2zone'] = lz
    h['vdev::Vdev::zone_limits'] = lambda I, st, c: zl(I, st, c) if 'mirror::Mirror' in c.argtys[0] else None
    h['vdev::Vdev::lba2zone'] = lambda I, st, c: lz(I, st, c) if 'mirror::Mirror' in c.argtys[0] else None
    m = k - f
    back = {v: key for key, v in everywhere(ctx, len(kinds), k, f, (4 * Z // chunk + 2 * k) * len(kinds) // k + len(kinds)).items()}

    def loc2id(I, st, c):
        """The inverse of where the layout puts a column (C01)."""
        l = strip(I.deep(st, c.args[1]))
        s, x = back[proj(l, 'disk'), proj(l, 'offset')]
        return R(st, ('agg', 'raid::declust::ChunkId', 'Data', (('0', s * m + x),)) if x < m else ('agg', 'raid::declust::ChunkId', 'Parity', (('0', s * m), ('1', x - m))))
    h['raid::declust::Locator::loc2id'] = loc2id
    st = raid(ctx, I, kinds, k, f, chunk)
    I.write(st, ROOT, ('stripe_buffers',), buffers(I, st))
    return I, st


WHERE = {}


def geometry(thorough):
    """(disks, stripe, parity, chunk, zone)"""
    return [(3, 3, 1, 2, 12), (3, 3, 1, 2, 13), (5, 4, 1, 1, 9), (5, 4, 2, 2, 23), (5, 3, 1, 1, 16)] + ([(5, 4, 1, 2, 37), (7, 4, 2, 1, 30), (5, 5, 2, 3, 31)] if thorough else [])


def span_of(I, st, ctx, z):
    outs = I.run(ctx.P.fn('<raid::vdev_raid::VdevRaid as vdev::Vdev>::zone_limits'), [ME, z], st)
    ctx.used(I, outs)
    if len(outs) != 1 or outs[0].kind != 'ret':
        return None
    v = outs[0].val
    a, b = (I.deep(outs[0].st, x[1]) for x in v[3]) if isagg(v) else (None, None)
    return (a, b) if isinstance(a, int) and isinstance(b, int) else None


def zoning(ctx):
    """A zone of the array is whole stripes every column of which is in that zone of its disk; zones share nothing and leave out no stripe that is all in one; an address is in the zone whose limits it is
    within."""
    w = '<raid::vdev_raid::VdevRaid as vdev::Vdev>::zone_limits'
    n = 0
    for N, k, f, chunk, Z in geometry(ctx.tier == 'thorough'):
        m = k - f
        size = m * chunk
        for kinds in (('Present',) * N, ('Missing',) + ('Present',) * (N - 1)):
            what = f'({N},{k},{f}) of {chunk} in zones of {Z}, {kinds}'
            got = []
            for z in range(3):
                I, st = zoned(ctx, kinds, k, f, chunk, Z)
                lim = span_of(I, st, ctx, z)
                if ctx.ob('zones', w, lim is not None, f'the limits of zone {z} of {what} are not known'):
                    got.append(lim)
                n += 1
            if len(got) < 3:
                continue
            top = got[2][1] // size + 2
            where = everywhere(ctx, N, k, f, top)
            inside = {s: {where[s, c][1] * chunk // Z if where[s, c][1] * chunk // Z == ((where[s, c][1] + 1) * chunk - 1) // Z else None for c in range(k)} for s in range(top)}
            for z, (a, b) in enumerate(got):
                ctx.ob('zones', w, a % size == 0 == b % size and a < b, f'zone {z} of {what}, {a} to {b}, is no whole number of stripes')
                out = [s for s in range(a // size, b // size) if inside[s] != {z}]
                ctx.ob('zones', w, not out, f'zone {z} of {what} has stripe {out[:1]} with columns in zones {inside[out[0]] if out else ""} of the disks')
                ctx.ob('zones', w, not z or got[z - 1][1] <= a, f'zones {z - 1} and {z} of {what} overlap')
            # a stripe left out is one of those near a boundary some of which cross it
            for z, (a, b) in enumerate(got):
                if inside.get(b // size) == {z}:
                    ctx.ob('zones', w, False, f'zone {z} of {what} leaves out stripe {b // size}')
            wl = '<raid::vdev_raid::VdevRaid as vdev::Vdev>::lba2zone'
            for lba in sorted({x for a, b in got for x in (a, a + 1, b - 1, b, b + size - 1, max(a - 1, 0), (a + b) // 2)}):
                if lba >= (top - 1) * size:
                    continue
                I, st = zoned(ctx, kinds, k, f, chunk, Z)
                for o in I.run(ctx.P.fn(wl), [ME, lba], st):
                    n += 1
                    want = [z for z, (a, b) in enumerate(got) if a <= lba < b]
                    if lba >= got[2][1]:
                        continue
                    v = o.val if o.kind == 'ret' else None
                    ctx.ob('zones', wl, isagg(v) and v == (some(want[0]) if want else NONE), f'address {lba} of {what} is said to be in zone {pp(v) if v else "(panic)"}, not {want}')
    ctx.floor('zones', 'limits', n, 60)


def everywhere(ctx, N, k, f, top):
    """Where the layout puts the columns of the first stripes."""
    L = locator(ctx, N, k, f)[0]
    m = k - f
    out = WHERE.setdefault((N, k, f), {})
    for s in range(top):
        for c in range(k):
            if (s, c) in out:
                continue
            cid = ('agg', 'raid::declust::ChunkId', 'Data', (('0', s * m + c),)) if c < m else ('agg', 'raid::declust::ChunkId', 'Parity', (('0', s * m), ('1', c - m)))
            I = ctx.interp()
            I.unroll = 40
            st = St()
            for o in I.run(ctx.P.fn('<raid::prime_s::PrimeS as raid::declust::Locator>::id2loc'), [I.alloc(st, L), cid], st):
                v = I.deep(o.st, o.val)
                out[s, c] = (proj(v, 'disk'), proj(v, 'offset'))
    return {(s, c): v for (s, c), v in out.items() if s < top}


def opening(ctx):
    """A zone that is opened is opened on every disk in service, is written with zeros from its start to the first block of the array in it, and begins with its first stripe; one that is opened again
    begins after what it has, and nothing is written."""
    n = 0
    for N, k, f, chunk, Z in geometry(ctx.tier == 'thorough'):
        m = k - f
        size = m * chunk
        for kinds in (('Present',) * N, ('Present', 'Missing') + ('Present',) * (N - 2), ('Faulted', 'Faulted') + ('Present',) * (N - 2)):
            for z in range(3):
                I, st = zoned(ctx, kinds, k, f, chunk, Z)
                lim = span_of(I, st, ctx, z)
                if lim is None:
                    ctx.ob('open', VR + 'open_zone', False, 'the limits of a zone are not known')
                    continue
                where = everywhere(ctx, N, k, f, lim[1] // size)
                for m_, more in (('open_zone', 0), ('reopen_zone', size)):
                    w = VR + m_
                    n += 1
                    what = f'{m_} of {z} of ({N},{k},{f}) of {chunk} in zones of {Z}, {kinds}'
                    I, st = zoned(ctx, kinds, k, f, chunk, Z)
                    outs = call(ctx, I, w, [z] + ([more] if more else []), st)
                    fresh_ = {d: [z * Z, min([o * chunk for (s, _), (d_, o) in where.items() if d_ == d and s >= lim[0] // size], default=None)] for d in range(N)}
                    good = 0
                    for o in outs:
                        if not ctx.ob('open', w, o.kind == 'ret', f'{what} panics'):
                            continue
                        did = asked(I, o.st)
                        opens = [x for x in did if x[1] == 'open_zone']
                        want = [('op', 'open_zone', vb(i), z * Z) for i, x in enumerate(kinds) if x == 'Present']
                        ctx.ob('open', w, all(x in want and opens.count(x) == 1 for x in opens), f'{what} asks for {[pp(x)[:70] for x in opens]}')
                        fills = {}
                        for x in did:
                            if x[1] in ('writev_at', 'write_at'):
                                ps = listed(x[3]) if x[1] == 'writev_at' else [x[3]]
                                zero = ps is not None and all(is_buf(p) and span(p)[0] == ('zeros',) for p in ps)
                                ctx.ob('open', w, zero and x[2] not in fills, f'{what} writes something else than zeros to a disk')
                                if zero:
                                    fills[x[2]] = (x[4], x[4] + sum(span(p)[2] - span(p)[1] for p in ps) // BLOCK)
                        due_ = {vb(d): tuple(ab) for d, ab in fresh_.items() if not more and kinds[d] == 'Present' and ab[1] is not None and ab[1] > ab[0]}
                        ctx.ob('open', w, all(due_.get(d) == ab for d, ab in fills.items()), f'{what} fills {fills}, not {due_}')
                        rest(ctx, 'open', w, I, o, what, z, lim[0] + more, [], size)
                        if verdict(I, o) == 'Ok':
                            good += 1
                            ctx.ob('open', w, len(opens) == len(want) and set(fills) == set(due_), f'{what} is reported done although it is not')
                            ctx.ob('open', w, all(completed(I, o.st, x) for x in did), f'{what} is reported done although a disk has failed')
                        else:
                            ctx.ob('open', w, verdict(I, o) == 'Err' and any(not completed(I, o.st, x) for x in did), f'{what} fails although no disk does')
                    ctx.ob('open', w, good == 1, f'{what} has {good} ways to succeed')
    ctx.floor('open', 'zones', n, 90)


def repairing(ctx):
    """What a disk of an open zone has of the stripes stored so far is rebuilt, all of it; a zone that is full is rebuilt whole; only the mirror in question is asked, and only if it is in service."""
    w = VR + 'repair_mirror_zone'
    n = 0
    for N, k, f, chunk, Z in geometry(ctx.tier == 'thorough') + [(7, 3, 1, 1, 30)]:
        m = k - f
        size = m * chunk
        for z in range(3):
            kinds = ('Present',) * N
            I, st = zoned(ctx, kinds, k, f, chunk, Z)
            lim = span_of(I, st, ctx, z)
            if lim is None:
                ctx.ob('repair', w, False, 'the limits of a zone are not known')
                continue
            where = everywhere(ctx, N, k, f, lim[1] // size)
            s0, all_ = lim[0] // size, (lim[1] - lim[0]) // size
            like = all(where[s0 + s, c] == (where[s, c][0], where[s, c][1] + z * Z // chunk) for s in range(all_) for c in range(k)) and z * Z % chunk == 0
            for stripes in sorted({0, 1, 2, 3, 5, all_ // 2, all_ - 1, all_} & set(range(all_ + 1))):
                for more in (0, 1) if stripes else (1,):
                    lbas = stripes * size + more
                    if lbas > lim[1] - lim[0]:
                        continue
                    for i in range(N):
                        n += 1
                        I, st = zoned(ctx, kinds, k, f, chunk, Z)
                        nonzero(I)
                        need = max([(o + 1) * chunk for (s, c), (d, o) in where.items() if d == i and lim[0] // size <= s < lim[0] // size + stripes], default=z * Z) - z * Z
                        what = f'rebuilding disk {i} of the {lbas} blocks of zone {z} of ({N},{k},{f}) of {chunk} in zones of {Z}'
                        for o in call(ctx, I, w, [i, z, some(lbas)], st):
                            if not ctx.ob('repair', f'{w}/{"aligned" if like else "unaligned"} zone', o.kind == 'ret', f'{what} panics'):
                                continue
                            did = asked(I, o.st)
                            got = None
                            if len(did) == 1 and did[0][:4] == ('op', 'repair_zone', vb(i), z):
                                got = Z if did[0][4] == NONE else (did[0][4][3][0][1] if isagg(did[0][4]) else None)
                            ctx.ob('repair', f'{w}/{"aligned" if like else "unaligned"} zone', (got if did else 0) is not None and (got if did else 0) >= need,
                                   f'{what} rebuilds {got or 0} blocks, and the disk has {need}')
                            ctx.ob('repair', w, strip(I.deep(o.st, o.val)) == ('out', did[0]) if did else verdict(I, o) == 'Ok', f'{what} is reported wrong')
    for kinds in arrays(2, 2):
        for i in range(2):
            I = world(ctx)
            st = raid(ctx, I, kinds)
            for o in call(ctx, I, w, [i, ('in', 'zone'), NONE], st):
                n += 1
                if not ctx.ob('repair', w, o.kind == 'ret', f'rebuilding disk {i} of {kinds} panics'):
                    continue
                did = asked(I, o.st)
                ctx.ob('repair', w, did == ([('op', 'repair_zone', vb(i), ('in', 'zone'), NONE)] if kinds[i] == 'Present' else []), f'rebuilding disk {i} of {kinds} asks for {[pp(x)[:90] for x in did]}')
                ctx.ob('repair', w, strip(I.deep(o.st, o.val)) == ('out', did[0]) if did else verdict(I, o) == 'Err', f'rebuilding disk {i} of {kinds} is reported wrong')
    ctx.floor('repair', 'zones', n, 200)


def assembling(ctx):
    """An array is made of the children its label names, in their order: those that are there and well are in service, those that are faulted are not, those that are not there are missing; it is the array
    the label tells of, and it knows how many it has lost."""
    w = V + 'VdevRaid::open'
    n = 0
    for N, k, f in ((3, 3, 1), (5, 4, 2)):
        for kinds in arrays(N, N):
            if 'Present' not in kinds or N == 5 and kinds.count('Present') < 3:
                continue
            I = world(ctx)

            def remove(I, st, c):
                if I.load(st, c.args[0]) != ('in', 'mirrors') and strip(I.deep(st, c.args[0])) != ('in', 'mirrors'):
                    return None
                u = strip(I.deep(st, c.args[1]))
                i = next(i for i in range(N) if u == lost(i))
                st.log('did', 'taken', i)
                return R(st, some(vb(i)) if kinds[i] != 'Missing' else NONE)
            I.hooks['std::collections::BTreeMap::remove'] = remove
            I.hooks['mirror::Mirror::status'] = lambda I, st, c: R(st, ('agg', 'mirror::Status', '', (('health', health('Faulted') if kinds[int(bare(I, st, c.args[0])[1][6:])] == 'Faulted' else health('Online')), ('uuid', ('in', 'u')), ('rebuilding', NONE), ('leaves', ('in', 'leaves')))))
            I.hooks['mirror::Mirror::size'] = lambda I, st, c: R(st, 1000)
            I.hooks['mirror::Mirror::zone_limits'] = lambda I, st, c: R(st, tup(0, 500))
            I.hooks['mirror::Mirror::optimum_queue_depth'] = lambda I, st, c: R(st, 10)
            for m, v in (('size', 1000), ('zone_limits', tup(0, 500)), ('optimum_queue_depth', 10)):
                I.hooks['vdev::Vdev::' + m] = lambda I, st, c, v=v: R(st, v) if 'mirror::Mirror' in c.argtys[0] else None
            I.hooks['raid::codec::Codec::new'] = lambda I, st, c: R(st, ('agg', 'raid::codec::Codec', '', (('m', c.args[0]), ('f', c.args[1]), ('enc_matrix', ('in', 'matrix')), ('enc_tables', ('in', 'tables')))))
            st = St()
            l = ('agg', V + 'Label', '', (('uuid', uid(('own',))), ('chunksize', 2), ('disks_per_stripe', k), ('redundancy', f), ('layout_algorithm', ('agg', V + 'LayoutAlgorithm', 'PrimeS', ())),
                                          ('children', arr([lost(i) for i in range(N)]))))
            for o in I.run(ctx.P.fn(w), [l, ('in', 'mirrors')], st):
                n += 1
                if not ctx.ob('assemble', w, o.kind == 'ret', f'assembling an array of {kinds} panics'):
                    continue
                v = strip(I.deep(o.st, o.val))
                inner = strip(I.deep(o.st, proj(v, 'inner')))
                xs = flat(strip(I.deep(o.st, proj(inner, 'children'))))
                got = None if xs is None else [(x[2], strip(x[3][0][1])) for x in xs if isagg(x)]
                ctx.ob('assemble', w, got == whole(kinds), f'an array of {kinds} is assembled of {got}')
                ctx.ob('assemble', w, proj(v, 'faulted_children') == sum(x != 'Present' for x in kinds), f'an array of {kinds} counts {pp(proj(v, "faulted_children"))} lost')
                c, loc = proj(inner, 'codec'), strip(I.deep(o.st, proj(inner, 'locator')))
                ctx.ob('assemble', w, isagg(c) and proj(c, 'm') == k and proj(c, 'f') == f, 'the array has another codec than its label tells')
                ctx.ob('assemble', w, isagg(loc) and loc[3] and loc[3][0][1] == strip(locator(ctx, N, k, f)[0]), 'the array has another layout than its label tells')
                ctx.ob('assemble', w, proj(v, 'uuid') == uid(('own',)) and proj(v, 'chunksize') == 2, 'the array is another than its label tells')
    ctx.floor('assemble', 'arrays', n, 40)
