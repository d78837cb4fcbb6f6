"""A RAID array of a few disks and the memory it reads and writes: buffers are pieces of named memory, and what memory and disks hold are columns of stripes."""
import itertools

from engine.interp import St
from engine.models import R, ok, err, some, NONE, UNIT, proj, iter_of, seq_value
from engine.terms import *
from checks import proto
from checks.proto import strip
from checks.C21 import together
from checks.C25 import arr, flat, gather, empty, asked, bare, uid, done

ME = ('in', 'raid')
ROOT = ('P', ME)
V = 'raid::vdev_raid::'
VR = f'<{V}VdevRaid as raid::vdev_raid_api::VdevRaidApi>::'
KINDS = ('Present', 'Missing', 'Faulted')
OPS = ('erase_zone', 'finish_zone', 'open_zone', 'write_at', 'writev_at', 'write_spacemap', 'write_label', 'sync_all', 'read_at', 'read_spacemap', 'readv_at', 'repair_zone')
PURE = ('size', 'uuid', 'status', 'optimum_queue_depth', 'lba2zone', 'zone_limits', 'zones')
BLOCK = 4096
ZEROS = 8 * BLOCK


def vb(i):
    return ('in', f'mirror{i}')


def lost(i):
    return uid(('in', f'lost{i}'))


def child(kind, i):
    return ('agg', V + 'Child', kind, (('0', vb(i) if kind != 'Missing' else lost(i)),))


# ---- buffers

def buf(b, a, z, ty='divbuf::DivBuf'):
    return ('agg', ty, '', (('b', b), ('a', a), ('z', z)))


def is_buf(v):
    return isagg(v) and v[1] in ('divbuf::DivBuf', 'divbuf::DivBufMut', 'bytes') and len(v[3]) == 3


def span(v):
    d = dict(v[3])
    return d['b'], d['a'], d['z']


def fresh(st, what):
    """New memory."""
    n = sum(e[0] == 'did' and e[1] == 'mem' for e in st.effects())
    st.log('did', 'mem', n, what)
    return ('mem', n)


def the(I, st, v):
    """The buffer a value is or refers to."""
    for _ in range(6):
        if is_buf(v):
            return v
        if not (isinstance(v, tuple) and v and v[0] == 'ref'):
            return None
        v = I.load(st, v)
    return None


def shared(I, st, v):
    for _ in range(6):
        if isagg(v) and v[1] == 'divbuf::DivBufShared':
            return v
        if not (isinstance(v, tuple) and v and v[0] == 'ref'):
            return None
        v = I.load(st, v)
    return None


def part(c):
    def f(I, st, c):
        v = the(I, st, c.args[0])
        if v is None:
            return None
        b, a, z = span(v)
        nm = c.name.split('::')[-1]
        lo = c.args[1] if nm in ('slice', 'slice_from') else 0
        hi = c.args[2] if nm == 'slice' else c.args[1] if nm == 'slice_to' else z - a
        if not (isinstance(lo, int) and isinstance(hi, int)):
            return None
        if not 0 <= lo <= hi <= z - a:
            return I.panic(st, 'a slice beyond its buffer') if hasattr(I, 'panic') else None
        return R(st, buf(b, a + lo, a + hi, v[1]))
    return f


def split(I, st, c):
    v = the(I, st, c.args[0])
    k = c.args[1]
    if v is None or not isinstance(k, int):
        return None
    b, a, z = span(v)
    if not 0 <= k <= z - a:
        return None
    x, y = buf(b, a, a + k, v[1]), buf(b, a + k, z, v[1])
    to = c.name.endswith('split_to')
    I.store(st, c.args[0], y if to else x)
    return R(st, x if to else y)


def length(I, st, c):
    v = the(I, st, c.args[0])
    if v is not None:
        _, a, z = span(v)
        return R(st, z - a)
    v = shared(I, st, c.args[0])
    if v is not None:
        return R(st, dict(v[3])['n'])
    if 'DivBufShared' in c.argtys[0]:
        return R(st, ZEROS)           # the global region of zeros
    return None


def vacant(I, st, c):
    v = the(I, st, c.args[0])
    if v is None:
        return None
    _, a, z = span(v)
    return R(st, int(a == z))


def chunks(I, st, c):
    v, k = the(I, st, c.args[0]), c.args[1]
    if v is None or not isinstance(k, int) or k <= 0:
        return None
    b, a, z = span(v)
    xs = [buf(b, x, min(x + k, z), v[1]) for x in range(a, z, k)]
    return R(st, iter_of(I, st, arr(xs), 'std::vec::Vec<T>'))


def lend(mut):
    def f(I, st, c):
        v = shared(I, st, c.args[0])
        if v is None:
            return R(st, ok(buf(('zeros',), 0, ZEROS))) if not mut else None
        d = dict(v[3])
        return R(st, ok(buf(d['b'], 0, d['n'], 'divbuf::DivBufMut' if mut else 'divbuf::DivBuf')))
    return f


def made(st, n, what):
    return ('agg', 'divbuf::DivBufShared', '', (('b', fresh(st, what)), ('n', n)))


def into_shared(I, st, c):
    if not c.retty.endswith('DivBufShared'):
        return None
    v = c.args[0]
    if isagg(v) and v[1] == 'bytes':
        b, a, z = span(v)
        return R(st, ('agg', 'divbuf::DivBufShared', '', (('b', b), ('n', z))))
    if isinstance(v, tuple) and v and v[0] == 'repeat' and isinstance(v[2], int):
        return R(st, made(st, v[2], 'zeroed'))
    return None


def uninit(I, st, c):
    return R(st, made(st, c.args[0], 'uninit')) if isinstance(c.args[0], int) else None


def capacity(I, st, c):
    if 'Vec<u8>' not in c.retty:
        return None
    return R(st, ('agg', 'bytes', '', (('b', fresh(st, ('cap', c.args[0]))), ('a', 0), ('z', 0))))


def set_len(I, st, c):
    v = the(I, st, c.args[0])
    if v is None or v[1] != 'bytes':
        return None
    b, a, _ = span(v)
    I.store(st, c.args[0], buf(b, a, c.args[1], 'bytes'))
    return R(st, UNIT)


def cap_of(I, st, c):
    v = the(I, st, c.args[0])
    if v is None or v[1] != 'bytes':
        return None
    b = span(v)[0]
    for e in st.effects():
        if e[0] == 'did' and e[1] == 'mem' and e[2] == b[1]:
            return R(st, e[3][1])
    return None


def pointer(I, st, c):
    v = the(I, st, c.args[0])
    if v is None:
        return None
    b, a, _ = span(v)
    return R(st, ('at', b, a))


def forward(I, st, c):
    p = c.args[0]
    if isinstance(p, tuple) and p and p[0] == 'at' and isinstance(c.args[1], int):
        return R(st, ('at', p[1], p[2] + c.args[1]))
    return None


def index(I, st, c):
    v = the(I, st, c.args[0])
    if v is None:
        return None
    b, a, z = span(v)
    r = c.args[1]
    if not isagg(r):
        return None
    d = dict(r[3])
    lo, hi = d.get('start', 0), d.get('end', z - a)
    if not (isinstance(lo, int) and isinstance(hi, int) and 0 <= lo <= hi <= z - a):
        return None
    return R(st, I.alloc(st, buf(b, a + lo, a + hi, v[1])))


def copy(I, st, c):
    x, y = the(I, st, c.args[0]), the(I, st, c.args[1])
    if x is None or y is None:
        return None
    st.log('did', 'copy', span(x), span(y))
    return R(st, UNIT)


def remember(I, st, c):
    v = the(I, st, c.args[0])
    return None if v is None else R(st, ('agg', 'divbuf::DivBufInaccessible', '', (('0', v),)))


def again(I, st, c):
    v = I.load(st, c.args[0])
    return R(st, ok(proj(v, '0'))) if isagg(v) and v[1] == 'divbuf::DivBufInaccessible' else None


def as_list(I, st, c):
    """A reference to a list is one, however many references deep."""
    v = c.args[0]
    for _ in range(6):
        if not (isinstance(v, tuple) and v and v[0] == 'ref'):
            return None
        w = I.load(st, v)
        if flat(w) is not None or listed(w) is not None:
            return R(st, v)
        v = w
    return None


# ---- bits

def bits(I, st, v):
    for _ in range(6):
        if isagg(v) and v[1] == 'bits':
            return tuple(i for i in range(v[3][0][1].bit_length()) if v[3][0][1] >> i & 1)
        if not (isinstance(v, tuple) and v and v[0] == 'ref'):
            return None
        v = I.load(st, v)
    return None


def a_bits(xs):
    return ('agg', 'bits', '', (('0', sum(1 << i for i in set(xs))),))


def set_bit(I, st, c):
    b = bits(I, st, c.args[0])
    i, v = c.args[1], c.args[2]
    if b is None or not isinstance(i, int) or v not in (0, 1):
        return None
    I.store(st, c.args[0], a_bits(set(b) | {i} if v else set(b) - {i}))
    return R(st, UNIT)


def has_bit(I, st, c):
    b = bits(I, st, c.args[0])
    return None if b is None or not isinstance(c.args[1], int) else R(st, int(c.args[1] in b))


def minus(I, st, c):
    a, b = bits(I, st, c.args[0]), bits(I, st, c.args[1])
    return None if a is None or b is None else R(st, iter_of(I, st, arr([x for x in a if x not in b]), 'std::vec::Vec<usize>'))


def combos(I, st, c):
    r = c.args[0]
    d = dict(r[3]) if isagg(r) else {}
    lo, hi, k = d.get('start', d.get('lo')), d.get('end', d.get('hi')), c.args[1]
    if not all(isinstance(x, int) for x in (lo, hi, k)):
        return None
    return R(st, iter_of(I, st, arr([arr(x) for x in itertools.combinations(range(lo, hi), k)]), 'std::vec::Vec<T>'))


# ---- the codec

def ptrs(I, st, v):
    for _ in range(4):
        if isinstance(v, tuple) and v and v[0] == 'ref':
            v = seq_value(I, st, *I.deref(st, v))
    return listed(I.deep(st, v))


def listed(v):
    """The elements of a list made of as many equal ones, some of them replaced."""
    if isinstance(v, tuple) and v and v[0] == 'with':
        xs = listed(v[1])
        for i, x in v[2]:
            i = i[1] if isinstance(i, tuple) and i[0] == '[]' else int(i[1:-1]) if isinstance(i, str) else None
            if xs is None or i is None or i >= len(xs):
                return None
            xs[i] = x
        return xs
    if isinstance(v, tuple) and v and v[0] == 'repeat' and isinstance(v[2], int):
        return [v[1]] * v[2]
    xs = []
    while isinstance(v, tuple) and v and v[0] in ('put', 'push', 'concat') and flat(v) is None:
        if v[0] == 'concat':
            a, b = listed(v[1]), listed(v[2])
            return None if a is None or b is None else a + b + xs
        xs.insert(0, v[2])
        v = v[1]
    if isinstance(v, tuple) and v and v[0] == 'default':
        return xs
    return None if flat(v) is None else flat(v) + xs


def encode(I, st, c):
    n = c.args[1]
    xs, ps = ptrs(I, st, c.args[2]), ptrs(I, st, c.args[3])
    if xs is None or ps is None:
        return None
    if c.name.endswith('encodev'):
        xs = [ptrs(I, st, x) for x in xs]
        if any(x is None for x in xs):
            return None
        xs = [tuple(span(p) for p in x) for x in xs]
    else:
        xs = [((x[1], x[2], x[2] + n),) for x in xs]
    st.log('did', 'encode', n, tuple(xs), tuple(ps))
    return R(st, UNIT)


def decode(I, st, c):
    n, sv, ms, er = c.args[1], ptrs(I, st, c.args[2]), ptrs(I, st, c.args[3]), bits(I, st, c.args[4])
    if sv is None or ms is None or er is None:
        return None
    st.log('did', 'decode', n, tuple(sv), tuple(ms), er)
    return R(st, UNIT)


# ---- the world

def pure(m):
    def f(I, st, c):
        if 'mirror::Mirror' not in c.argtys[0]:
            return None
        return R(st, ('mirror', m) + tuple(bare(I, st, a) for a in c.args))
    return f


def settled(I, st, c):
    """Operations of children gathered are all waited for; one that was refused is an error."""
    xs = flat(c.args[0])
    if xs is None:
        return None
    out = []
    for x in xs:
        x = I.load(st, x) if isinstance(x, tuple) and x and x[0] == 'ref' else x
        if isagg(x) and x[1] in (V + 'ChildReadFut', V + 'ChildWriteFut'):
            x = proj(x, '0') if x[3] else ('agg', 'fut:ready', '', (('0', err(('agg', 'types::Error', 'ENXIO', ()))),))
        out.append(x)
    return out


def gathered(I, st, c):
    xs = settled(I, st, c)
    return None if xs is None else R(st, ('agg', 'fut:join_all', '', (('0', iter_of(I, st, arr(xs), 'std::vec::Vec<T>')),)))


def joined(I, st, c):
    xs = settled(I, st, c)
    return together(I, st, c) if xs is None else R(st, ('agg', 'fut:try_join', '', tuple((str(i), x) for i, x in enumerate(xs))))


def world(ctx, unroll=80):
    I = ctx.interp()
    I.unroll = unroll
    h = I.hooks
    for m in OPS:
        h['mirror::Mirror::' + m] = proto.op(m)
    for m in PURE:
        h['mirror::Mirror::' + m] = h['vdev::Vdev::' + m] = pure(m)
    h['futures::TryStreamExt::try_collect'] = joined
    h['futures::StreamExt::collect'] = gathered
    h['futures::stream::FuturesUnordered::is_empty'] = empty
    for t in ('DivBuf', 'DivBufMut'):
        for nm in ('slice', 'slice_from', 'slice_to'):
            h[f'divbuf::{t}::{nm}'] = part(None)
        for nm in ('split_to', 'split_off'):
            h[f'divbuf::{t}::{nm}'] = split
        h[f'divbuf::{t}::len'] = length
        h[f'divbuf::{t}::is_empty'] = vacant
        h[f'divbuf::{t}::into_chunks'] = chunks
    h['divbuf::DivBufShared::len'] = length
    h['divbuf::DivBufShared::try_const'] = lend(False)
    h['divbuf::DivBufShared::try_mut'] = lend(True)
    h['divbuf::DivBufShared::uninitialized'] = uninit
    h['std::convert::From::from'] = h['std::convert::Into::into'] = into_shared
    h['divbuf::DivBufMut::clone_inaccessible'] = remember
    h['divbuf::DivBufInaccessible::try_mut'] = again
    h['std::vec::Vec::with_capacity'] = capacity
    h['std::vec::Vec::set_len'] = set_len
    h['std::vec::Vec::capacity'] = cap_of
    for n in ('std::vec::Vec::as_mut_ptr', 'std::vec::Vec::as_ptr', 'core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr', 'std::slice::as_ptr', 'std::slice::as_mut_ptr',
              'core::slice::as_ptr', 'core::slice::as_mut_ptr'):
        h[n] = pointer
    for n in ('std::ptr::mut_ptr::add', 'std::ptr::const_ptr::add', 'core::ptr::mut_ptr::add', 'core::ptr::const_ptr::add'):
        h[n] = forward
    for n in ('std::ops::Index::index', 'std::ops::IndexMut::index_mut'):
        h[n] = index
    for n in ('core::slice::copy_from_slice', 'std::slice::copy_from_slice', 'core::slice::<impl [T]>::copy_from_slice'):
        h[n] = copy
    h['std::convert::AsRef::as_ref'] = as_list
    h['fixedbitset::FixedBitSet::with_capacity'] = lambda I, st, c: R(st, a_bits(()))
    h['fixedbitset::FixedBitSet::set'] = set_bit
    h['fixedbitset::FixedBitSet::contains'] = has_bit
    h['fixedbitset::FixedBitSet::difference'] = minus
    h['itertools::Itertools::combinations'] = combos
    h['raid::codec::Codec::encode'] = h['raid::codec::Codec::encodev'] = encode
    h['raid::codec::Codec::decode'] = decode
    return I


LAYOUTS = {}


def locator(ctx, n, k, f):
    """The layout of n disks, as the code makes it, and where it puts the columns: {(stripe, column): (disk, chunk)}."""
    if (n, k, f) not in LAYOUTS:
        I = ctx.interp()
        I.unroll = 40
        st = St()
        outs = [o for o in I.run(ctx.P.fn('raid::prime_s::PrimeS::new'), [n, k, f], st) if o.kind == 'ret']
        L = I.deep(outs[0].st, outs[0].val)
        m = k - f
        where = {}
        for s in range(8):
            for c in range(k):
                cid = ('agg', 'raid::declust::ChunkId', 'Data', (('0', s * m + c),)) if c < m else ('agg', 'raid::declust::ChunkId', 'Parity', (('0', s * m), ('1', c - m)))
                st = St()
                for o in I.run(ctx.P.fn('<raid::prime_s::PrimeS as raid::declust::Locator>::id2loc'), [I.alloc(st, L), cid], st):
                    v = I.deep(o.st, o.val)
                    where[s, c] = (proj(v, 'disk'), proj(v, 'offset'))
        LAYOUTS[n, k, f] = (L, where)
    return LAYOUTS[n, k, f]


def raid(ctx, I, kinds, k=None, f=None, chunk=2, st=None, **fields):
    """An array of these children; with k and f, one that knows where its data is."""
    st = St() if st is None else st
    loc, cod = ('in', 'locator'), ('in', 'codec')
    if k is not None:
        loc = ('agg', 'raid::LocatorImpl', 'PrimeS', (('0', locator(ctx, len(kinds), k, f)[0]),))
        cod = ('agg', 'raid::codec::Codec', '', (('m', k), ('f', f), ('enc_matrix', ('in', 'matrix')), ('enc_tables', ('in', 'tables'))))
        I.write(st, ROOT, ('chunksize',), chunk)
    cs = I.alloc(st, arr([child(x, i) for i, x in enumerate(kinds)]))
    I.write(st, ROOT, ('inner',), I.alloc(st, ('agg', V + 'Inner', '', (('locator', loc), ('children', cs), ('codec', cod)))))
    I.write(st, ROOT, ('faulted_children',), sum(x != 'Present' for x in kinds))
    for a, b in fields.items():
        I.write(st, ROOT, (a,), b)
    return st


def either(I, st, v):
    """The future in a box of one of two."""
    w = v
    while isinstance(w, tuple) and w and w[0] == 'ref':
        w = I.load(st, w)
    return proj(w, '0') if isagg(w) and w[2] in ('Left', 'Right') and 'Either' in w[1] else v


def call(ctx, I, name, args, st, fut=True):
    outs = []
    for o in I.run(ctx.P.fn(name), [ME, *args], st):
        outs.extend(I.run_future(o.st, either(I, o.st, o.val)) if fut and o.kind == 'ret' else [o])
    ctx.used(I, outs)
    return outs


# ---- what memory holds

class Tangled(Exception):
    pass


class Memory:
    """What a path leaves in memory: per block, what it is and the disks it comes from."""

    def __init__(self, I, st, where, m, f, chunk, held=None):
        self.m, self.f, self.chunk = m, f, chunk
        self.I, self.st = I, st
        self.cells = dict(held or {})
        self.at = {}
        for (s, c), (d, o) in where.items():
            for u in range(chunk):
                self.at[d, o * chunk + u] = ('D', (s * m + c) * chunk + u) if c < m else ('P', s, c - m, u)
        for e in st.effects():
            if e[0] == 'await':
                self.read(strip(I.deep(st, e[1])))
            elif e[0] == 'did' and e[1] == 'decode':
                self.decode(*e[2:])
            elif e[0] == 'did' and e[1] == 'copy':
                self.copy(*e[2:])

    def read(self, x):
        if not (isinstance(x, tuple) and x and x[0] == 'op' and x[1] in ('read_at', 'readv_at')):
            return
        good = done(self.I, self.st, x)
        ps = [x[3]] if x[1] == 'read_at' else listed(x[3])
        if ps is None:
            raise Tangled(f'{x}')
        d, lba = int(x[2][1][len('mirror'):]), x[4]
        for p in ps:
            b, a, z = span(p)
            self.whole(a, z)
            for i in range(a // BLOCK, z // BLOCK):
                got = self.at.get((d, lba), ('disk', d, lba))
                self.cells[b, i] = (got if good else 'junk', frozenset((d,)))
                lba += 1

    def whole(self, *xs):
        if any(x % BLOCK for x in xs):
            raise Tangled('memory is not used by whole blocks')

    def get(self, b, i):
        return self.cells.get((b, i), ('junk', frozenset()))

    def copy(self, to, of):
        (b, a, z), (c, x, y) = to, of
        if z - a != y - x:
            raise Tangled('a copy between slices of different lengths')
        self.whole(a, z, x, y)
        got = [self.get(c, x // BLOCK + i) for i in range((z - a) // BLOCK)]
        for i, g in enumerate(got):
            self.cells[b, a // BLOCK + i] = g

    def decode(self, n, sv, ms, er):
        self.whole(n, *(p[2] for p in sv + ms))
        lost = [c for c in er if c < self.m]
        cols = [c for c in range(self.m + self.f) if c not in er][:self.m]
        for u in range(n // BLOCK):
            xs = [self.get(p[1], p[2] // BLOCK + u) for p in sv]
            from_ = frozenset().union(*(x[1] for x in xs)) if xs else frozenset()
            place = {self.place(x[0]) for x in xs}
            good = len(xs) == self.m == len(cols) and len(place) == 1 and None not in place and [self.column(x[0]) for x in xs] == cols
            s, o = place.pop() if len(place) == 1 and None not in place else (None, None)
            for j, p in enumerate(ms):
                v = ('D', (s * self.m + lost[j]) * self.chunk + o) if good and j < len(lost) else 'junk'
                self.cells[p[1], p[2] // BLOCK + u] = (v, from_)

    def place(self, v):
        if v[0] == 'D':
            return v[1] // (self.m * self.chunk), v[1] % self.chunk
        if v[0] == 'P':
            return v[1], v[3]
        return None

    def column(self, v):
        return v[1] // self.chunk % self.m if v[0] == 'D' else self.m + v[2]


def verdict(I, o):
    """'Ok' or 'Err': what the path reports."""
    v = o.val
    if isagg(v):
        return v[2]
    v = strip(I.deep(o.st, v))
    for k, x in o.st.facts.items():
        if isinstance(k, tuple) and k[0] == 'discr' and strip(I.deep(o.st, k[1])) == v:
            return x
    return None
