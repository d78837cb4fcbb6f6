"""Call protocols of asynchronous code: the effects of a path, as a list of events in the order in which they complete."""
from engine.interp import St
from engine.mir import strip_generics
from engine.models import R, UNIT, seq_value, proj
from engine.terms import *

LOCKS = ('futures_locks::RwLock::', 'futures_locks::Mutex::')


def op(name, skip=()):
    """A hook for an operation whose completion is an event, and whose result is its own."""
    def f(I, st, c):
        return R(st, ('op', name) + tuple(I.deep(st, a) for i, a in enumerate(c.args) if i not in skip))
    return f


def opbox(name, ret):
    """An operation that returns other things than a future."""
    def f(I, st, c):
        return R(st, ret(I, st, ('op', name) + tuple(I.deep(st, a) for a in c.args)))
    return f


def place(v):
    """The place a reference points to, as a term."""
    for _ in range(8):
        if isinstance(v, tuple) and v and v[0] == 'ref':
            b, p = v[1], v[2]
            v = b[1] if b[0] == 'P' else b
            for x in p:
                v = ('.', v, x)
            return v
        break
    return v


def strip(v):
    """A term without dereferences and borrows: the name of the object it denotes."""
    if not isinstance(v, tuple):
        return v
    if v and v[0] == 'ref':
        return strip(place(v))
    if v and v[0] in ('*', '&') and len(v) == 2:
        return strip(v[1])
    return tuple(strip(x) for x in v)


def lock_of(v):
    """(mode, place) if `v` is the future of a lock."""
    if isinstance(v, tuple) and v and v[0] == 'ret' and isinstance(v[1], str) and v[1].startswith(LOCKS):
        return v[1].split('::')[-1], strip(v[2][0])
    return None


def guard_of(v):
    if isinstance(v, tuple) and v and v[0] == 'out':
        return lock_of(v[1])
    return None


def loops(st):
    return {e[1].lid: e[1] for e in st.effects() if e[0] == 'loop'}


def events(I, st):
    """The events of a finished path."""
    out = []
    effs = list(st.effects())
    ls = {e[1].lid: e[1] for e in effs if e[0] == 'loop'}

    def walk(effs, into):
        for e in effs:
            k = e[0]
            if k == 'await':
                v = e[1]
                l = lock_of(v)
                if l:
                    into.append(('lock',) + l + (v,))
                elif isinstance(v, tuple) and v and v[0] == 'op':
                    into.append(v)
                else:
                    g = gathered(v, ls, st.facts)
                    into.append(('all', v) + g if g else ('await', v))
            elif k == 'dropped':
                l = guard_of(e[2])
                if l and 'Guard' in e[1]:
                    into.append(('unlock',) + l + (e[2][1],))
            elif k == 'loop':
                L = e[1]
                its = []
                for it in L.iters:
                    w = []
                    walk(it[2], w)
                    its.append(tuple(w))
                if any(x and x[0] in ('op', 'await', 'lock', 'all', 'seq') for w in its for x in w):
                    into.append(('seq', L, tuple(its)))
            elif k in ('atomic', 'join', 'serialize', 'did', 'panic', 'mapinsert', 'mapremove'):
                into.append(e)
    walk(effs, out)
    return out


class Each:
    """The operations gathered by a loop: one per item of `src`, ops = [(operation or None if skipped, facts)]."""
    def __init__(self, src, ops, whole, loop):
        self.src, self.ops, self.whole, self.loop = src, ops, whole, loop

    def __repr__(self):
        return f'each of {pp(self.src)[:60]}: {[pp(o)[:60] for o, _ in self.ops]}'


def gathered(v, ls, facts):
    """(parts, how) if `v` completes when all the operations gathered have: Each, or single operations."""
    if not (isinstance(v, tuple) and v and v[0] == 'ret'):
        return None
    name = v[1].split('::')[-1]
    if name not in ('try_collect', 'try_join_all', 'collect', 'join_all'):
        return None
    parts = contents(v[2][0], ls, facts)
    return None if parts is None else (tuple(parts), name)


def contents(t, ls, facts):
    t = unref(t)
    if isagg(t) and t[1] == 'array':
        return [x for _, x in t[3]]
    if isinstance(t, tuple) and t and t[0] == 'empty':
        return []
    if isinstance(t, tuple) and t and t[0] in ('put', 'push'):
        p = contents(t[1], ls, facts)
        return None if p is None else p + [t[2]]
    if isinstance(t, tuple) and t and t[0] == 'lv' and t[1] in ls:
        L = ls[t[1]]
        e = each(L, t, facts)
        sym = [k for k, v in L.carried.items() if v == t]
        first = contents(L.entry[sym[0]], ls, facts) if sym and sym[0] in L.entry else None
        if e is None or first is None:
            return None
        return first + [e]
    return None


def unref(t):
    while isinstance(t, tuple) and t and t[0] == '&':
        t = t[1]
    return t


def each(L, t, facts):
    ops, srcs = [], set()
    for it in L.iters:
        u = it[3].get(t[2], t)
        if u == t:
            ops.append((None, it[1]))
        elif isinstance(u, tuple) and u[0] in ('put', 'push') and u[1] == t:
            ops.append((u[2], it[1]))
        else:
            return None
    whole = True
    ops = [(None if o is None else items(L, o), f) for o, f in ops]
    for o, _ in ops:
        if o is None:
            continue
        n = [x for x in subterms(o) if isinstance(x, tuple) and x[:1] == ('item',) and x[2:3] == ('next',)]
        whole = whole and all(any(k == 'None' and isinstance(x, tuple) and x[:1] == ('discr',) and stepped(L, x[1]) == y[1] for x, k in facts.items()) for y in n)
        for x in subterms(o):
            if isinstance(x, tuple) and x and x[0] == 'item' and len(x) >= 4 and x[3] and x[3][-1] == L.lid[:2]:
                srcs.add(strip(x[1]))
            elif isinstance(x, tuple) and x and x[0] == '.' and isinstance(x[2], tuple) and x[2][0] == '[]' and isinstance(x[2][1], tuple) and x[2][1][0] == 'lv' and x[2][1][1] == L.lid:
                srcs.add(strip(x[1]))
                whole = whole and indexed(L, x[2][1], x[1], facts)
            elif isinstance(x, tuple) and x and x[0] == 'ref' and x[2]:
                for i, k in enumerate(x[2]):
                    if isinstance(k, tuple) and k[0] == '[]' and isinstance(k[1], tuple) and k[1][0] == 'lv' and k[1][1] == L.lid:
                        c = ('ref', x[1], x[2][:i])
                        srcs.add(strip(place(c)))
                        whole = whole and indexed(L, k[1], place(c), facts)
    if len(srcs) != 1:
        return None
    return Each(srcs.pop(), ops, whole, L)


def stepped(L, n):
    """The iterator that a step of the loop takes its item from, as it was when the loop began."""
    if isinstance(n, tuple) and n[:2] == ('ret', 'std::iter::Iterator::next'):
        a = strip(n[2][0])
        if isinstance(a, tuple) and a[:1] == ('lv',) and a[1] == L.lid:
            return L.entry.get(next((k for k, v in L.carried.items() if v == a), None))
    return None


def items(L, t):
    """A term of a loop that steps through an iterator by hand, as one of the items."""
    def f(x):
        if isinstance(x, tuple) and x[:1] == ('.',) and x[2] == '0' and isinstance(x[1], tuple) and x[1][:1] == ('.',) and x[1][2] == 'v:Some':
            s = stepped(L, x[1][1])
            if s is not None:
                return ('item', s, 'next', (L.lid[:2],))
        return None
    return subst(t, f)


def indexed(L, i, coll, facts):
    """The index runs from 0 over the whole length."""
    k = [k for k, v in L.carried.items() if v == i]
    if not k or L.entry.get(k[0]) != 0:
        return False
    p = facts.get(('pinned', i))
    return p is not None and strip(p) == ('len', strip(coll))


def source(v):
    """The collection a source runs through, through guards, iterators and copies."""
    for _ in range(12):
        v = strip(v)
        if isinstance(v, tuple) and v and v[0] == 'ret' and v[1].split('::')[-1] in ('values', 'iter', 'into_iter', 'deref', 'as_ref', 'clone', 'keys', 'iter_mut', 'values_mut', 'as_slice', 'drain', 'read', 'lock'):
            v = v[2][0]
        elif isinstance(v, tuple) and v and v[0] == 'out':
            l = guard_of(v)
            if not l:
                break
            v = l[1]
        else:
            break
    return v


def ended(v):
    """'Ok', 'Err' or None: how a path's result ended."""
    return v[2] if isagg(v) and v[2] in ('Ok', 'Err') else None


def name_of(e):
    return e[1] if e[0] == 'op' else e[0]


def cause(v):
    """The event an error comes from."""
    for t in subterms(v):
        if isinstance(t, tuple) and t and t[0] == 'out':
            return t[1]
    return None


def show(evs):
    out = []
    for e in evs:
        out.append(e[1] if e[0] == 'op' else f'all{list(e[2])}' if e[0] == 'all' else f'{e[0]}:{pp(e[2])[:60]}' if e[0] in ('lock', 'unlock') else e[0])
    return out
