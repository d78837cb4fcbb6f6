"""What loops make of the sequences they fill: the writes to a table, the elements of a collected vector."""
from engine.terms import *


class Write:
    """One write to a table: at idx (or the slice [idx, idx+n) when n is not None) of val, under the loops `env`, outermost first."""

    def __init__(self, env, idx, val, n=None):
        self.env, self.idx, self.val, self.n = env, idx, val, n


class Pass:
    """One kind of iteration of a loop."""

    def __init__(self, loop, it):
        self.loop, self.it = loop, it

    def new(self, y):
        for l, s in self.loop.carried.items():
            if s == y:
                return self.it[3].get(l, y)
        return y

    def state(self):
        return self.loop.state(self.it)

    def inner(self):
        return loops_of(self.it[2])


def loops_of(effects):
    return [e[1] for e in effects if e[0] == 'loop']


def entry_of(loop, y):
    for l, s in loop.carried.items():
        if s == y:
            return loop.entry[l]
    return None


def step(p, t):
    """The value of t, a term over the carried places of the loop, one iteration later."""
    m = {s: p.it[3].get(l, s) for l, s in p.loop.carried.items()}
    return subst(t, lambda x: m.get(x))


def at_entry(loop, t):
    m = {s: loop.entry[l] for l, s in loop.carried.items()}
    return subst(t, lambda x: m.get(x))


def find(loops, v):
    for lp in loops:
        for l, s in lp.carried.items():
            if s == v:
                return lp, l
    return None, None


def writes(v, loops, env=()):
    """(the sequence v started from, every Write made to it on the way), walking backwards; loops: those that may have filled it."""
    out = []
    heads = set()
    for p in env:
        heads |= set(p.loop.carried.values())
    n = 0
    while n < 50:
        n += 1
        if isinstance(v, tuple) and v[0] == 'with' and all(isinstance(k, tuple) and k[0] == '[]' for k, x in v[2]):
            for k, x in v[2]:
                out.append(Write(env, k[1], x))
            v = v[1]
            continue
        if isinstance(v, tuple) and v[0] == 'splice':
            out.append(Write(env, v[2], v[4], sub(v[3], v[2])))
            v = v[1]
            continue
        if isinstance(v, tuple) and v[0] == 'concat' and env and v[1] in env[-1].loop.carried.values():
            # appended to: what has been appended so far is counted
            d = appended(env[-1].loop, v[1])
            if d is None:
                return ('lost', v), out
            y, n = d
            out.append(Write(env, mul(y, n), v[2], n))
            return v[1], out
        if v in heads:
            return v, out
        lp, loc = find(loops, v)
        if lp is None:
            return v, out
        for it in lp.iters:
            p = Pass(lp, it)
            b, w = writes(it[3].get(loc, v), loops_of(it[2]), env + (p,))
            if b != v:
                return ('lost', b), out
            out.extend(w)
        v = lp.entry[loc]
    return ('lost', v), out


def appended(lp, v):
    """(counter, n) where every turn of the loop appends n elements to v, empty at first, or none; the counter, of the turns that do, is added
    to the loop."""
    loc = [l for l, s in lp.carried.items() if s == v][0]
    e = lp.entry[loc]
    if not (isinstance(e, tuple) and (e[0] == 'empty' or isagg(e) and e[1] == 'array' and not e[3])):
        return None
    ns, steps = set(), []
    for it in lp.iters:
        x = it[3].get(loc, v)
        if x == v:
            steps.append(0)
        elif isinstance(x, tuple) and x[0] == 'concat' and x[1] == v:
            w = x[2]
            ns.add(sub(w[3], w[2]) if isinstance(w, tuple) and w[0] == 'sub' else None)
            steps.append(1)
        else:
            return None
    if len(ns) != 1 or None in ns:
        return None
    n, = ns
    y = ('lv', v[1], ('appended', v[2]))
    if ('appended', loc) not in lp.carried:
        lp.carried[('appended', loc)] = y
        lp.entry[('appended', loc)] = 0
        for it, k in zip(lp.iters, steps):
            it[3][('appended', loc)] = add(y, k)
    return y, n


def counter(st, lp):
    """(symbol, first, end) of the place the loop counts up by one every time, until `end` (None where no exit pins it)."""
    best = None
    for l, y in lp.carried.items():
        if lp.iters and all(sub(it[3].get(l, y), y) == 1 for it in lp.iters):
            end = st.facts.get(('pinned', y)) if st is not None else None
            if best is None or (best[2] is None and end is not None):
                best = (y, lp.entry[l], end)
    return best


def count_in(outer, lp):
    """counter() of a loop inside an iteration, whose exit facts are the iteration's."""
    return counter(_Facts(outer.it[1]), lp)


class _Facts:
    def __init__(self, facts):
        self.facts = facts


def elements(st, v, loops):
    """(counter, first, end, element) for a vector collected by pushing one element per turn of a counted loop; None otherwise."""
    lp, loc = find(loops, v)
    if lp is None or len(lp.iters) != 1:
        return None
    e = lp.entry[loc]
    if not (isagg(e) and e[1] == 'array' and not e[3]):
        return None
    x = lp.iters[0][3].get(loc)
    if not (isinstance(x, tuple) and x[0] == 'push' and x[1] == v):
        return None
    c = counter(st, lp)
    return None if c is None else c + (x[2], lp)


def filled(st, v, loops, n):
    """x if every one of the n elements of v is x, whichever way it was filled; None otherwise."""
    if isinstance(v, tuple) and v[0] == 'repeat':
        return v[1] if len(v) < 3 or v[2] == n else None
    lp, loc = find(loops, v)
    c = counter(st, lp) if lp is not None else None
    if c is None or c[1] != 0 or c[2] is None or (c[2] != n and st.facts.get(eq(c[2], n)) != 1):
        return None
    xs = set()
    for it in lp.iters:
        b, w = writes(it[3].get(loc, v), loops_of(it[2]), (Pass(lp, it),))
        if b != v or len(w) != 1 or w[0].n is not None or w[0].idx != c[0] or len(w[0].env) != 1:
            return None
        xs.add(w[0].val)
    if len(xs) != 1:
        return None
    x, = xs
    return None if set(atoms(x)) & set(lp.carried.values()) else x
