"""Path-partitioned abstract interpretation of MIR over a domain of value numbers.

Every place holds a term (terms.py).  Branches whose condition the known facts do not settle split the analysis; loops are
summarised: the places a loop changes are found by iterating to a fixed point, renamed at the loop head, and the loop is left
as one effect that carries what an arbitrary iteration does.  Nothing is executed and no solver is asked: conditions are
settled by normal forms, by the facts collected on the path and by intervals.
"""
import re
from .terms import *
from .mir import strip_generics, Missing
from . import terms as T


# What an `instrument` attribute expands to when the function is async: not logging, but the function itself.
ASYNC_PARTS = ('std::future::IntoFuture::into_future', 'std::pin::Pin::new_unchecked', 'futures::Future::poll', 'std::future::Future::poll', 'tracing::Instrument::instrument')


class Unsupported(Exception):
    pass


class TooManyPaths(Unsupported):
    pass


OPOUT = re.compile(r'<((?:u|i)(?:8|16|32|64|128|size)) as std::ops::\w+(?:<\1>)?>::Output')
INT = re.compile(r'^(u|i)(8|16|32|64|128|size)$')


def int_bits(ty):
    m = INT.match(ty or '')
    if not m:
        return None
    return (m.group(1) == 'i', 64 if m.group(2) == 'size' else int(m.group(2)))


def int_range(ty):
    if ty == 'bool':
        return (0, 1)
    if ty == 'char':
        return (0, 0x10ffff)
    r = int_bits(ty)
    if r is None:
        return None
    s, b = r
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


class St:
    __slots__ = ('mem', 'facts', 'neq', 'eff', 'cnt', 'ctx', 'ineq')

    def __init__(self):
        self.mem, self.facts, self.neq, self.eff, self.cnt, self.ctx, self.ineq = {}, {}, {}, None, {}, (), ()

    def copy(self):
        s = St()
        s.mem, s.facts, s.neq, s.eff, s.cnt = dict(self.mem), dict(self.facts), dict(self.neq), self.eff, dict(self.cnt)
        s.ctx, s.ineq = self.ctx, self.ineq
        return s

    def log(self, *e):
        self.eff = (self.eff, e)

    def effects(self):
        out = []
        e = self.eff
        while e is not None:
            out.append(e[1])
            e = e[0]
        return out[::-1]

    def fresh(self, k):
        n = self.cnt.get(k, 0)
        self.cnt[k] = n + 1
        return n


class Out:
    """How a body or model ended: kind is ret or panic."""
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val):
        self.kind, self.st, self.val = kind, st, val

    def __repr__(self):
        return f'Out({self.kind}, {pp(self.val)})'


class Call:
    __slots__ = ('fn', 'name', 'args', 'argtys', 'retty', 'gen', 'line', 'macro', 'frame')


def is_int_ty(I, v):
    if isinstance(v, int) or is_int_like(v):
        return True
    t = I.ty.get(v) if isinstance(v, tuple) else None
    return isinstance(t, tuple) or t == 'len' or isinstance(t, str) and bool(int_range(t))


class Interp:
    def __init__(self, prog, opaque=None, max_paths=6000, max_depth=24, volatile_atomics=False, inline=None):
        from . import models
        self.P = prog
        self.ty = {}
        self.len_of = {}
        self.opaque = opaque or (lambda key, name: False)
        self.inline = inline
        self.max_paths, self.max_depth = max_paths, max_depth
        self.volatile = volatile_atomics
        self.models = models.MODELS
        self.prefix_models = models.PREFIX
        self.hooks = {}
        self.on_arith = None
        self.npaths = 0
        self.stack = []
        self.tenvs = []
        self.visited = set()
        self.opaque_seen = {}
        self.calls_seen = 0
        self.assume_asserts = True
        self.unroll = None

    # ---- memory

    def default(self, root):
        if root[0] == 'P':
            return ('*', root[1])
        if root[0] == 'S':
            return ('static', root[1])
        if root[0] == 'C' and isinstance(root[1], tuple) and root[1][0] == 'str':
            return root[1]
        return ('uninit', root)

    def norm_path(self, path):
        out = []
        for e in path:
            if out and isinstance(out[-1], tuple) and out[-1][0] == 'sub' and isinstance(e, tuple):
                s = out[-1]
                if e[0] == '[]' and not (isinstance(e[1], tuple) and e[1][0] == 'fromend'):
                    out[-1] = ('[]', add(s[1], e[1]))
                    continue
                if e[0] == 'sub':
                    out[-1] = ('sub', add(s[1], e[1]), add(s[1], e[2]) if e[2] is not None else s[2])
                    continue
            out.append(e)
        return tuple(out)

    def read(self, st, root, path, ty=None):
        v = st.mem.get(root)
        if v is None:
            v = self.default(root)
        for e in path:
            v = self.elem(st, v, e)
        if ty is not None and isinstance(v, tuple) and v[0] not in ('agg', 'ref', '+', 'with') and v not in self.ty:
            self.ty[v] = ty
        return v

    def elem(self, st, v, e):
        if isinstance(e, tuple) and e[0] == '[]':
            v2 = self.seq_elem(st, v, e[1])
            if v2 is not None:
                return v2
        if isinstance(e, tuple) and e[0] == 'sub' and e[1] == 0 and (e[2] is None or e[2] == self.length(v)):
            return v
        return proj(v, e)

    def seq_elem(self, st, v, i):
        """Element i of a sequence value, where the value's form tells."""
        while isinstance(v, tuple):
            if v[0] == 'push':
                n = self.length(v[1])
                if self.known(st, eq(i, n)) == 1:
                    return v[2]
                if self.known(st, lt(i, n)) == 1:
                    v = v[1]
                    continue
                return None
            if v[0] == 'repeat':
                return v[1]
            if v[0] == 'with':
                for k, x in reversed(v[2]):
                    if isinstance(k, tuple) and k[0] == '[]' and k[1] == i:
                        return x
                if all(isinstance(k, tuple) and k[0] == '[]' and self.known(st, eq(k[1], i)) == 0 for k, x in v[2]):
                    v = v[1]
                    continue
            if v[0] == 'sub' and len(v) == 4:
                v, i = v[1], add(v[2], i)
                continue
            if v[0] == 'agg' and v[1] == 'array' and isinstance(i, int):
                for k, x in v[3]:
                    if k == ('[]', i):
                        return x
            if v[0] == 'concat':
                n = self.length(v[1])
                if self.known(st, lt(i, n)) == 1:
                    v = v[1]
                    continue
                if self.known(st, lt(i, n)) == 0:
                    v, i = v[2], sub(i, n)
                    continue
            return proj(v, ('[]', i)) if v[0] not in ('with', 'push', 'concat') else None
        return None

    def length(self, v):
        if isinstance(v, tuple):
            if v[0] == 'push':
                return add(self.length(v[1]), 1)
            if v[0] == 'repeat':
                return v[2]
            if v[0] in ('with', 'splice'):
                return self.length(v[1])
            if v[0] == 'agg' and v[1] == 'array':
                return len(v[3])
            if v[0] == 'concat':
                return add(self.length(v[1]), self.length(v[2]))
            if v[0] == 'sub' and len(v) == 4:
                return sub(v[3], v[2])
            if v[0] == 'seqmap':
                return sub(v[2], v[1])
            if v[0] == 'str':
                return len(v[1].encode())
            if v[0] == '*' and isinstance(v[1], tuple) and v[1][0] == 'const' and re.fullmatch(r"&('static )?\[\w+; \d+\]", str(v[1][1])):
                return int(v[1][1].split('; ')[1][:-1])
            if v[0] == 'const' and re.fullmatch(r"&('static )?\[\w+; \d+\]", str(v[1])):
                return int(v[1].split('; ')[1][:-1])
            if v in self.len_of:
                return self.len_of[v]
        t = ('len', v)
        self.ty.setdefault(t, 'len')
        return t

    def write(self, st, root, path, v):
        if not path:
            st.mem[root] = v
            return
        old = st.mem.get(root)
        if old is None:
            old = self.default(root)
        st.mem[root] = upd(old, path, v)

    def deref(self, st, v):
        """The place a pointer value points to."""
        n = 0
        while isinstance(v, tuple) and v[0] == 'agg' and n < 5:
            # Pin, Box and friends are their pointer; guards hold one.
            if v[1] in ('guard', 'std::pin::Pin', 'pin') or v[1].endswith('::Pin'):
                v = v[3][0][1]
                n += 1
            else:
                break
        if isinstance(v, tuple) and v[0] == 'ref':
            return v[1], v[2]
        return ('P', v), ()

    def load(self, st, ref, ty=None):
        r, p = self.deref(st, ref)
        return self.read(st, r, p, ty)

    def store(self, st, ref, v):
        r, p = self.deref(st, ref)
        self.write(st, r, p, v)

    def alloc(self, st, v, kind='H'):
        root = (kind, st.fresh('heap'), st.ctx)
        st.mem[root] = v
        return ('ref', root, ())

    def deep(self, st, v, d=0):
        """v with the pointers to analysed storage replaced by what they point at."""
        if d > 8 or not isinstance(v, tuple):
            return v
        if v[0] == 'ref':
            if v[1][0] in ('L', 'H', 'C'):
                return ('&', self.deep(st, self.read(st, v[1], v[2]), d + 1))
            if v[1][0] == 'P' and v[1] in st.mem:
                return ('&', self.deep(st, self.read(st, v[1], v[2]), d + 1))
            return v
        if v[0] == 'agg':
            return ('agg', v[1], v[2], tuple((k, self.deep(st, x, d + 1)) for k, x in v[3]))
        if v[0] == 'with':
            return ('with', v[1], tuple((k, self.deep(st, x, d + 1)) for k, x in v[2]))
        if v[0] in ('push', 'concat'):
            return (v[0], self.deep(st, v[1], d + 1), self.deep(st, v[2], d + 1)) + v[3:]
        return v

    # ---- facts

    def rng(self, t, st=None, d=0):
        """An interval (lo, hi) holding t; None bounds are unbounded."""
        if isinstance(t, int):
            return (t, t)
        if not isinstance(t, tuple) or d > 30:
            return (None, None)
        lo = hi = None
        if t[0] == '+':
            lo = hi = 0
            for m, c in t[1]:
                a, b = (1, 1)
                for x in m:
                    a, b = _imul((a, b), self.rng(x, st, d + 1))
                a, b = _imul((a, b), (c, c))
                lo = None if lo is None or a is None else lo + a
                hi = None if hi is None or b is None else hi + b
            if lo is None or lo < 0:
                l2 = self.paired(t, st, d)
                if l2 is not None and (lo is None or l2 > lo):
                    lo = l2
        elif t[0] == 'mod':
            n = self.rng(t[2], st, d + 1)
            lo, hi = 0, (n[1] - 1 if n[1] is not None else None)
            a = self.rng(t[1], st, d + 1)
            if a[0] is not None and a[0] >= 0 and a[1] is not None and (hi is None or a[1] < hi):
                hi = a[1]
        elif t[0] == 'max0':
            a = self.rng(t[1], st, d + 1)
            lo, hi = max(0, a[0] or 0), (max(0, a[1]) if a[1] is not None else None)
        elif t[0] == 'div':
            a, n = self.rng(t[1], st, d + 1), self.rng(t[2], st, d + 1)
            if n[0] is not None and n[0] >= 1:
                if a[0] is not None:
                    lo = a[0] // n[0] if a[0] < 0 else (a[0] // n[1] if n[1] else 0)
                if a[1] is not None:
                    hi = a[1] // n[0] if a[1] >= 0 else (a[1] // n[1] if n[1] else 0)
        elif t[0] == 'shr' and isinstance(t[2], int):
            a = self.rng(t[1], st, d + 1)
            lo = a[0] >> t[2] if a[0] is not None else None
            hi = a[1] >> t[2] if a[1] is not None else None
        elif t[0] == 'trunc':
            r = int_range(t[1])
            if r:
                lo, hi = r
        elif t[0] in ('eq0', 'pos', 'not', 'eq', 'lt', 'band1'):
            lo, hi = 0, 1
        elif t[0] == 'band':
            for x in t[1:]:
                a = self.rng(x, st, d + 1)
                if a[0] is not None and a[0] >= 0 and a[1] is not None:
                    lo, hi = 0, (a[1] if hi is None else min(hi, a[1]))
        elif t[0] in ('len', 'count'):
            lo, hi = 0, (1 << 63) - 1
        elif t[0] == 'ite':
            a, b = self.rng(t[2], st, d + 1), self.rng(t[3], st, d + 1)
            lo = None if None in (a[0], b[0]) else min(a[0], b[0])
            hi = None if None in (a[1], b[1]) else max(a[1], b[1])
        ty = self.ty.get(t)
        if ty is not None:
            r = (0, (1 << 63) - 1) if ty == 'len' else ty if isinstance(ty, tuple) else int_range(ty)
            if r:
                lo = r[0] if lo is None else (lo if r[0] is None else max(lo, r[0]))
                hi = r[1] if hi is None else (hi if r[1] is None else min(hi, r[1]))
        if st is not None and d <= 12:
            for q in st.ineq:
                # q > 0 known; if q = t + c or q = -t + c this bounds t
                e = sub(q, t)
                if isinstance(e, int):
                    lo = 1 - e if lo is None else max(lo, 1 - e)
                elif d == 0:
                    x = self.rng(e, st, 12)[1]
                    if x is not None and (lo is None or 1 - x > lo):
                        lo = 1 - x
                e = add(q, t)
                if isinstance(e, int):
                    hi = e - 1 if hi is None else min(hi, e - 1)
                elif d == 0:
                    x = self.rng(e, st, 12)[1]
                    if x is not None and (hi is None or x - 1 < hi):
                        hi = x - 1
        return (lo, hi)

    def paired(self, t, st, d):
        """A lower bound of a polynomial in which a residue is taken from something it cannot exceed."""
        p = dict(t[1])
        base, hit = 0, False
        for m, c in sorted(t[1], key=repr):
            if c >= 0:
                continue
            for x in m:
                if not (isinstance(x, tuple) and x[0] == 'mod'):
                    continue
                w = list(m)
                w.remove(x)
                wl = self.rng(mk({tuple(w): 1}), st, d + 2)[0]
                if wl is None or wl < 0:
                    continue
                cands = [(('mod', x[1], y[2]), 0) for m2 in p for y in m2
                         if isinstance(y, tuple) and y[0] == 'mod' and y[1] == x[1] and y != x and exact(y[2], x[2]) is not None]
                if (self.rng(x[1], st, d + 2)[0] or -1) >= 0 or self.rng(x[1], st, d + 2)[0] == 0:
                    cands.append((x[1], 0))
                cands.append((x[2], 1))
                for big, gain in cands:
                    use = poly(mul(mk({tuple(w): -c}), big))
                    if all(p.get(k, 0) >= v > 0 for k, v in use.items()):
                        for k, v in use.items():
                            p[k] -= v
                        p[m] -= c
                        base += gain * wl * -c
                        hit = True
                        break
                else:
                    continue
                break
        if not hit:
            return None
        p = {k: v for k, v in p.items() if v}
        lo = base
        for m, c in p.items():
            a = (1, 1)
            for x in m:
                a = _imul(a, self.rng(x, st, d + 1))
            a = _imul(a, (c, c))[0]
            if a is None:
                return None
            lo += a
        return lo

    def known(self, st, c):
        """What the facts say of a condition: 0, 1 or None."""
        if isinstance(c, int):
            return c
        if not isinstance(c, tuple):
            return None
        if c[0] == 'not':
            k = self.known(st, c[1])
            return None if k is None else 1 - k
        f = st.facts.get(c)
        if f is not None:
            return f
        if c[0] == 'pos':
            return self.known_pos(st, c[1])
        if c[0] == 'eq' and is_int_ty(self, c[1]) and is_int_ty(self, c[2]):
            c = ('eq0', sub(c[1], c[2]))
            f = st.facts.get(c)
            if f is not None:
                return f
        if c[0] == '.':
            # a flag that was compared before
            if st.facts.get(('eq0', c)) is not None:
                return 1 - st.facts[('eq0', c)]
            return st.facts.get(('eq0', sub(c, 1)))
        if c[0] == 'eq0':
            if isinstance(c[1], tuple) and c[1][0] == '+' and len(c[1][1]) == 2 and any(m == () for m, _ in c[1][1]):
                # a flag that was tested before
                (m, k), = [x for x in c[1][1] if x[0] != ()]
                if len(m) == 1 and isinstance(st.facts.get(m[0]), int):
                    return int(add(c[1], mul(k, sub(st.facts[m[0]], m[0]))) == 0)
            lo, hi = self.rng(c[1], st)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return 0
            if lo == 0 and hi == 0:
                return 1
            if self.known_pos(st, c[1]) == 1 or self.known_pos(st, neg(c[1])) == 1:
                return 0
            if self.known_pos(st, c[1]) == 0 and self.known_pos(st, neg(c[1])) == 0:
                return 1
            return None
        if c[0] == 'is':
            d = st.facts.get(('discr', c[1]))
            if d is not None:
                return int(d == c[2])
            if c[2] in st.neq.get(('discr', c[1]), ()):
                return 0
            if isagg(c[1]):
                return int(c[1][2] == c[2])
            return None
        if c[0] == 'and':
            k = [self.known(st, x) for x in c[1:]]
            if 0 in k:
                return 0
            return 1 if all(x == 1 for x in k) else None
        if c[0] == 'or':
            k = [self.known(st, x) for x in c[1:]]
            if 1 in k:
                return 1
            return 0 if all(x == 0 for x in k) else None
        ty = self.ty.get(c)
        if ty == 'bool':
            return None
        return None

    def known_pos(self, st, d):
        lo, hi = self.rng(d, st)
        if lo is not None and lo > 0:
            return 1
        if hi is not None and hi <= 0:
            return 0
        for q in st.ineq:
            # q > 0 known.  d - q >= 0 -> d > 0;  -d - q + 1 >= 0 -> d <= 0
            e = sub(d, q)
            lo, _ = self.rng(e)
            if lo is not None and lo >= 0:
                return 1
            e = add(sub(neg(d), q), 1)
            lo, _ = self.rng(e)
            if lo is not None and lo >= 0:
                return 0
        if len(st.ineq) <= 14:
            qs = st.ineq
            for i, q in enumerate(qs):
                for r in qs[i + 1:]:
                    s = add(q, r)
                    e = sub(d, sub(s, 1))
                    lo, _ = self.rng(e)
                    if lo is not None and lo >= 0:
                        return 1
                    e = add(sub(neg(d), sub(s, 1)), 1)
                    lo, _ = self.rng(e)
                    if lo is not None and lo >= 0:
                        return 0
        if isinstance(d, tuple) and d[0] == '+' and len(st.ineq) <= 40 and any(len(m) > 1 for m, c in d[1]):
            if self.cert(st, d, 4):
                return 1
            if self.cert(st, add(neg(d), 1), 4):
                return 0
        return None

    def cert(self, st, d, depth):
        """Whether d > 0 follows by writing it as a sum of products of known non-negative terms."""
        lo = self.rng(d)[0]
        if lo is not None and lo > 0:
            return True
        if depth == 0 or not isinstance(d, tuple) or d[0] != '+':
            return False
        negs = [m for m, c in d[1] if c < 0]
        for q in st.ineq:
            q = sub(q, 1)
            if not isinstance(q, tuple) or q[0] != '+':
                continue
            l, lc = lead(q)
            if lc != -1 or not any(_sub(l, m) for m in negs):
                continue
            w, rem = polydiv(d, q)
            if w == 0:
                continue
            wl = self.rng(w)[0]
            if wl is not None and wl >= 0 and self.cert(st, rem, depth - 1):
                return True
        return False

    def assume(self, st, c, val=1):
        """Record a condition as known; False if it contradicts what is known."""
        if isinstance(c, int):
            return c == val
        if c[0] == 'not':
            return self.assume(st, c[1], 1 - val)
        k = self.known(st, c)
        if k is not None:
            return k == val
        st.facts[c] = val
        if c[0] == 'pos':
            q = c[1] if val else sub(1, c[1])
            st.ineq = st.ineq + (q,)
        elif c[0] == 'eq0':
            if val:
                st.ineq = st.ineq + (add(c[1], 1), add(neg(c[1]), 1))
            else:
                # a known bound that the inequality sharpens
                if self.known_pos(st, add(c[1], 1)) == 1:
                    st.ineq = st.ineq + (c[1],)
                elif self.known_pos(st, add(neg(c[1]), 1)) == 1:
                    st.ineq = st.ineq + (neg(c[1]),)
        elif c[0] == 'is':
            del st.facts[c]
            if val:
                st.facts[('discr', c[1])] = c[2]
            else:
                self.set_neq(st, c[1], c[2], c[3] if len(c) > 3 else None)
        elif c[0] == 'and' and val:
            return all(self.assume(st, x, 1) for x in c[1:])
        elif c[0] == 'or' and not val:
            return all(self.assume(st, x, 0) for x in c[1:])
        elif c[0] == 'eq' and is_int_ty(self, c[1]) and is_int_ty(self, c[2]):
            d = sub(c[1], c[2])
            if isinstance(d, tuple):
                self.assume(st, ('eq0', d), val)
        return True

    def set_neq(self, st, v, name, adt):
        n = st.neq.get(('discr', v), frozenset()) | {name}
        st.neq[('discr', v)] = n
        if adt:
            left = [x for x in self.variants(adt) if x not in n]
            if len(left) == 1:
                st.facts[('discr', v)] = left[0]

    def decide(self, st, c):
        """[(state, truth)] for a condition, splitting when it is open."""
        if isinstance(c, tuple) and c[0] == 'not':
            return [(s, 1 - v) for s, v in self.decide(st, c[1])]
        k = self.known(st, c)
        if k is not None:
            return [(st, k)]
        if c[0] == 'and':
            out, cur = [], [st]
            for x in c[1:]:
                nxt = []
                for s in cur:
                    for s2, v in self.decide(s, x):
                        (nxt if v else out).append(s2 if v else (s2, 0))
                cur = nxt
            return out + [(s, 1) for s in cur]
        if c[0] == 'or':
            out, cur = [], [st]
            for x in c[1:]:
                nxt = []
                for s in cur:
                    for s2, v in self.decide(s, x):
                        if v:
                            out.append((s2, 1))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(s, 0) for s in cur]
        if c[0] == 'ite':
            out = []
            for s, v in self.decide(st, c[1]):
                out.extend(self.decide(s, c[2] if v else c[3]))
            return out
        a, b = st.copy(), st
        out = []
        if self.assume(a, c, 1):
            out.append((a, 1))
        b = st.copy()
        if self.assume(b, c, 0):
            out.append((b, 0))
        return out

    def variants(self, adt):
        a = self.P.adts.get(strip_generics(adt))
        if a is None:
            return {T.OPT: ['None', 'Some'], T.RES: ['Ok', 'Err'], T.POLL: ['Ready', 'Pending']}.get(strip_generics(adt), [])
        return [v['n'] for v in a['variants']]

    def variant_of(self, st, v):
        """The variant of an enum value, if known."""
        if isagg(v):
            return v[2]
        if isinstance(v, tuple) and v[0] == 'with' and len(v[2]) == 1 and str(v[2][0][0]).startswith('v:'):
            # a field of this variant was written
            return v[2][0][0][2:]
        return st.facts.get(('discr', v))

    def variant_field(self, st, v, variant, i='0'):
        if isagg(v):
            return proj(v, i)
        return self.elem(st, proj(v, 'v:' + variant), i)

    def split_variant(self, st, v, adt):
        """[(state, variant name)]"""
        k = self.variant_of(st, v)
        if k is not None:
            return [(st, k)]
        if isinstance(v, tuple) and v[0] == 'ite':
            out = []
            for s, b in self.decide(st, v[1]):
                out.extend(self.split_variant(s, v[2] if b else v[3], adt))
            return out
        no = st.neq.get(('discr', v), ())
        names = [n for n in self.variants(adt) if n not in no]
        if not names:
            raise Unsupported(f'variants of {adt}')
        out = []
        for n in names:
            s = st.copy() if len(names) > 1 else st
            s.facts[('discr', v)] = n
            out.append((s, n))
        return out

    def split_opt(self, st, v):
        """[(state, present, payload)] of an Option."""
        out = []
        for s, n in self.split_variant(st, v, T.OPT):
            out.append((s, n == 'Some', self.variant_field(s, v, 'Some') if n == 'Some' else None))
        return out

    def split_res(self, st, v):
        out = []
        for s, n in self.split_variant(st, v, T.RES):
            out.append((s, n == 'Ok', self.variant_field(s, v, n)))
        return out

    def equal(self, st, a, b, ty=None):
        """[(state, truth)] of structural equality."""
        a, b = self.deep(st, a), self.deep(st, b)
        a, b = self.strip_ref(st, a), self.strip_ref(st, b)
        if a == b:
            return [(st, 1)]
        for x, y in ((a, b), (b, a)):
            if isagg(x) and not isagg(y) and x[2] and isinstance(y, tuple) and y[0] not in ('ite',):
                adt = x[1]
                vs = self.variants(adt)
                if not vs:
                    break
                out = []
                st1 = st
                k = self.variant_of(st1, y)
                if k is None:
                    c = ('is', y, x[2], adt)
                    parts = self.decide(st1, c)
                else:
                    parts = [(st1, int(k == x[2]))]
                for s, v in parts:
                    if not v:
                        out.append((s, 0))
                        continue
                    cur = [s]
                    for f, xv in x[3]:
                        nxt = []
                        for s2 in cur:
                            for s3, e in self.equal(s2, xv, self.variant_field(s2, y, x[2], f)):
                                if e:
                                    nxt.append(s3)
                                else:
                                    out.append((s3, 0))
                        cur = nxt
                    out.extend((s2, 1) for s2 in cur)
                return out
        if isagg(a) and isagg(b):
            if a[1] == b[1] and a[2] != b[2]:
                return [(st, 0)]
            fa, fb = dict(a[3]), dict(b[3])
            if set(fa) == set(fb):
                out, cur = [], [st]
                for k in fa:
                    nxt = []
                    for s in cur:
                        for s2, e in self.equal(s, fa[k], fb[k]):
                            if e:
                                nxt.append(s2)
                            else:
                                out.append((s2, 0))
                    cur = nxt
                return out + [(s, 1) for s in cur]
        ka, kb = self.variant_of(st, a), self.variant_of(st, b)
        if ka is not None and kb is not None:
            if ka != kb:
                return [(st, 0)]
            if ka in ('None', 'Pending'):
                return [(st, 1)]
            if ka in ('Some', 'Ok', 'Err') and not (isagg(a) and isagg(b)):
                return self.equal(st, self.variant_field(st, a, ka), self.variant_field(st, b, kb))
        return self.decide(st, eq(a, b))

    def strip_ref(self, st, v):
        while isinstance(v, tuple) and v[0] in ('&',):
            v = v[1]
        if isinstance(v, tuple) and v[0] == 'ref':
            return self.read(st, v[1], v[2])
        return v

    # ---- places and operands

    def place(self, st, fr, pl):
        root, path = ('L', fr.id, pl[0]), ()
        ty = fr.b['locals'][pl[0]]['ty']
        for e in pl[1]:
            k = e[0]
            if k == '*':
                v = self.read(st, root, path, ty)
                if isinstance(v, tuple) and v[0] == 'uninit':
                    raise Unsupported(f'deref of uninitialised {fr.b["key"]} _{pl[0]}')
                root, path = self.deref(st, v)
                ty = peel(ty)
            elif k == 'f':
                v = None
                nm = e[2] if e[2] is not None else str(e[1])
                cur = self.read(st, root, path)
                if isinstance(cur, tuple) and cur[0] == 'ref' and nm in ('0', 'pointer', 'inner', '__pointer'):
                    # looking inside a pointer's wrapper (Box, Unique, NonNull, Pin)
                    pass
                else:
                    path = path + (nm,)
                ty = e[3]
            elif k == 'v':
                path = path + ('v:' + e[1],)
            elif k == 'i':
                i = self.read(st, ('L', fr.id, e[1]), (), 'usize')
                path = self.norm_path(path + (('[]', i),))
                ty = elem_ty(ty)
            elif k == 'ci':
                if e[2]:
                    n = self.seq_len_at(st, root, path)
                    path = self.norm_path(path + (('[]', sub(n, e[1])),))
                else:
                    path = self.norm_path(path + (('[]', e[1]),))
                ty = elem_ty(ty)
            elif k == 'ss':
                n = self.seq_len_at(st, root, path)
                to = sub(n, e[2]) if e[3] else e[2]
                path = self.norm_path(path + (('sub', e[1], to),))
            elif k == 'oc':
                pass
            else:
                raise Unsupported(f'projection {e}')
        return root, path, ty

    def seq_len_at(self, st, root, path):
        if path and isinstance(path[-1], tuple) and path[-1][0] == 'sub':
            s = path[-1]
            if s[2] is None:
                return sub(self.seq_len_at(st, root, path[:-1]), s[1])
            return sub(s[2], s[1])
        return self.length(self.read(st, root, path))

    def operand(self, st, fr, o):
        if 'k' in o:
            return self.const(st, fr, o['k'])
        pl = o.get('c') or o.get('m')
        root, path, ty = self.place(st, fr, pl)
        return self.read(st, root, path, ty)

    def op_ty(self, fr, o):
        if 'k' in o:
            return o['k'].get('ty')
        pl = o.get('c') or o.get('m')
        ty = fr.b['locals'][pl[0]]['ty']
        for e in pl[1]:
            if e[0] == '*':
                ty = peel(ty)
            elif e[0] == 'f':
                ty = e[3]
            elif e[0] in ('i', 'ci'):
                ty = elem_ty(ty)
        return ty

    def const(self, st, fr, k):
        if 'fn' in k:
            f = k['fn']
            return ('fn', f.get('rk') or f['k'], strip_generics(f['p']), tuple(f.get('a', ())))
        if 'v' in k and k['v'] is not None:
            ty = k.get('ty', '')
            v = int(k['v'])
            if int_bits(ty) and int_bits(ty)[0]:
                b = int_bits(ty)[1]
                if v >= 1 << (b - 1):
                    v -= 1 << b
            if int_range(ty) or ty in ('', 'bool', 'char'):
                return v
            a = self.P.adts.get(strip_generics(ty))
            if a is not None:
                if len(a['variants']) == 1 and len(a['variants'][0]['f']) == 1:
                    return ('agg', strip_generics(ty), '', ((a['variants'][0]['f'][0][0], v),))
                for vr in a['variants']:
                    if vr['d'] is not None and int(vr['d']) == v and not vr['f']:
                        return ('agg', strip_generics(ty), vr['n'], ())
            return ('const', ty, v)
        if k.get('static'):
            return ('ref', ('S', k['static']), ())
        if k.get('pr'):
            key, n = k['pr']
            pb = self.P.bodies.get(f'{key}#promoted{n}')
            if pb is not None:
                return self.promoted(st, pb)
        if k.get('s') is not None and k.get('ty', '').endswith('str'):
            s = k['s']
            if s.startswith('"') and s.endswith('"'):
                s = s[1:-1]
            elif s.startswith('const "'):
                s = s[7:-1]
            return ('ref', ('C', ('str', s)), ())
        if k.get('ty') == '()':
            return UNIT
        cl = k.get('cl')
        if cl:
            return ('agg', 'closure:' + cl, '', ())
        ty = k.get('ty', '')
        a = self.P.adts.get(strip_generics(ty))
        if a is not None and len(a['variants']) == 1 and not a['variants'][0]['f']:
            return ('agg', strip_generics(ty), '', ())
        m = re.match(r'(?:const )?(?:.*::)?(\w+)$', k.get('s') or '')
        if a is not None and m and any(v['n'] == m.group(1) and not v['f'] for v in a['variants']) and len(a['variants']) > 1:
            return ('agg', strip_generics(ty), m.group(1), ())
        if k.get('n'):
            # a named constant: its body, if it is ours
            nb = [x for x in self.P.by_path.get(k['n'], ()) if '#promoted' not in x['key'] and not x['argc']]
            if len(nb) == 1 and not k.get('na'):
                return self.promoted(st, nb[0])
            return ('const', str(k['n'])) if not k.get('na') else ('const', str(k['n']), str(k['na']))
        return ('const', ty, k.get('s'))

    def promoted(self, st, pb):
        root = ('C', ('promoted', pb['key']))
        if root not in st.mem:
            eff = st.eff
            outs = [o for o in self.exec_body(pb, [], st) if o.kind == 'ret']
            if len(outs) != 1 or outs[0].st is not st:
                raise Unsupported('constant ' + pb['key'])
            st.eff = eff
            st.mem[root] = outs[0].val
        return st.mem[root]

    # ---- arithmetic

    def arith(self, st, fr, op, a, b, ty, line=0):
        boolean = ty == 'bool'
        r = None
        if op in ('Add', 'AddUnchecked'):
            r = add(a, b)
        elif op in ('Sub', 'SubUnchecked'):
            r = sub(a, b)
        elif op in ('Mul', 'MulUnchecked'):
            r = mul(a, b)
        elif op in ('Div', 'Rem'):
            r = self.divrem(st, op, a, b)
        elif op in ('Eq', 'Ne'):
            r = eq(a, b)
            if op == 'Ne':
                r = not_(r)
        elif op == 'Lt':
            r = lt(a, b)
        elif op == 'Gt':
            r = lt(b, a)
        elif op == 'Le':
            r = not_(lt(b, a))
        elif op == 'Ge':
            r = not_(lt(a, b))
        elif op == 'BitAnd':
            r = cond_and(a, b) if boolean else self.band(st, a, b)
        elif op == 'BitOr':
            r = not_(cond_and(not_(a), not_(b))) if boolean else self.bor(st, a, b)
        elif op == 'BitXor':
            if boolean:
                r = ('ite', a, not_(b), b) if not isinstance(a, int) else (b if a == 0 else not_(b))
            elif isinstance(a, int) and isinstance(b, int):
                r = a ^ b
            else:
                r = ('bxor',) + tuple(sorted((a, b), key=skey))
        elif op in ('Shl', 'ShlUnchecked'):
            r = shl(a, b)
        elif op in ('Shr', 'ShrUnchecked'):
            r = shr(a, b)
            if isinstance(r, tuple) and r[0] == 'shr' and isinstance(b, int) and 0 < b < 128:
                # a multiple of 2^b plus less than that
                p = poly(a)
                rest = mk({m: c for m, c in p.items() if c % (1 << b)})
                lo, hi = self.rng(rest, st)
                if rest != a and lo is not None and lo >= 0 and hi is not None and hi < 1 << b:
                    r = mk({m: c >> b for m, c in p.items() if c % (1 << b) == 0})
        elif op == 'Offset':
            r = ('ptradd', a, b)
        elif op == 'Cmp':
            r = ('cmp', a, b)
        if r is None:
            raise Unsupported('operator ' + op)
        if self.on_arith is not None and ty and int_range(ty):
            self.on_arith(st, op, ty, a, b, r, fr.b if fr else None, line)
        return r

    def divrem(self, st, op, a, b, euclid=False):
        if isinstance(a, int) and isinstance(b, int) and b:
            q = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
            if euclid:
                m = a % abs(b)
                return (a - m) // b if op == 'Div' else m
            return q if op == 'Div' else a - b * q
        la = self.rng(a, st)[0]
        lb = self.rng(b, st)[0]
        nn = la is not None and la >= 0
        pb = lb is not None and lb >= 0
        if (nn or euclid) and pb:
            if op == 'Rem':
                return self.mod(st, a, b)
            return self.fdiv(st, a, b)
        if op == 'Rem':
            return ('trem', a, b) if not euclid else ('mod', a, b)
        return ('tdiv' if not euclid else 'ediv', a, b)

    def mod(self, st, a, n):
        r = mod(a, n)
        if isinstance(r, tuple) and r[0] == 'mod':
            lo, hi = self.rng(r[1], st)
            if lo is not None and lo >= 0 and self.known_pos(st, sub(n, r[1])) == 1:
                return r[1]
            if isinstance(n, int) and lo is not None and hi is not None and lo // n == hi // n:
                return sub(r[1], lo // n * n)
        return r

    def fdiv(self, st, a, n):
        """floor(a / n) for n > 0."""
        if n == 1:
            return a
        if isinstance(a, int) and isinstance(n, int):
            return a // n

        def small(r):
            lo = self.rng(r, st)[0]
            return lo is not None and lo >= 0 and self.known_pos(st, sub(n, r)) == 1
        if small(a):
            return 0
        if isinstance(n, int):
            lo, hi = self.rng(a, st)
            if lo is not None and hi is not None and lo // n == hi // n:
                return lo // n
        # take exact multiples of n out
        q, rest = 0, {}
        for m, c in poly(a).items():
            if isinstance(n, int):
                k, c2 = divmod(c, n)
                if c2 == 0:
                    q = add(q, mk({m: k}))
                    continue
                rest[m] = c
            else:
                mm = list(m)
                if n in mm:
                    mm.remove(n)
                    q = add(q, mk({tuple(mm): c}))
                    continue
                rest[m] = c
        rest = mk(rest)
        if rest == 0 or small(rest):
            return q
        if not isinstance(n, int):
            q2, r2 = polydiv(rest, n)
            if r2 == 0 or small(r2):
                return add(q, q2)
        return add(q, div(rest, n))

    def band(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int):
                if isinstance(x, int):
                    return x & y
                if y == 0:
                    return 0
                if y > 0 and (y & (y + 1)) == 0:
                    return self.mod(st, x, y + 1)
                if y < 0 and ((-y) & (-y - 1)) == 0:
                    # clears the low bits
                    return sub(x, self.mod(st, x, -y))
                for w in (16, 32, 64):
                    k = (1 << w) - y
                    if 1 < k <= y and k & (k - 1) == 0 and y >> (w - 1):
                        lo, hi = self.rng(x, st)
                        if lo is not None and lo >= 0 and (w == 64 or hi is not None and hi < 1 << w):
                            return sub(x, self.mod(st, x, k))
        return ('band',) + tuple(sorted((a, b), key=skey))

    def bor(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int):
                if isinstance(x, int):
                    return x | y
                if y == 0:
                    return x
                if y == 1:
                    return add(sub(x, self.mod(st, x, 2)), 1)
        # disjoint bits: x multiple of 2^k, y < 2^k
        for x, y in ((a, b), (b, a)):
            lo, hi = self.rng(y, st)
            if lo is not None and lo >= 0 and hi is not None:
                k = hi.bit_length()
                if all(c % (1 << k) == 0 for c in poly(x).values()):
                    return add(x, y)
        return ('bor',) + tuple(sorted((a, b), key=skey))

    def cast(self, st, fr, kind, v, frm, to, line=0):
        rf, rt = int_range(frm), int_range(to)
        if kind == 'IntToInt' or (rf and rt):
            a = self.P.adts.get(strip_generics(frm or ''))
            if isagg(v) and a is not None:
                for vr in a['variants']:
                    if vr['n'] == v[2]:
                        v = int(vr['d'])
                        break
            if isagg(v) or (isinstance(v, tuple) and v[0] == 'discr'):
                return ('cast', v, to)
            lo, hi = self.rng(v, st)
            if self.hooks.get('cast'):
                self.hooks['cast'](st, v, frm, to, fr.b if fr else None, line)
            if isinstance(v, int):
                s, b = int_bits(to) or (False, 32)
                v &= (1 << b) - 1
                return v - (1 << b) if s and v >> (b - 1) else v
            if rt and lo is not None and hi is not None and lo >= rt[0] and hi <= rt[1]:
                return v
            if rf and rt and rf[0] >= rt[0] and rf[1] <= rt[1]:
                return v
            if rt and self.known_pos(st, sub(rt[1] + 1, v)) == 1 and self.known_pos(st, sub(v, rt[0] - 1)) == 1:
                return v
            return ('trunc', to, v)
        if kind == 'BoxDerefTransmute':
            if isinstance(v, tuple) and v[0] == '.' and v[2] == '0':
                return v[1]
            return v
        return v

    # ---- bodies

    def mono(self, b, gen):
        """b with its generic parameters replaced by the types gen gives, as far as they are concrete."""
        gn = b.get('gn') or ()
        env = {}
        if gen is not None and len(gen) == len(gn):
            env = {n: t for n, t in zip(gn, gen) if n != t}
        elif gn:
            # a closure, or a call whose arguments are not known: what an enclosing frame knows of the parameters of its parent
            for k, e in reversed(self.tenvs):
                if b['key'].startswith(k):
                    env = {n: e[n] for n in gn if n in e}
                    break
        if not env:
            return b, env
        ck = (b['key'], tuple(sorted(env.items())))
        m = self.P.monos.get(ck)
        if m is None:
            rx = re.compile(r'(?<![\w:])(' + '|'.join(map(re.escape, env)) + r')(?![\w:])')

            def go(x):
                if isinstance(x, str):
                    y = rx.sub(lambda m: env[m.group(1)], x)
                    if y != x:
                        y = OPOUT.sub(r'\1', y)
                    return y
                if isinstance(x, list):
                    return [go(y) for y in x]
                if isinstance(x, dict):
                    return {k: (v if k in ('p', 'k', 'rk', 'r', 't', 'n', 's', 'pr') and isinstance(v, str) else go(v)) for k, v in x.items()}
                return x
            m = dict(b)
            m['locals'], m['blocks'] = go(b['locals']), go(b['blocks'])
            self.P.monos[ck] = m
        return m, env

    def exec_body(self, b, args, st, gen=None):
        """All outcomes of calling body b with these argument values."""
        if len(self.stack) > self.max_depth:
            raise Unsupported('call depth at ' + b['key'])
        b, env = self.mono(b, gen)
        fr = Frame(b, ('f', st.fresh('frame')) + st.ctx)
        self.visited.add(b['key'])
        for i, a in enumerate(args):
            st.mem[('L', fr.id, i + 1)] = a
        self.stack.append(b['key'])
        self.tenvs.append((b['key'], env))
        try:
            outs = []
            for kind, s, x in self.walk(fr, 0, st, None):
                if kind == 'ret':
                    v = s.mem.get(('L', fr.id, 0), UNIT)
                    outs.append(Out('ret', s, v))
                elif kind == 'panic':
                    outs.append(Out('panic', s, x))
                else:
                    raise Unsupported('stray ' + kind)
        finally:
            self.stack.pop()
            self.tenvs.pop()
        for o in outs:
            keep = set()
            work = [o.val]
            while work:
                for r in _roots_in(work.pop()):
                    if r not in keep and r[0] == 'L' and r[1] == fr.id:
                        keep.add(r)
                        work.append(o.st.mem.get(r))
            for r in list(o.st.mem):
                if r[0] == 'L' and r[1] == fr.id and r not in keep:
                    del o.st.mem[r]
        return outs

    def walk(self, fr, bb, st, loop):
        """Outcomes (kind, state, x) of running from bb; with loop=(header, blocks), stop at the header or outside it."""
        cfg = self.P.cfg(fr.b)
        out = []
        work = [(bb, st, True)]
        while work:
            n, s, first = work.pop()
            if loop is not None and not first:
                if n == loop[0]:
                    out.append(('back', s, None))
                    continue
                if n not in loop[1]:
                    out.append(('exit', s, n))
                    continue
            if n in cfg.loops and not (loop is not None and n == loop[0]):
                for kind, s2, x in self.run_loop(fr, n, cfg.loops[n], s):
                    if kind == 'exit':
                        work.append((x, s2, False))
                    else:
                        out.append((kind, s2, x))
                continue
            for kind, s2, x in self.block(fr, n, s):
                if kind == 'goto':
                    work.append((x, s2, False))
                else:
                    out.append((kind, s2, x))
            if len(out) + len(work) > self.max_paths:
                raise TooManyPaths(fr.b['key'])
        return out

    def run_loop(self, fr, header, blocks, st):
        def once(s):
            return self.walk(fr, header, s, (header, blocks))

        flags = [('L', fr.id, i) for i, l in enumerate(fr.b['locals']) if l['ty'] == 'bool' and st.mem.get(('L', fr.id, i)) in (0, 1)]

        def step(s):
            # An iteration that sets a flag upon which the loop ends at its next test is the last one, as one that breaks is.
            out = []
            for kind, s2, x in once(s):
                todo = [s2]
                if kind == 'back':
                    for f in flags:
                        v = s2.mem.get(f)
                        if s.mem.get(f) not in (0, 1) or v == s.mem[f] or not (v in (0, 1) or isinstance(v, tuple) and v[0] in ('lt', 'eq', 'not', 'and')):
                            continue
                        keep = []
                        for t in todo:
                            for u, k in self.decide(t, v) if v not in (0, 1) else [(t, v)]:
                                if k == s.mem[f]:
                                    self.write(u, f, (), k)
                                    keep.append(u)
                                    continue
                                u0 = u.copy()
                                self.write(u, f, (), k)
                                more = once(u)
                                if any(m[0] == 'back' for m in more):
                                    keep.append(u0)
                                else:
                                    out.extend(more)
                        todo = keep
                out.extend((kind, t, x) for t in todo)
            return out
        return self.summarise(st, step, (fr.b['key'], header))

    def unrolled(self, st0, step, where, n):
        res, cur = [], [st0]
        for _ in range(n + 1):
            nxt = []
            for s in cur:
                for kind, s2, x in step(s):
                    if kind == 'back':
                        nxt.append(s2)
                    else:
                        res.append((kind, s2, x))
            cur = nxt
            if not cur:
                return res
            if len(res) + len(cur) > self.max_paths:
                raise TooManyPaths(str(where))
        raise Unsupported(f'loop in {where} not bounded by {n} iterations')

    def summarise(self, st0, step, where):
        if self.unroll is not None:
            return self.unrolled(st0, step, where, self.unroll)
        lid0 = where + (st0.fresh('loop'),) + ((st0.ctx,) if st0.ctx else ())
        for salt in range(self.max_paths):
            res = self.summary(st0, step, where, lid0 + (('alt', salt),) if salt else lid0)
            if res is not None:
                return res
        raise Unsupported(f'loop in {where} is entered in too many ways')

    def summary(self, st0, step, where, lid):
        carried = {}
        for _ in range(24):
            st = st0.copy()
            st.ctx = st0.ctx + (lid,)
            st.eff = None
            for loc, sym in carried.items():
                self.write(st, loc[0], loc[1], sym)
            base = dict(st.mem)
            nin, nfacts = len(st.ineq), set(st.facts)
            outs = step(st)
            new = set()
            for kind, s, x in outs:
                if kind == 'back':
                    self.diff_mem(base, s.mem, lid, new)
            new = {l for l in new if l not in carried}
            if not new:
                break
            locs = set(carried) | new
            keep = [l for l in locs if not any(m != l and m[0] == l[0] and l[1][:len(m[1])] == m[1] for m in locs)]
            old = carried
            carried = {}
            for l in keep:
                sym = old.get(l) or ('lv', lid, l)
                ev = self.read(st0, l[0], l[1])
                t = self.ty_of(ev)
                if t and sym not in self.ty:
                    self.ty[sym] = t
                carried[l] = sym
        else:
            raise Unsupported(f'loop in {where} does not settle')
        entry = {l: self.read(st0, l[0], l[1]) for l in carried}
        # Sequences whose length the loop leaves alone.
        kept = {}
        for l, sym in carried.items():
            n = self.length(entry[l])
            if n != ('len', entry[l]) or elem_seq(entry[l]):
                news = [self.read(s, l[0], l[1]) for kind, s, x in outs if kind == 'back']
                if news and all(self.length(v) == self.length(sym) for v in news):
                    kept[sym] = n
            if is_seq(entry[l]) and sym not in kept:
                # one longer every turn: as long as a counter has counted
                backs = [s for kind, s, x in outs if kind == 'back']
                if sym not in self.len_of and backs and all(self.length(self.read(s, l[0], l[1])) == add(('len', sym), 1) for s in backs) or \
                        sym in self.len_of and backs and all(sub(self.length(self.read(s, l[0], l[1])), self.length(sym)) == 1 for s in backs):
                    for m, y in carried.items():
                        if m != l and is_int_like(entry[m]) and all(sub(self.read(s, m[0], m[1]), y) == 1 for s in backs):
                            kept[sym] = add(n, sub(y, entry[m]))
                            break
        if any(self.len_of.get(y, n) != n for y, n in kept.items()):
            return None     # the same loop entered with another length: keep the two apart
        stale = [y for y in kept if y not in self.len_of]
        self.len_of.update(kept)
        if stale:
            st = st0.copy()
            st.ctx = st0.ctx + (lid,)
            st.eff = None
            for loc, sym in carried.items():
                self.write(st, loc[0], loc[1], sym)
            nin, nfacts = len(st.ineq), set(st.facts)
            outs = step(st)
        # Intervals of the renamed places: an induction variable that only grows stays above its entry value.
        bound = self.induction(st0, carried, entry, outs)
        if bound:
            for l, c in bound:
                pass
            st = st0.copy()
            st.ctx = st0.ctx + (lid,)
            st.eff = None
            for loc, sym in carried.items():
                self.write(st, loc[0], loc[1], sym)
            for l, c in bound:
                self.assume(st, c)
            nin, nfacts = len(st.ineq), set(st.facts)
            outs = step(st)
        iters = []
        for kind, s, x in outs:
            if kind == 'back':
                newv = {l: self.read(s, l[0], l[1]) for l in carried}
                iters.append((s.ineq[nin:], {k: v for k, v in s.facts.items() if k not in nfacts}, s.effects(), newv))
        rec = Loop(lid, carried, entry, iters)
        rec.base = (st.ineq[:nin], {k: v for k, v in st.facts.items() if k in nfacts})
        rec.neq = dict(st0.neq)
        res = []
        for kind, s, x in outs:
            if kind == 'back':
                continue
            own = s.effects()
            s.eff = st0.eff
            s.ctx = st0.ctx
            s.log('loop', rec)
            for e in own:
                s.log(*e)
            res.append((kind, s, x))
        res = self.close_forms(st0, rec, res)
        return res

    def ty_of(self, v):
        if isinstance(v, tuple):
            t = self.ty.get(v)
            if t == 'len':
                return 'usize'
            # an interval is known of this value only, not of what the place holds later
            if isinstance(t, str):
                return t
        return None

    def induction(self, st0, carried, entry, outs):
        res = []
        backs = [s for kind, s, x in outs if kind == 'back']
        # Places that count in step, or one up as the other goes down.
        ref = None
        for l, sym in carried.items():
            e = entry[l]
            if not backs or not (isinstance(e, int) or is_int_like(e) or isinstance(self.ty.get(e), tuple) or int_range(self.ty_of(e) or '')):
                continue
            ds = {sub(self.read(s, l[0], l[1]), sym) for s in backs}
            if ds == {1} or ds == {-1}:
                d = ds.pop()
                n = mul(sub(sym, e), d)
                if ref is None:
                    ref = n
                else:
                    res.append((l, eq(n, ref)))
        for l, sym in carried.items():
            e = entry[l]
            if not (isinstance(e, int) or is_int_like(e) or isinstance(self.ty.get(e), tuple) or self.ty_of(e) and int_range(self.ty_of(e))):
                continue
            ds = []
            for s in backs:
                v = self.read(s, l[0], l[1])
                if not (isinstance(v, int) or isinstance(v, tuple)):
                    ds = None
                    break
                ds.append(sub(v, sym))
            if ds is None or not ds:
                continue
            if all(self.rng(d)[0] is not None and self.rng(d)[0] >= 0 for d in ds):
                res.append((l, not_(lt(sym, e))))
            elif all(self.rng(d)[1] is not None and self.rng(d)[1] <= 0 for d in ds):
                res.append((l, not_(lt(e, sym))))
            # an upper bound the guard maintains: sym < N before a step of one
            if len(ds) >= 1 and all(d == 1 or d == 0 for d in ds):
                cands = None
                for s in backs:
                    c = {sub(q, neg(sym)) for q in s.ineq if not mentions(sub(q, neg(sym)), sym)}
                    cands = c if cands is None else cands & c
                for n in cands or ():
                    # n - sym > 0 held on every iteration, so sym <= n at the head if it did on entry
                    if self.known(st0, not_(lt(n, e))) == 1 and not any(mentions(n, y) for y in carried.values()):
                        res.append((l, not_(lt(n, sym))))
            if len(ds) >= 1 and all(d == -1 or d == 0 for d in ds):
                cands = None
                for s in backs:
                    c = {sub(sym, q) for q in s.ineq if not mentions(sub(sym, q), sym)}
                    cands = c if cands is None else cands & c
                for n in cands or ():
                    # sym - n > 0 held on every iteration, so n <= sym at the head if it did on entry
                    if self.known(st0, not_(lt(e, n))) == 1 and not any(mentions(n, y) for y in carried.values()):
                        res.append((l, not_(lt(sym, n))))
        return res

    def close_forms(self, st0, rec, res):
        """Use an exact trip count where the exit condition pins an induction variable."""
        for kind, s, x in res:
            for l, sym in rec.carried.items():
                for q in list(s.ineq):
                    # q = c - sym + ... > 0 together with its opposite pins sym
                    e = add(q, sym)
                    if mentions(e, sym):
                        continue
                    # sym < e, i.e. sym <= e-1; and is sym >= e-1 known?
                    if self.known_pos(s, add(sub(sym, sub(e, 1)), 1)) == 1 and not any(mentions(e, y) for y in rec.carried.values()):
                        val = sub(e, 1)
                        for r in list(s.mem):
                            if mentions_any(s.mem[r], sym):
                                s.mem[r] = subst(s.mem[r], lambda t: val if t == sym else None)
                        s.facts[('pinned', sym)] = val
                        # what grows by at most one a turn has grown by at most as many as there were turns
                        if rec.iters and all(sub(it[3].get(l, sym), sym) == 1 for it in rec.iters):
                            for l2, y in rec.carried.items():
                                ds = {sub(it[3].get(l2, y), y) for it in rec.iters} if y != sym and is_int_like(rec.entry[l2]) else ()
                                if ds and ds <= {0, 1}:
                                    self.assume(s, not_(lt(sub(val, rec.entry[l]), sub(y, rec.entry[l2]))))
                        break
        return res

    def diff_mem(self, a, b, lid, out):
        for r, nv in b.items():
            ov = a.get(r)
            if ov is nv:
                continue
            if ov is None:
                if r[0] == 'P':
                    if any(isinstance(t, tuple) and len(t) > 1 and t[0] == 'lv' and t[1] == lid for t in subterms(r)):
                        continue
                    ov = self.default(r)
                else:
                    continue
            self.diff_val(ov, nv, (r, ()), lid, out)

    def diff_val(self, a, b, loc, lid, out):
        if a == b:
            return
        if isagg(a) and isagg(b) and a[1] == b[1] and a[2] == b[2] and [k for k, _ in a[3]] == [k for k, _ in b[3]]:
            for (k, x), (_, y) in zip(a[3], b[3]):
                self.diff_val(x, y, (loc[0], loc[1] + (k,)), lid, out)
            return
        if isagg(a) and isagg(b) and a[1] == b[1] and a[2] == b[2]:
            # What a coroutine saves across an await first reached in the loop is not live where the loop begins.
            u, w = dict(a[3]), dict(b[3])
            if set(u) < set(w) and all(str(k).startswith('~') for k in set(w) - set(u)):
                for k, x in a[3]:
                    self.diff_val(x, w[k], (loc[0], loc[1] + (k,)), lid, out)
                return
        ab, au = (a[1], dict(a[2])) if isinstance(a, tuple) and a and a[0] == 'with' else (a, {})
        bb, bu = (b[1], dict(b[2])) if isinstance(b, tuple) and b and b[0] == 'with' else (b, {})
        if ab == bb:
            ks = list(dict.fromkeys(list(au) + list(bu)))
            if any(isinstance(k, tuple) and lid_in(k, lid) for k in ks):
                out.add(loc)
                return
            for k in ks:
                x = au.get(k, proj(ab, k))
                y = bu.get(k, proj(bb, k))
                self.diff_val(x, y, (loc[0], loc[1] + (k,)), lid, out)
            return
        out.add(loc)

    def block(self, fr, n, st):
        blk = fr.b['blocks'][n]
        states = [st]
        for s in blk['s']:
            k = s[0]
            if k == '=':
                nxt = []
                for x in states:
                    nxt.extend(self.assign(x, fr, s))
                states = nxt
            elif k == 'sd':
                for x in states:
                    root, path, ty = self.place(x, fr, s[1])
                    a = self.P.adts.get(strip_generics(ty))
                    if a:
                        self.write(x, root, path, ('agg', strip_generics(ty), a['variants'][s[2]]['n'], ()))
            elif k == 'dead':
                for x in states:
                    x.mem.pop(('L', fr.id, s[1]), None)
        out = []
        for x in states:
            out.extend(self.term(fr, x, blk['t']))
        return out

    def assign(self, st, fr, s):
        _, pl, rv, line, macro = s
        k = rv[0]
        if k == 'use':
            v = self.operand(st, fr, rv[1])
        elif k == 'ref' or k == 'raw':
            root, path, ty = self.place(st, fr, rv[2] if k == 'ref' else rv[-1])
            if root[0] == 'P' and path == ():
                v = root[1] if not isinstance(root[1], int) else ('ref', root, ())
            else:
                v = ('ref', root, path)
        elif k == 'cast':
            v = self.cast(st, fr, rv[1], self.operand(st, fr, rv[2]), rv[3], rv[4], line)
        elif k == 'bin':
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            op = rv[1]
            if op.endswith('WithOverflow'):
                v = tup(self.arith(st, fr, op[:-12], a, b, rv[4], line), 0)
            else:
                v = self.arith(st, fr, op, a, b, rv[4], line)
        elif k == 'un':
            a = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                ty = self.op_ty(fr, rv[2])
                if ty == 'bool':
                    v = not_(a)
                else:
                    r = int_bits(ty)
                    if r and r[0]:
                        v = sub(-1, a)
                    elif r:
                        v = sub((1 << r[1]) - 1, a)
                    else:
                        v = ('bnot', a)
            elif rv[1] == 'Neg':
                v = neg(a)
            elif rv[1] == 'PtrMetadata':
                if isinstance(a, tuple) and a[0] == 'ref':
                    v = self.seq_len_at(st, a[1], a[2])
                else:
                    v = self.length(('*', a))
            else:
                v = ('un', rv[1], a)
        elif k == 'discr':
            root, path, ty = self.place(st, fr, rv[1])
            x = self.read(st, root, path, ty)
            adt = strip_generics(rv[3] or rv[2] or ty)
            kn = self.variant_of(st, x)
            v = ('discrval', x, adt)
            if kn is not None:
                v = self.discr_int(adt, kn)
            elif isinstance(x, tuple) and x[0] == 'cmp':
                v = ('discrval', x, adt)
        elif k == 'agg':
            v = self.aggregate(st, fr, rv)
        elif k == 'repeat':
            v = ('repeat', self.operand(st, fr, rv[1]), rv[2] if not isinstance(rv[2], dict) else self.operand(st, fr, rv[2]))
            if isinstance(v[2], str):
                m = re.match(r'^(\d+)', v[2])
                v = (v[0], v[1], int(m.group(1)) if m else ('const', v[2]))
        else:
            v = ('rv', fr.b['key'], str(rv[:2]))
        root, path, ty = self.place(st, fr, pl)
        self.write(st, root, path, v)
        return [st]

    def discr_int(self, adt, name):
        a = self.P.adts.get(strip_generics(adt))
        if a is None:
            vs = self.variants(adt)
            return vs.index(name) if name in vs else 0
        for i, v in enumerate(a['variants']):
            if v['n'] == name:
                return int(v['d']) if v.get('d') is not None else i
        raise Unsupported(f'{adt}::{name}')

    def aggregate(self, st, fr, rv):
        kind, ops = rv[1], [self.operand(st, fr, o) for o in rv[2]]
        if kind[0] == 'array':
            return ('agg', 'array', '', tuple((('[]', i), v) for i, v in enumerate(ops)))
        if kind[0] == 'tuple':
            return tup(*ops)
        if kind[0] == 'adt':
            names = rv[3] if len(rv) > 3 and rv[3] else [str(i) for i in range(len(ops))]
            a = self.P.adts.get(strip_generics(kind[1]))
            variant = kind[2] if a is None or len(a['variants']) > 1 or kind[1].startswith('std::') else ''
            return ('agg', strip_generics(kind[1]), variant, tuple(zip(names, ops)))
        if kind[0] == 'closure':
            names = rv[3] if len(rv) > 3 and rv[3] and len(rv[3]) == len(ops) else [str(i) for i in range(len(ops))]
            b = self.P.bodies.get(kind[1])
            if b is not None and b.get('upvars') and len(b['upvars']) == len(ops):
                names = b['upvars']
            names = uniq(names)
            return ('agg', 'closure:' + kind[1], '', tuple(zip(names, ops)))
        if kind[0] == 'rawptr':
            return ops[0]
        raise Unsupported('aggregate ' + str(kind))

    def term(self, fr, st, t):
        k = t[0]
        if k == 'goto':
            return [('goto', st, t[1])]
        if k == 'return':
            return [('ret', st, None)]
        if k in ('unreachable', 'resume'):
            return []
        if k == 'switch':
            return self.switch(fr, st, t)
        if k == 'drop':
            root, path, ty = self.place(st, fr, t[1])
            outs = []
            for o in self.drop_place(st, root, path, t[4]):
                outs.append(('goto', o.st, t[2]) if o.kind == 'ret' else ('panic', o.st, o.val))
            return outs
        if k == 'assert':
            c = self.operand(st, fr, t[1])
            want = 1 if t[2] else 0
            kn = self.known(st, c) if isinstance(c, (int, tuple)) else None
            if kn is not None and kn != want:
                return [('panic', st, ('assert', str(t[3])))]
            if kn is None:
                st.log('assert', c, want, str(t[3]))
                self.assume(st, c, want)
            return [('goto', st, t[4])]
        if k == 'yield':
            return [('goto', st, t[2])]
        if k == 'call':
            return self.call_term(fr, st, t)
        raise Unsupported('terminator ' + k)

    def switch(self, fr, st, t):
        v = self.operand(st, fr, t[1])
        targets, other = t[2], t[3]
        ty = t[4]
        if isinstance(v, int):
            bits = int_bits(ty)
            for val, bb in targets:
                n = int(val)
                if bits and bits[0] and n >= 1 << (bits[1] - 1):
                    n -= 1 << bits[1]
                if n == v:
                    return [('goto', st, bb)]
            return [('goto', st, other)] if other is not None else []
        if ty == 'bool':
            out = []
            for s, b in self.decide(st, v):
                for val, bb in targets:
                    if int(val) == b:
                        out.append(('goto', s, bb))
                        break
                else:
                    out.append(('goto', s, other))
            return out
        if isinstance(v, tuple) and v[0] == 'discrval':
            x, adt = v[1], v[2]
            if isinstance(x, tuple) and x[0] == 'cmp':
                out = []
                for s, name in self.split_cmp(st, x):
                    d = {'Less': -1, 'Equal': 0, 'Greater': 1}[name]
                    for val, bb in targets:
                        n = int(val)
                        if n >= 128:
                            n = n - (1 << (n.bit_length() if n.bit_length() % 8 == 0 else 8)) if n < 256 else -1
                        if n == d:
                            out.append(('goto', s, bb))
                            break
                    else:
                        if other is not None:
                            out.append(('goto', s, other))
                return out
            out = []
            names = self.variants(adt)
            listed = {}
            for val, bb in targets:
                for n in names:
                    if self.discr_int(adt, n) == _sgn(int(val), self, adt):
                        listed[n] = bb
            rest = [n for n in names if n not in listed]
            no = st.neq.get(('discr', x), ())
            kn = self.variant_of(st, x)
            if kn is not None:
                bb = listed.get(kn, other)
                return [('goto', st, bb)] if bb is not None else []
            if not names:
                raise Unsupported('switch over ' + adt)
            for n, bb in listed.items():
                if n in no:
                    continue
                s = st.copy()
                s.facts[('discr', x)] = n
                out.append(('goto', s, bb))
            left = [n for n in rest if n not in no]
            if other is not None and left and fr.b['blocks'][other]['t'][0] != 'unreachable':
                s = st.copy()
                if len(left) == 1:
                    s.facts[('discr', x)] = left[0]
                else:
                    s.neq[('discr', x)] = frozenset(no) | set(listed)
                out.append(('goto', s, other))
            return out
        out = []
        cur = st
        for val, bb in targets:
            n = int(val)
            bits = int_bits(ty)
            if bits and bits[0] and n >= 1 << (bits[1] - 1):
                n -= 1 << bits[1]
            nxt = None
            for s, b in self.decide(cur, eq(v, n)):
                if b:
                    out.append(('goto', s, bb))
                else:
                    nxt = s
            cur = nxt
            if cur is None:
                return out
        if other is not None:
            out.append(('goto', cur, other))
        return out

    def split_cmp(self, st, x):
        a, b = x[1], x[2]
        out = []
        for s, l in self.decide(st, lt(a, b)):
            if l:
                out.append((s, 'Less'))
            else:
                for s2, e in self.decide(s, eq(a, b)):
                    out.append((s2, 'Equal' if e else 'Greater'))
        return out

    # ---- calls

    def call_term(self, fr, st, t):
        _, f, args, dest, target, unwind, line, macro, argtys, retty = t[:10]
        if macro and self.is_trace(macro) and not (isinstance(f, dict) and 'k' in f and 'fn' in f['k'] and strip_generics(f['k']['fn']['p']) in ASYNC_PARTS):
            # Logging: arguments are only read.
            if target is None:
                return []
            root, path, ty = self.place(st, fr, dest)
            if retty == 'bool' and self.is_trace(macro):
                self.write(st, root, path, 0)
            else:
                self.write(st, root, path, ('trace',))
            return [('goto', st, target)]
        av = [self.operand(st, fr, a) for a in args]
        c = Call()
        c.args, c.argtys, c.retty, c.line, c.macro, c.frame = av, argtys, retty, line, macro, fr
        if isinstance(f, dict) and 'k' in f and 'fn' in f['k']:
            c.fn = f['k']['fn']
            c.name = strip_generics(c.fn['p'])
            c.gen = c.fn.get('a', [])
        else:
            c.fn, c.name, c.gen = None, '', []
            fv = self.operand(st, fr, f)
            outs = self.apply(st, fv, av)
            return self.finish(fr, dest, target, outs)
        outs = self.dispatch(st, c)
        return self.finish(fr, dest, target, outs)

    def is_trace(self, m):
        m = m.split('::')[-1].strip('!')
        return m in ('event', 'trace', 'debug', 'info', 'warn', 'error', 'span', 'info_span', 'debug_span', 'trace_span', 'instrument',
                     'error_span', 'warn_span')

    def finish(self, fr, dest, target, outs):
        res = []
        for o in outs:
            if o.kind == 'panic':
                res.append(('panic', o.st, o.val))
            elif target is not None:
                root, path, ty = self.place(o.st, fr, dest)
                v = o.val
                if isinstance(v, tuple) and v[0] not in ('agg', 'ref', '+', 'with') and v not in self.ty:
                    self.ty[v] = ty
                self.write(o.st, root, path, v)
                res.append(('goto', o.st, target))
        if len(res) > self.max_paths:
            raise TooManyPaths(fr.b['key'])
        return res

    def dispatch(self, st, c):
        self.calls_seen += 1
        h = self.hooks.get(c.name) or (self.hooks.get(strip_generics(c.fn['r'])) if c.fn.get('r') else None)
        if h is not None:
            r = h(self, st, c)
            if r is not None:
                return r
        # a method of a type parameter is not the default one of its trait
        key = c.fn.get('rk') or (None if c.fn.get('t') else c.fn['k'])
        b = self.P.bodies.get(key)
        m = self.models.get(c.name)
        if m is not None and not (b is not None and getattr(m, 'prefer_body', False)):
            r = m(self, st, c)
            if r is not None:
                return r
        if b is None and c.fn.get('t') and c.args:
            b = self.by_value(st, c)
        if b is not None and self.may_inline(b, c.name):
            gen = c.fn.get('ra') if c.fn.get('rk') == b['key'] else c.gen if c.fn['k'] == b['key'] else None
            return self.exec_body(b, c.args, st, gen)
        for p, m in self.prefix_models:
            if c.name.startswith(p):
                r = m(self, st, c)
                if r is not None:
                    return r
        return self.opaque_call(st, c)

    def by_value(self, st, c):
        """An unresolved trait method of a generic, resolved by the argument's value."""
        v = c.args[0]
        for _ in range(3):
            if isinstance(v, tuple) and v[0] == 'ref':
                v = self.read(st, v[1], v[2])
            else:
                break
        if not isagg(v):
            return None
        tr = strip_generics(c.fn['t'])
        nm = c.name.split('::')[-1]
        for b in self.P.by_name(nm) if hasattr(self.P, 'by_name') else ():
            if b.get('trait') and strip_generics(b['trait']) == tr and strip_generics(b['self'] or '') == v[1]:
                return b
        return None

    def may_inline(self, b, name):
        if b['key'] in self.stack or self.opaque(b['key'], name):
            return False
        if self.inline is not None and not self.inline(b['key'], name):
            return False
        return True

    PURE = re.compile(r'(::len|::is_empty|::as_ref|::min_value|::max_value|size_of|::deref|::borrow|::as_slice|::as_bytes|::as_str|::capacity)$')

    def opaque_call(self, st, c, name=None):
        name = name or c.name
        self.opaque_seen[name] = self.opaque_seen.get(name, 0) + 1
        args = tuple(self.deep(st, a) for a in c.args)
        if c.retty == '!':
            return [Out('panic', st, (name, args))]
        mut = [i for i, ty in enumerate(c.argtys) if ty.startswith('&mut ') or ty.startswith('std::pin::Pin<&mut')]
        if self.PURE.search(name) and not mut:
            v = ('ret', name, args)
            return [Out('ret', st, v)]
        n = st.fresh((name, args))
        v = ('ret', name, args, n) + ((st.ctx,) if st.ctx else ())
        st.log('call', name, args, v, c.fn.get('rk') or c.fn['k'] if c.fn else None, tuple(c.args))
        for i in mut:
            a = c.args[i]
            if isinstance(a, tuple) and a[0] == 'ref':
                self.write(st, a[1], a[2], ('hav', v, i))
            elif isinstance(a, tuple):
                r, p = self.deref(st, a)
                if r in st.mem or r[0] == 'P':
                    self.write(st, r, p, ('hav', v, i))
        return [Out('ret', st, v)]

    def apply(self, st, f, args):
        """Call a function value."""
        g = f
        through = None
        for _ in range(6):
            if isinstance(g, tuple) and g[0] == 'ref':
                through = g
                g = self.read(st, g[1], g[2])
            elif isinstance(g, tuple) and g[0] == '&':
                g = g[1]
            else:
                break
        if isinstance(g, tuple) and g[0] == 'fn':
            c = Call()
            c.fn = {'p': g[2], 'k': g[1], 'a': list(g[3])}
            if g[1] in self.P.bodies:
                c.fn['rk'] = g[1]
            c.name, c.args, c.gen, c.line, c.macro, c.frame = g[2], list(args), list(g[3]), 0, '', None
            b = self.P.bodies.get(g[1])
            c.argtys = [l['ty'] for l in b['locals'][1:b['argc'] + 1]] if b else [''] * len(args)
            c.retty = b['locals'][0]['ty'] if b else ''
            ctor = self.ctor(g, args)
            if ctor is not None:
                return [Out('ret', st, ctor)]
            return self.dispatch(st, c)
        if isagg(g) and g[1].startswith('closure:'):
            b = self.P.bodies.get(g[1][8:])
            if b is None:
                raise Unsupported('closure ' + g[1])
            lt1 = b['locals'][1]['ty'] if b['argc'] >= 1 else ''
            if lt1.startswith('&'):
                env = through if through is not None else self.alloc(st, g)
            else:
                env = g
            if b['key'] in self.stack:
                raise Unsupported('recursive closure')
            return self.exec_body(b, [env] + list(args), st)
        n = st.fresh(('apply', g))
        v = ('app', g, tuple(self.deep(st, a) for a in args), n) + ((st.ctx,) if st.ctx else ())
        st.log('apply', g, tuple(self.deep(st, a) for a in args), v)
        return [Out('ret', st, v)]

    def ctor(self, g, args):
        """A tuple-struct or variant constructor used as a function."""
        p = g[2]
        head, _, last = p.rpartition('::')
        a = self.P.adts.get(p)
        if a is not None and len(a['variants']) == 1 and len(a['variants'][0]['f']) == len(args):
            return ('agg', p, '', tuple((f[0], x) for f, x in zip(a['variants'][0]['f'], args)))
        a = self.P.adts.get(head)
        if a is not None:
            for v in a['variants']:
                if v['n'] == last and len(a['variants']) > 1:
                    return ('agg', head, last, tuple((f[0], x) for f, x in zip(v['f'], args)))
        for suf, adt in (('Option::Some', T.OPT), ('Result::Ok', T.RES), ('Result::Err', T.RES), ('Poll::Ready', T.POLL)):
            if p.endswith(suf) or p in ('std::prelude::v1::' + last, 'core::prelude::v1::' + last) and suf.endswith('::' + last):
                return ('agg', adt, last, (('0', args[0]),))
        return None

    # ---- drops

    def drop_place(self, st, root, path, ty):
        v = self.read(st, root, path)
        return self.drop_value(st, v, ty, ('ref', root, path))

    def drop_value(self, st, v, ty, ref=None, d=0):
        if isinstance(v, int) or d > 8 or not isinstance(v, tuple):
            return [Out('ret', st, UNIT)]
        if v[0] == 'agg' and v[1] == 'guard':
            st.log('unlock', v[3][0][1])
            return [Out('ret', st, UNIT)]
        name = v[1] if isagg(v) else strip_generics(ty or '')
        name = strip_generics(name)
        b = self.P.drop_impl(name) if not name.startswith('closure:') else None
        outs = [Out('ret', st, UNIT)]
        if b is not None:
            if b['key'] in self.stack:
                return outs
            if self.hooks.get('drop:' + name):
                return self.hooks['drop:' + name](self, st, v)
            if ref is None:
                ref = self.alloc(st, v)
            st.log('dropped', name, self.deep(st, v))
            outs = self.exec_body(b, [ref], st)
        else:
            w = self.deep(st, v)
            if not isagg(v):
                a = self.P.adts.get(name)
                if a is None or a.get('needs_drop', True) is not False:
                    st.log('dropped', name, w)
        if isagg(v):
            a = self.P.adts.get(name)
            res = []
            tys = {}
            if a is not None:
                for vr in a['variants']:
                    if vr['n'] == v[2] or len(a['variants']) == 1:
                        tys = {f[0]: f[1] for f in vr['f']}
            for o in outs:
                if o.kind == 'panic':
                    res.append(o)
                    continue
                cur = [o]
                for k, x in v[3]:
                    if not isinstance(x, tuple) or x[0] == 'ref':
                        continue
                    nxt = []
                    for p in cur:
                        if p.kind == 'panic':
                            nxt.append(p)
                        else:
                            nxt.extend(self.drop_value(p.st, x, tys.get(k, generic_arg(ty)), None, d + 1))
                    cur = nxt
                res.extend(cur)
            outs = res
        return outs

    # ---- futures

    def run_future(self, st, v, d=0):
        """Outcomes of driving a future value to completion."""
        from . import models
        return models.run_future(self, st, v, d)

    # ---- entry points

    def run(self, b, args=None, st=None, names=None):
        """Analyse body b with symbolic arguments named after its parameters."""
        st = st or St()
        args = list(args) if args is not None else []
        for i in range(len(args), b['argc']):
            l = b['locals'][i + 1]
            nm = (names or {}).get(i) or l.get('n') or f'arg{i}'
            v = ('in', nm)
            if l['ty'] == '()':
                v = UNIT
            self.ty.setdefault(v, l['ty'])
            args.append(v)
        return self.exec_body(b, args, st)


class Frame:
    __slots__ = ('b', 'id')

    def __init__(self, b, id):
        self.b, self.id = b, id


class Loop:
    def __init__(self, lid, carried, entry, iters):
        self.lid, self.carried, self.entry, self.iters = lid, carried, entry, iters

    def state(self, it):
        """A state knowing what iteration `it` of the loop knows."""
        s = St()
        s.ineq = self.base[0] + tuple(it[0])
        s.facts = dict(self.base[1])
        s.facts.update(it[1])
        s.neq = dict(self.neq)
        return s

    def __repr__(self):
        return f'Loop{self.lid[:2]}'


def cond_and(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    return ('and', a, b)


def _sub(l, m):
    return all(x in m for x in l)


def _imul(a, b):
    c = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                c.append(0)
            elif x is None or y is None:
                c.append(None)
            else:
                c.append(x * y)
    if None in c:
        # half-bounded products: only the all-non-negative case keeps a bound
        lo = None
        if a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
            lo = a[0] * b[0]
            return (lo, None)
        for u, k in ((a, b), (b, a)):
            if k[0] is not None and k[0] == k[1]:
                k = k[0]
                l, h = (u[0], u[1]) if k > 0 else (u[1], u[0])
                return (None if l is None else l * k, None if h is None else h * k)
        return (None, None)
    return (min(c), max(c))


def _roots_in(v):
    out = set()
    for t in subterms(v) if isinstance(v, tuple) else ():
        if isinstance(t, tuple) and len(t) == 3 and t[0] == 'ref':
            out.add(t[1])
    return out


def mentions_any(v, x):
    return isinstance(v, tuple) and mentions(v, x)


def lid_in(k, lid):
    return any(isinstance(t, tuple) and len(t) > 1 and ((t[0] == 'lv' and t[1] == lid) or (t and t[-1] == lid)) or
               (isinstance(t, tuple) and lid in t) for t in subterms(k))


def _sgn(n, I, adt):
    a = I.P.adts.get(strip_generics(adt))
    if a and any(v.get('d') is not None and int(v['d']) == n for v in a['variants']):
        return n
    if a:
        ds = [int(v['d']) for v in a['variants'] if v.get('d') is not None]
        for b in (8, 16, 32, 64, 128):
            if n >= 1 << (b - 1) and n - (1 << b) in ds:
                return n - (1 << b)
    return n


def uniq(names):
    out, seen = [], {}
    for n in names:
        k = seen.get(n, 0)
        seen[n] = k + 1
        out.append(n if not k else f'{n}#{k}')
    return out


def peel(ty):
    """The type a pointer type points to."""
    if ty is None:
        return None
    m = re.match(r"^(?:&(?:'[\w]+ )?(?:mut )?|\*const |\*mut )(.*)$", ty)
    if m:
        return m.group(1)
    m = re.match(r'^[\w:]*(?:Box|Arc|Rc|Pin)<(.*)>$', ty)
    if m:
        return first_arg(m.group(1))
    return None


def first_arg(s):
    d = 0
    for i, c in enumerate(s):
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        elif c == ',' and d == 0:
            return s[:i]
    return s


def generic_arg(ty):
    if ty is None:
        return None
    i = ty.find('<')
    return first_arg(ty[i + 1:-1]) if i >= 0 and ty.endswith('>') else None


def is_seq(v):
    return isinstance(v, tuple) and v[:1] and (v[0] in ('push', 'concat', 'repeat') or v[0] == 'agg' and v[1] == 'array')


def elem_seq(v):
    return isinstance(v, tuple) and v[:1] and v[0] in ('with', 'lv')


def elem_ty(ty):
    if ty is None:
        return None
    if ty.startswith('['):
        s = ty[1:-1]
        d = 0
        for i, c in enumerate(s):
            if c in '<([':
                d += 1
            elif c in '>)]':
                d -= 1
            elif c == ';' and d == 0:
                return s[:i]
        return s
    return generic_arg(ty)
