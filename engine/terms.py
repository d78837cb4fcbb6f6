"""Terms of the value domain and their normal forms.

A value is one of
  int                                   a known integer, char or bool
  ('+', ((monomial, coef), ...))        an integer polynomial over other terms (at least one non-constant monomial)
  ('agg', name, variant, fields)        a struct, tuple, enum variant or closure with known parts; fields is a tuple of pairs
  ('with', base, updates)               an unknown value of which some parts are known to have been replaced
  ('ref', root, path)                   a pointer to a place
  ('str', s), ('fn', ...), ('const', n) constants
  any other tuple                       an unknown, named by where it came from: ('in', x), ('.', v, e), ('ret', ...), ...
"""
import math


_key = {}


def skey(t):
    """A total order on terms that does not depend on the run."""
    k = _key.get(t)
    if k is None:
        k = repr(t)
        _key[t] = k
    return k


def poly(t):
    """t as a dict monomial -> coefficient, or None if it is not an integer term."""
    if isinstance(t, int):
        return {(): t} if t else {}
    if isinstance(t, tuple) and t and t[0] == '+':
        return dict(t[1])
    return {(t,): 1}


def _order(m):
    return (len(m), [skey(a) for a in m])


def lead(n):
    """The leading monomial of a polynomial and its coefficient."""
    p = poly(n)
    m = max(p, key=_order)
    return m, p[m]


def _within(l, m):
    """m without the factors of l, or None if l does not divide it."""
    m = list(m)
    for a in l:
        if a not in m:
            return None
        m.remove(a)
    return tuple(m)


def polydiv(a, n):
    """(q, r) with a = q*n + r, dividing while the leading monomial of n divides a monomial of a; n is not constant."""
    l, lc = lead(n)
    rest = sub(n, mk({l: lc}))
    q, r, work = 0, {}, poly(a)
    n = 0
    while work:
        n += 1
        if n > 200:
            return 0, a
        m = max(work, key=_order)
        c = work.pop(m)
        w = _within(l, m) if c % lc == 0 else None
        if w is None:
            r[m] = c
            continue
        t = mk({w: c // lc})
        q = add(q, t)
        for m2, c2 in poly(mul(t, rest)).items():
            work[m2] = work.get(m2, 0) - c2
            if not work[m2]:
                del work[m2]
    return q, mk(r)


def exact(a, n):
    """a / n if n divides a as a polynomial, else None."""
    if isinstance(n, int):
        p = poly(a)
        return mk({m: c // n for m, c in p.items()}) if n and all(c % n == 0 for c in p.values()) else None
    q, r = polydiv(a, n)
    return q if r == 0 else None


def _undiv(p):
    """n*div(x,n) is written x - mod(x,n), and n*mod(div(x,n),q) is written mod(x,n*q) - mod(x,n)."""
    for m, c in p.items():
        for d in m:
            if type(d) is not tuple:
                continue
            if d[0] == 'div':
                x, n, q = d[1], d[2], None
            elif d[0] == 'mod' and type(d[1]) is tuple and d[1] and d[1][0] == 'div':
                x, n, q = d[1][1], d[1][2], d[2]
            else:
                continue
            if isinstance(n, int):
                if n <= 1 or abs(c) < n:
                    continue
                k = abs(c) // n * (1 if c > 0 else -1)
                w, left, other = list(m), c - k * n, 0
                w.remove(d)
            else:
                l, lc = lead(n)
                if c % lc:
                    continue
                w = list(m)
                w.remove(d)
                w = _within(l, w)
                if w is None:
                    continue
                k, left = c // lc, 0
                other = mul(mul(mk({tuple(w): k}), sub(n, mk({l: lc}))), d)
            p = dict(p)
            if left:
                p[m] = left
            else:
                del p[m]
            new = sub(x, mod(x, n)) if q is None else sub(mod(x, mul(n, q)), mod(x, n))
            return add(sub(mk(p), other), mul(mk({tuple(w): k}), new))
    return None


def mk(p):
    p = {m: c for m, c in p.items() if c}
    for m in p:
        for a in m:
            if type(a) is tuple and (a[0] == 'div' or (a[0] == 'mod' and type(a[1]) is tuple and a[1] and a[1][0] == 'div')):
                r = _undiv(p)
                if r is not None:
                    return r
                break
    if not p:
        return 0
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return c
        if c == 1 and len(m) == 1:
            return m[0]
    return ('+', tuple(sorted(p.items(), key=lambda mc: (len(mc[0]), [skey(a) for a in mc[0]]))))


def add(a, b, k=1):
    p = poly(a)
    for m, c in poly(b).items():
        p[m] = p.get(m, 0) + k * c
    return mk(p)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return sub(0, a)


def mul(a, b):
    r = {}
    pa, pb = poly(a), poly(b)
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2, key=skey))
            r[m] = r.get(m, 0) + c1 * c2
    return mk(r)


def atoms(t):
    """The atoms an integer term is a polynomial of."""
    return {a for m in poly(t) for a in m}


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if isinstance(x, tuple):
            st.extend(y for y in x if isinstance(y, tuple))


def mentions(t, x):
    return any(y == x for y in subterms(t))


def subst(t, f):
    """t rebuilt bottom-up, f mapping each subterm to its replacement (or None to keep it)."""
    memo = {}

    def go(x):
        if not isinstance(x, tuple):
            return x
        if x in memo:
            return memo[x]
        if x and x[0] == '+':
            r = 0
            for m, c in x[1]:
                p = c
                for a in m:
                    p = mul(p, go(a))
                r = add(r, p)
        else:
            y = tuple(go(e) for e in x)
            if y and isinstance(y[0], str):
                y = renorm(y)
            r = f(y) if isinstance(y, tuple) else None
            r = y if r is None else r
        memo[x] = r
        return r
    return go(t)


def renorm(y):
    h = y[0]
    if h == 'mod' and len(y) == 3:
        return mod(y[1], y[2])
    if h == 'div' and len(y) == 3:
        return div(y[1], y[2])
    if h == 'max0' and len(y) == 2:
        return max0(y[1])
    if h == 'shr' and len(y) == 3:
        return shr(y[1], y[2])
    if h == 'eq' and len(y) == 3:
        return eq(y[1], y[2])
    if h == 'lt' and len(y) == 3:
        return lt(y[1], y[2])
    if h == 'not' and len(y) == 2:
        return not_(y[1])
    if h == '.' and len(y) == 3:
        return proj(y[1], y[2])
    return y


# ---- integers

def mod(a, n):
    """a mod n, the least non-negative residue, for n > 0."""
    if isinstance(a, int) and isinstance(n, int) and n:
        return a % abs(n)
    if isinstance(n, int):
        p = {}
        for m, c in poly(a).items():
            c %= abs(n)
            if c:
                p[m] = c
        a = mk(p)
    else:
        a = polydiv(a, n)[1]
    pa = poly(a)
    for m, c in pa.items():
        inner = [x for x in m if isinstance(x, tuple) and x[0] == 'mod' and (x[2] == n or exact(x[2], n) is not None)]
        if inner:
            q = c
            for x in m:
                q = mul(q, x[1] if x in inner else x)
            return mod(add(add(a, mk({m: c}), -1), q), n)
    if isinstance(a, int) and isinstance(n, int) and n:
        return a % abs(n)
    if a == 0:
        return 0
    return ('mod', a, n)


def div(x, n):
    """floor(x / n) for n > 0, of a term known to be in no simpler form."""
    if isinstance(x, int) and isinstance(n, int) and n > 0:
        return x // n
    if n == 1:
        return x
    if isinstance(x, tuple) and x and x[0] == 'div':
        return div(x[1], mul(x[2], n))
    if isinstance(x, tuple) and x and x[0] == 'mod':
        q = exact(x[2], n)
        if q == 1:
            return 0
        if q is not None:
            return mod(div(x[1], n), q)
    q = exact(x, n)
    if q is not None:
        return q
    return ('div', x, n)


def max0(t):
    """max(t, 0); with max(-t, 0) written as max(t, 0) - t."""
    if isinstance(t, int):
        return max(t, 0)
    p = poly(t)
    if all(c % 2 == 0 for c in p.values()):
        g = 2
        return mul(2, max0(mk({m: c // 2 for m, c in p.items()})))
    lead = [c for m, c in sorted(p.items(), key=lambda mc: (len(mc[0]) == 0, skey(mc[0])))][0]
    if lead < 0:
        return add(('max0', neg(t)), t)
    return ('max0', t)


def tmax(a, b):
    return add(b, max0(sub(a, b)))


def tmin(a, b):
    return sub(a, max0(sub(a, b)))


def shl(a, n):
    if isinstance(n, int):
        return mul(a, 1 << n)
    return ('shl', a, n)


def shr(a, n):
    if isinstance(a, int) and isinstance(n, int):
        return a >> n
    if isinstance(n, int):
        p = poly(a)
        if all(c % (1 << n) == 0 for c in p.values()):
            return mk({m: c >> n for m, c in p.items()})
    return ('shr', a, n)


# ---- booleans: 0, 1 or a condition; negations are ('not', condition)

def not_(a):
    if isinstance(a, int):
        return 1 - a
    if a[0] == 'not':
        return a[1]
    return ('not', a)


def isagg(v):
    return isinstance(v, tuple) and len(v) == 4 and v[0] == 'agg'


def is_int_like(v):
    return isinstance(v, int) or (isinstance(v, tuple) and v[0] in ('+', 'mod', 'max0', 'shr', 'shl', 'div', 'rem', 'len'))


def eq(a, b):
    if a == b:
        return 1
    if isinstance(a, int) and isinstance(b, int):
        return 0
    if isagg(a) and isagg(b):
        if a[2] != b[2] or a[1] != b[1]:
            return 0
        fa, fb = dict(a[3]), dict(b[3])
        if set(fa) == set(fb):
            es = [eq(fa[k], fb[k]) for k in fa]
            if any(e == 0 for e in es):
                return 0
            es = [e for e in es if e != 1]
            if len(es) == 1:
                return es[0]
            if not es:
                return 1
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'str' and b[0] == 'str':
        return 0
    if is_int_like(a) or is_int_like(b):
        d = sub(a, b)
        if isinstance(d, int):
            return int(d == 0)
        # one sign for the difference
        p = poly(d)
        g = math.gcd(*(c for m, c in p.items() if m))
        if g > 1:
            if p.get((), 0) % g:
                return 0
            d = mk({m: c // g for m, c in p.items()})
        n = neg(d)
        if skey(n) < skey(d):
            d = n
        return ('eq0', d)
    if skey(a) > skey(b):
        a, b = b, a
    return ('eq', a, b)


def lt(a, b):
    """a < b over the integers, as 0 < b - a; for other terms ('lt', a, b)."""
    if isinstance(a, int) and isinstance(b, int):
        return int(a < b)
    d = sub(b, a)
    if isinstance(d, int):
        return int(d > 0)
    p = poly(d)
    g = math.gcd(*(c for m, c in p.items() if m))
    if g > 1:
        # g*x + c > 0 is x - floor(-c/g) > 0 over the integers
        q = {m: c // g for m, c in p.items() if m}
        q[()] = -(-p.get((), 0) // g)
        d = mk(q)
    # b - a > 0; its negation is a - b + 1 > 0: choose one of them
    n = add(1, neg(d))
    if skey(strip(n)) < skey(strip(d)):
        return ('not', ('pos', n))
    return ('pos', d)


def strip(d):
    """A polynomial less its constant term."""
    p = poly(d)
    p.pop((), None)
    return mk(p)


# ---- structure

def proj(v, e):
    if isagg(v):
        if isinstance(e, str) and e.startswith('v:'):
            return v
        for k, x in v[3]:
            if k == e:
                return x
        return ('.', v, e)
    if isinstance(v, tuple) and v and v[0] == 'with':
        for k, x in reversed(v[2]):
            if k == e:
                return x
        if isinstance(e, tuple) and e[0] == '[]':
            # Elements with different names are taken to be different elements.
            return proj(v[1], e)
        return proj(v[1], e)
    return ('.', v, e)


def upd(v, path, new):
    if not path:
        return new
    e = path[0]
    if isagg(v):
        if isinstance(e, str) and e.startswith('v:'):
            return upd(v, path[1:], new)
        fs = []
        hit = False
        for k, x in v[3]:
            if k == e:
                x = upd(x, path[1:], new)
                hit = True
            fs.append((k, x))
        if not hit:
            fs.append((e, upd(('.', v, e), path[1:], new)))
        return ('agg', v[1], v[2], tuple(fs))
    child = upd(proj(v, e), path[1:], new)
    base, ups = (v[1], dict(v[2])) if isinstance(v, tuple) and v and v[0] == 'with' else (v, {})
    ups[e] = child
    if proj(base, e) == child:
        del ups[e]
    if not ups:
        return base
    return ('with', base, tuple(sorted(ups.items(), key=lambda kv: skey(kv[0]))))


def agg(name, variant='', **fields):
    return ('agg', name, variant, tuple(fields.items()))


def tup(*xs):
    return ('agg', 'tuple', '', tuple((str(i), x) for i, x in enumerate(xs)))


OPT = 'std::option::Option'
RES = 'std::result::Result'
POLL = 'std::task::Poll'


def some(x):
    return ('agg', OPT, 'Some', (('0', x),))


NONE = ('agg', OPT, 'None', ())


def ok(x):
    return ('agg', RES, 'Ok', (('0', x),))


def err(x):
    return ('agg', RES, 'Err', (('0', x),))


UNIT = ('agg', 'tuple', '', ())


def pp(t, d=0):
    """Readable rendering of a term."""
    if isinstance(t, int):
        return str(t)
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    h = t[0]
    if d > 12:
        return '…'
    if h == '+':
        out = []
        for m, c in t[1]:
            f = '*'.join(pp(a, d + 1) for a in m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(f)
            elif c == -1:
                out.append('-' + f)
            else:
                out.append(f'{c}*{f}')
        return '(' + ' + '.join(out) + ')'
    if h == 'agg':
        n = t[1].split('::')[-1] if not t[1].startswith('closure:') else 'closure'
        n = (n + '::' if n != 'tuple' else '') + t[2] if t[2] else ('' if n == 'tuple' else n)
        return n + '{' + ', '.join(f'{k}: {pp(v, d + 1)}' for k, v in t[3]) + '}'
    if h == 'with':
        return pp(t[1], d + 1) + '<' + ', '.join(f'{pp(k)}:={pp(v, d + 1)}' for k, v in t[2]) + '>'
    if h == 'ref':
        return '&' + pp(t[1], d + 1) + ''.join('.' + pp(e, d + 1) for e in t[2])
    if h == '.':
        return pp(t[1], d + 1) + '.' + pp(t[2], d + 1)
    if h == 'in':
        return str(t[1])
    if h == 'str':
        return repr(t[1])
    if h == '[]':
        return '[' + pp(t[1], d + 1) + ']'
    if h == 'P':
        return '*' + pp(t[1], d + 1)
    if not isinstance(h, str):
        return '(' + ', '.join(pp(x, d + 1) for x in t) + ')'
    return h + '(' + ', '.join(pp(x, d + 1) for x in t[1:]) + ')'
