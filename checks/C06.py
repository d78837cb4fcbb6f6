"""Vdev specifications: exactly the documented ones are accepted, and each means the devices it lists, in their order."""
import re
import re._parser as sre

from engine import facts
from engine.interp import St, Unsupported
from engine.mir import Missing
from engine.models import R, ok, err
from engine.terms import *

META = {
    'level': 'other',
    'explanation': 'The grammar is compiled as the build compiles it. From the parser so generated: the languages of the tokens are compared, as '
                   'automata, with the documented ones; the set of sentences of the grammar is turned into a regular expression over tokens by '
                   'elimination and compared, as an automaton, with the documented set; and the MIR of every semantic action is interpreted: on its '
                   'own, for symbolic numbers and lists, and composed along every derivation of up to 9 tokens, whose value must be what was written.',
    'assumptions': ['the parser generator is right: the parser accepts the sentences of the grammar, runs the action of each production, and reports the error of an action that fails',
                    'of the command that reads the specification only the parser is analysed'],
}
MOST = 9


# ---- regular expressions over any alphabet: ('sym', frozenset) ('cat', a, b) ('alt', frozenset) ('star', a) EPS NONE_
EPS, NO = ('eps',), ('no',)


def cat(a, b):
    if NO in (a, b):
        return NO
    if a == EPS:
        return b
    if b == EPS:
        return a
    if a[0] == 'cat':
        return ('cat', a[1], cat(a[2], b))
    return ('cat', a, b)


def alt(*xs):
    out = set()
    for x in xs:
        out |= x[1] if x[0] == 'alt' else {x}
    out.discard(NO)
    if not out:
        return NO
    return next(iter(out)) if len(out) == 1 else ('alt', frozenset(out))


def star(a):
    if a in (NO, EPS):
        return EPS
    return a if a[0] == 'star' else ('star', a)


def nullable(r):
    return r == EPS or r[0] == 'star' or r[0] == 'alt' and any(map(nullable, r[1])) or r[0] == 'cat' and nullable(r[1]) and nullable(r[2])


def deriv(r, c):
    k = r[0]
    if k in ('eps', 'no'):
        return NO
    if k == 'sym':
        return EPS if c in r[1] else NO
    if k == 'alt':
        return alt(*[deriv(x, c) for x in r[1]])
    if k == 'star':
        return cat(deriv(r[1], c), r)
    d = cat(deriv(r[1], c), r[2])
    return alt(d, deriv(r[2], c)) if nullable(r[1]) else d


def letters(r):
    if r[0] == 'sym':
        return {r[1]}
    return set().union(*[letters(x) for x in (r[1] if r[0] == 'alt' else r[1:]) if isinstance(x, tuple)] or [set()])


def differ(a, b):
    """The shortest word that one has and the other has not, or None; and the number of pairs of states."""
    parts = {}
    sets = letters(a) | letters(b)
    for c in set().union(*sets or [set()]):
        parts.setdefault(frozenset(s for s in sets if c in s), c)
    seen, todo = {(a, b)}, [(a, b, ())]
    while todo:
        x, y, w = todo.pop(0)
        if nullable(x) != nullable(y):
            return w, len(seen)
        for c in sorted(parts.values(), key=repr):
            n = (deriv(x, c), deriv(y, c))
            if n not in seen:
                seen.add(n)
                todo.append((*n, w + (c,)))
        if len(seen) > 20000:
            raise Unsupported('the automata are too large')
    return None, len(seen)


CATS = {'CATEGORY_SPACE': frozenset(b'\t\n\v\f\r '), 'CATEGORY_DIGIT': frozenset(b'0123456789'),
        'CATEGORY_WORD': frozenset(c for c in range(128) if chr(c).isalnum() or c == 95)}
ALL = frozenset(range(256))


def charset(items):
    out, neg_ = set(), False
    for op, v in items:
        op = str(op)
        if op == 'NEGATE':
            neg_ = True
        elif op == 'LITERAL':
            out.add(v)
        elif op == 'RANGE':
            out |= set(range(v[0], v[1] + 1))
        elif op == 'CATEGORY' and str(v) in CATS:
            out |= CATS[str(v)]
        else:
            raise Unsupported(f'in a token: {op}')
    return frozenset(ALL - out if neg_ else out)


def regex(s):
    """The regular expression of a token, as the lexer takes it: over bytes."""
    s = re.sub(r'\\x\{([0-9a-fA-F]{1,2})\}', lambda m: '\\x%02x' % int(m[1], 16), re.sub(r'\(\?(-u|u|s|-u:s)?:', '(?:', s))

    def tree(t):
        r = EPS
        for op, v in t:
            op = str(op)
            if op == 'LITERAL':
                x = ('sym', frozenset({v}))
            elif op == 'NOT_LITERAL':
                x = ('sym', ALL - {v})
            elif op == 'ANY':
                x = ('sym', ALL - {10})
            elif op == 'IN':
                x = ('sym', charset(v))
            elif op == 'SUBPATTERN':
                x = tree(v[3])
            elif op == 'BRANCH':
                x = alt(*[tree(b) for b in v[1]])
            elif op == 'AT' and str(v) == 'AT_BEGINNING':
                continue
            elif op in ('MAX_REPEAT', 'MIN_REPEAT'):
                lo, hi, e = v
                x0, x = tree(e), EPS
                for _ in range(lo):
                    x = cat(x, x0)
                if str(hi) == 'MAXREPEAT':
                    x = cat(x, star(x0))
                else:
                    more = EPS
                    for _ in range(hi - lo):
                        more = alt(EPS, cat(x0, more))
                    x = cat(x, more)
            else:
                raise Unsupported(f'in a token: {op}')
            r = cat(r, x)
        return r
    return tree(sre.parse(s.encode('latin1')))


# ---- the grammar, from what its compiler wrote

def unescape(s):
    """The contents of a Rust string literal."""
    m = re.fullmatch(r'r(#*)"(.*)"\1', s, re.S)
    if m:
        return m[2]
    if not re.fullmatch(r'"([^"\\]|\\.)*"', s, re.S):
        raise Unsupported(f'a literal {s}')
    return re.sub(r'\\(?:x([0-9a-fA-F]{2})|u\{([0-9a-fA-F]+)\}|(.))', lambda m: chr(int(m[1] or m[2], 16)) if m[1] or m[2] else {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(m[3], m[3]), s[1:-1], flags=re.S)


def symbols(s):
    """The names of symbols in a list of them."""
    out, i, depth, cur = [], 0, 0, ''
    while i < len(s):
        m = re.compile(r'(?<![A-Za-z0-9_])r(#+)"|(?<![A-Za-z0-9_])r"|"').match(s, i)
        if m:
            end = '"' + (m[1] or '') if m[0] != '"' else '"'
            j = m.end()
            if m[0] == '"':
                while s[j] != '"':
                    j += 2 if s[j] == '\\' else 1
                j += 1
            else:
                j = s.index(end, j) + len(end)
            cur += s[i:j]
            i = j
            continue
        if s[i] in '(<[':
            depth += 1
        elif s[i] in ')>]':
            depth -= 1
        if depth == 0 and s.startswith(', ', i):
            out.append(cur)
            cur, i = '', i + 2
            continue
        cur += s[i]
        i += 1
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


def grammar(src, parser):
    """The productions [(name, symbols, action)] and tokens [(name, regex, skipped)] of the parser of that name."""
    mod = re.search(r'mod __parse__%s \{.*?\n\}\n' % parser, src, re.S)
    if mod is None:
        raise Missing(f'the parser of {parser}')
    mod = mod[0]
    prods = []
    for m in re.finditer(r'^ *// (.*) => ActionFn\((\d+)\);$', mod, re.M):
        line = m[1]
        # the name ends at the first " = " outside of quotes
        i = 0
        while True:
            i = line.index(' =', i)
            try:
                if line[:i].count('"') % 2 == 0:
                    break
            except ValueError:
                pass
            i += 1
        prods.append((line[:i], symbols(line[i + 2:]), int(m[2])))
    term = re.search(r'const __TERMINAL: &\[&str\] = &\[\n(.*?)\n    \];', mod, re.S)
    names = re.findall(r'^ *r###"(.*)"###,$', term[1], re.M)
    strs = re.search(r'let __strs: &\[\(&str, bool\)\] = &\[\n(.*?)\n        \];', src, re.S)
    toks = [(unescape(m[1]), m[2] == 'true') for m in re.finditer(r'^ *\((.*), (true|false)\),$', strs[1], re.M)]
    kept = [t for t in toks if not t[1]]
    if len(kept) != len(names) or toks[:len(kept)] != kept:
        raise Unsupported('the tokens of the lexer are not those of the parser')
    return prods, list(zip(names, [t[0] for t in kept])), [t[0] for t in toks[len(kept):]]


def sentences(prods, start, terms):
    """The sentences of the grammar as a regular expression over tokens, if every recursion is to one side."""
    by = {}
    for a, rhs, _ in prods:
        by.setdefault(a, []).append(rhs)
    done = {}

    def uses(a):
        return {x for rhs in by[a] for x in rhs if x in by}

    reach = {a: uses(a) for a in by}
    while True:
        new = {a: set().union(reach[a], *[reach[b] for b in reach[a]]) for a in by}
        if new == reach:
            break
        reach = new

    def of(a):
        if a in done:
            return done[a]
        comp = [a] + sorted(b for b in by if b != a and b in reach[a] and a in reach[b])
        if a not in reach[a]:
            comp = [a]
        eqs, sides = {}, set()
        for b in comp:
            eqs[b] = {}
            for rhs in by[b]:
                rec = [i for i, x in enumerate(rhs) if x in comp and a in reach[a]]
                if len(rec) > 1:
                    raise Unsupported(f'the sentences of {b} are not regular')
                if rec:
                    i = rec[0]
                    rest = rhs[:i] + rhs[i + 1:]
                    r = seq(rest)
                    if r == EPS:
                        continue
                    if i not in (0, len(rhs) - 1):
                        raise Unsupported(f'the sentences of {b} are not regular')
                    sides.add('left' if i == 0 else 'right')
                    eqs[b][rhs[i]] = alt(eqs[b].get(rhs[i], NO), r)
                else:
                    eqs[b][None] = alt(eqs[b].get(None, NO), seq(rhs))
        if len(sides) > 1:
            raise Unsupported(f'the sentences of {a} are not regular')
        left = sides == {'left'}

        def both(coef, r):
            return cat(r, coef) if left else cat(coef, r)
        # elimination
        for b in reversed(comp):
            own = star(eqs[b].pop(b, NO))
            eqs[b] = {k: both(own, v) for k, v in eqs[b].items()}
            for c in comp:
                if c != b and b in eqs[c]:
                    coef = eqs[c].pop(b)
                    for k, v in eqs[b].items():
                        eqs[c][k] = alt(eqs[c].get(k, NO), both(coef, v))
        for b in comp:
            if not (set(eqs[b]) <= {None}):
                # solve the others from scratch with what is known
                continue
            done[b] = eqs[b].get(None, NO)
        return done[a]

    def seq(rhs):
        r = EPS
        for x in rhs:
            r = cat(r, of(x) if x in by else ('sym', frozenset({terms[x]})))
        return r
    return of(start)


# ---- what the tokens and sentences are documented to be

def tok(x):
    return ('sym', frozenset({x}))


PATH = cat(('sym', frozenset(b'/') | frozenset(c for c in range(128) if chr(c).isalpha())), star(('sym', ALL - frozenset(b' \t\n'))))
NUM = cat(('sym', CATS['CATEGORY_DIGIT']), star(('sym', CATS['CATEGORY_DIGIT'])))


def word(s):
    r = EPS
    for c in s.encode():
        r = cat(r, ('sym', frozenset({c})))
    return r


TOKENS = {'path': PATH, 'number': NUM, 'mirror': word('mirror'), 'raid': word('raid')}


def plus(r):
    return cat(r, star(r))


MIRROR = cat(tok('mirror'), plus(tok('path')))
RAID = cat(tok('raid'), cat(tok('number'), cat(tok('number'), alt(plus(tok('path')), plus(MIRROR)))))
POOL = alt(plus(tok('path')), plus(MIRROR), plus(RAID))


def meant(w):
    """What a sentence [(token, text)] means."""
    w = list(w)

    def paths():
        out = []
        while w and w[0][0] == 'path':
            out.append(w.pop(0)[1])
        return tuple(out)

    def mirrors():
        out = []
        while w and w[0][0] == 'mirror':
            w.pop(0)
            out.append(('Mirror', paths()))
        return out
    if w[0][0] == 'path':
        return ('Pool', tuple(('Tlv::Disk', p) for p in paths()))
    if w[0][0] == 'mirror':
        return ('Pool', tuple(('Tlv::Mirror', m) for m in mirrors()))
    out = []
    while w:
        w.pop(0)
        k, f = w.pop(0)[1], w.pop(0)[1]
        kids = tuple(('RaidChild::Disk', ('Disk', p)) for p in paths()) or tuple(('RaidChild::Mirror', m) for m in mirrors())
        out.append(('Tlv::Raid', ('Raid', ('i16', k), ('i16', f), kids)))
    return ('Pool', tuple(out))


# ---- the actions

class Actions:
    def __init__(self, ctx, prods):
        self.ctx, self.memo = ctx, {}
        self.bodies = {n: ctx.P.fn(f'pool::pool_create_parser::__action{n}') for _, _, n in prods}

    def interp(self, fits):
        I = self.ctx.interp()

        def parse(I, st, c):
            v = I.deep(st, c.args[0])
            while isinstance(v, tuple) and v[0] == 'ref':
                v = I.load(st, v)
            m = re.match(r'std::result::Result<(\w+), std::num::ParseIntError>', c.retty)
            if not m:
                return None
            if m[1] == 'i16':
                return R(st, ok(('parsed', 'i16', v)) if fits else err(('s', 'ParseIntError')))
            # another type of number: what it makes of the text is not known
            return R(st.copy(), ok(('parsed', m[1], v))) + R(st, err(('s', 'ParseIntError')))
        I.hooks['core::str::parse'] = parse
        I.hooks['std::str::FromStr::from_str'] = parse
        return I

    def run(self, n, args, fits=True):
        """[('ret' | 'panic', value)] of the action on the values of the symbols."""
        key = (n, args, fits)
        if key in self.memo:
            return self.memo[key]
        b = self.bodies[n]
        I, st = self.interp(fits), St()
        if any(isagg(x) for x in args):
            I.unroll = 2 + max(MOST, *[len(x[3]) for x in args if isagg(x)])
        tys = [b['locals'][1 + i]['ty'] for i in range(b['argc'])]
        vals, rest = [('in', 'input')], list(args)
        for t in tys[1:]:
            if t == '&usize':
                vals.append(I.alloc(st, ('in', 'position')))
            else:
                x = rest.pop(0)
                vals.append(tup(('in', 'from'), x, ('in', 'to')))
        if rest:
            raise Unsupported(f'action {n} takes {len(tys) - 1} of {len(args)} symbols')
        outs = I.run(b, vals, st)
        self.ctx.used(I, outs)
        self.memo[key] = [(o.kind, I.deep(o.st, o.val)) for o in outs]
        return self.memo[key]

    def fallible(self, n):
        return self.bodies[n]['locals'][0]['ty'].startswith('std::result::Result<')

    def value(self, n, args):
        """What the action makes of the symbols when the numbers are in range."""
        outs = self.run(n, args)
        if len(outs) != 1 or outs[0][0] != 'ret':
            raise Unsupported(f'action {n} ends in {len(outs)} ways: {outs}'[:300])
        v = outs[0][1]
        if self.fallible(n):
            return proj(proj(v, 'v:Ok'), '0') if not (isagg(v) and v[2] == 'Err') else None
        return v


def plain(v):
    """The value as names and tuples."""
    if isagg(v):
        if v[1] == 'array':
            return tuple(plain(x) for _, x in v[3])
        n = v[1].split('::')[-1]
        fs = dict(v[3])
        if n == 'Raid':
            return ('Raid', plain(fs['k']), plain(fs['f']), plain(fs['vdevs']))
        return (n + ('::' + v[2] if v[2] else ''), *[plain(x) for _, x in v[3]])
    if isinstance(v, tuple) and v[0] == 'push':
        return plain(v[1]) + (plain(v[2]),)
    if isinstance(v, tuple) and v[0] == 'concat':
        return plain(v[1]) + plain(v[2])
    if isinstance(v, tuple) and v[0] == 'parsed':
        return (v[1], plain(v[2]))
    return v


def longer(p, n):
    """A meaning with one thing, e0, in a list as it should be with n in its place."""
    if not isinstance(p, tuple):
        return p
    out = ()
    for x in p:
        if isinstance(p[0], tuple) and within(x, 'e0') and (not isinstance(x[0], tuple)):
            out += tuple(subst_name(x, f'e{i}') for i in range(n))
        else:
            out += (longer(x, n),)
    return out


def within(p, x):
    return p == x or isinstance(p, tuple) and any(within(q, x) for q in p)


def subst_name(p, x):
    return x if p == 'e0' else tuple(subst_name(q, x) for q in p) if isinstance(p, tuple) else p


def derivations(prods, start, terms, most):
    """{sentence of at most so many tokens: [trees]}; a tree is a position or (action, trees)."""
    by = {}
    for a, rhs, n in prods:
        by.setdefault(a, []).append((rhs, n))
    low = {a: None for a in by}
    while True:
        new = dict(low)
        for a in by:
            for rhs, _ in by[a]:
                ls = [low[x] if x in by else 1 for x in rhs]
                if None not in ls and (new[a] is None or sum(ls) < new[a]):
                    new[a] = sum(ls)
        if new == low:
            break
        low = new
    memo, busy = {}, set()

    def of(x, n):
        if x not in by:
            return [((terms[x],), None)] if n == 1 else []
        if (x, n) in memo:
            return memo[x, n]
        if (x, n) in busy:
            raise Unsupported(f'{x} derives itself')
        busy.add((x, n))
        out = []
        for rhs, act in by[x]:
            for parts in splits(rhs, n):
                out.append((sum((w for w, _ in parts), ()), (act, tuple((len(w), t) for w, t in parts))))
        busy.discard((x, n))
        memo[x, n] = out
        return out

    def splits(rhs, n):
        if not rhs:
            return [()] if n == 0 else []
        rest = sum(low[x] if x in by else 1 for x in rhs[1:]) if all((low[x] if x in by else 1) is not None for x in rhs[1:]) else None
        if rest is None:
            return []
        out = []
        lo = low[rhs[0]] if rhs[0] in by else 1
        if lo is None:
            return []
        for k in range(lo, n - rest + 1):
            tails = splits(rhs[1:], n - k)
            if tails:
                for h in of(rhs[0], k):
                    out += [(h, *t) for t in tails]
        return out
    for n in range(0, most + 1):
        yield from of(start, n)


def run(ctx):
    from collections import Counter
    try:
        ctx.P, src = facts.load_pool()
    except facts.BuildFailed as e:
        # the grammar is not one that the parser generator takes: nothing of the tree can be said
        raise Unsupported(str(e)[-1500:])
    prods, tokens, skipped = grammar(src, 'Pool')
    ctx.floor('language', 'productions', len(prods), 6)
    start = '__Pool'
    # the tokens
    names = {}
    with ctx.rule('tokens', 'lexer'):
        for name, rx in tokens:
            r = regex(rx)
            found = {k: differ(r, s) for k, s in TOKENS.items()}
            same = [k for k, (w, _) in found.items() if w is None]
            why = f'; it is not even a path: {bytes(found["path"][0] or ())!r}, nor a number: {bytes(found["number"][0] or ())!r}'
            ctx.ob('tokens', f'token {name}', len(same) == 1, f'the token is a path, a number or a word of the documented language{why}')
            names[name] = same[0] if same else '?' + name
        got = Counter(names.values())
        ctx.ob('tokens', 'lexer', set(got) == set(TOKENS) and max(got.values()) == 1, f'each kind of token once: {dict(got)}')
        # a text that more than one token matches is the later one's
        order = [names[n] for n, _ in tokens]
        for wd in ('mirror', 'raid'):
            ctx.ob('tokens', f'word {wd}', wd in order and 'path' in order and order.index(wd) > order.index('path'), f'the word is not taken for a path: {order}')
        sk = alt(*[regex(s) for s in skipped])
        w, _ = differ(sk, plus(('sym', CATS['CATEGORY_SPACE'])))
        ctx.ob('tokens', 'lexer', w is None, f'only white space is skipped, and all of it: {bytes(w or ())!r}')
    # the sentences
    with ctx.rule('language', 'grammar'):
        lang = sentences(prods, start, names)
        w, n = differ(lang, POOL)
        ctx.ob('language', 'grammar', w is None, 'exactly the documented specifications are accepted; of one alone: ' + ' '.join(w or ()))
        ctx.counts['pairs of states compared'] = n
    acts = Actions(ctx, prods)
    label = {n: f'{a} = {", ".join(rhs)}' for a, rhs, n in prods}
    # every action on its own
    for a, rhs, n in prods:
        where = label[n]
        with ctx.rule('actions', where):
            args = tuple(('in', f'{names[x] if x in names else x}#{i}') for i, x in enumerate(rhs))
            for fits in (True, False):
                outs = acts.run(n, args, fits)
                ctx.ob('panic', where, all(k == 'ret' for k, _ in outs), f'no specification makes it panic{"" if fits else ", nor a number out of range"}: {[k for k, _ in outs]}')
                if not fits and any(names.get(x) == 'number' for x in rhs) and acts.bodies[n] and 'i16' in acts.bodies[n]['locals'][0]['ty']:
                    ctx.ob('range', where, bool(outs) and all(k == 'panic' or isagg(v) and v[2] == 'Err' for k, v in outs), f'a number out of range is an error: {[pp(v)[:80] for _, v in outs]}')
            # a list is only added to at its end
            if rhs and rhs[0] == a:
                v = acts.value(n, args)
                ctx.ob('lists', where, v == ('push', args[0], args[1]) if len(rhs) == 2 else False, f'what comes later is added at the end: {pp(v)[:160]}')
            # a long list means as many
            lists = [i for i, x in enumerate(rhs) if any(p[0] == x and p[1][:1] == [x] for p in prods)]
            if len(lists) == 1 and rhs[0] != a:
                def of(k):
                    xs = list(args)
                    xs[lists[0]] = ('agg', 'array', '', tuple((('[]', i), ('in', f'e{i}')) for i in range(k)))
                    return plain(acts.value(n, tuple(xs)))
                one = of(1)
                for k in (2, 3, 10, 40, 129):
                    ctx.ob('lists', where, of(k) == longer(one, k), f'of {k} things listed, each is meant: {one}')
    # the meaning of short sentences, which is that of all by the rule for lists
    done = Counter()
    with ctx.rule('meaning', 'grammar'):
        for w, tree in derivations(prods, start, names, MOST):
            text = tuple((t, ('in', f'{t}{i}')) for i, t in enumerate(w))

            def val(t, at):
                if t is None:
                    return text[at][1]
                act, kids = t
                xs = []
                for ln, k in kids:
                    xs.append(val(k, at))
                    at += ln
                return acts.value(act, tuple(xs))
            v = val(tree, 0)
            done[len(w)] += 1
            try:
                want = meant(text)
            except (IndexError, KeyError):
                continue
            ctx.ob('meaning', label[tree[1][0][1][0]] if tree[1] and tree[1][0][1] else 'grammar', plain(v) == want, f'{" ".join(w)} means {plain(v)} rather than {want}'[:400])
    ctx.floor('meaning', 'sentences', sum(done.values()), 80)
