"""Traces of the writeback accountant: what each path does to the supply, the queue of sleepers and credit."""
import re
from engine.terms import *
from engine.interp import St, Unsupported, Loop
from engine.mir import strip_generics, Missing

MOD = 'writeback::writeback::'


class Roles:
    """The parts of the accountant, found by their types."""

    def __init__(self, P):
        self.bank = [a for p, a in P.adts.items() if a['local'] and p.startswith('writeback::') and
                     any('Mutex<' in f[1] and 'VecDeque<' in f[1] for v in a['variants'] for f in v['f'])]
        if len(self.bank) != 1:
            raise Missing('the writeback accountant type')
        self.bank = self.bank[0]
        fs = self.bank['variants'][0]['f']
        self.supply = one([f[0] for f in fs if 'Atomic' in f[1] and 'Mutex' not in f[1]], 'the supply word')
        self.queue = one([f[0] for f in fs if 'Mutex<' in f[1]], 'the queue of sleepers')
        self.capacity = one([f[0] for f in fs if f[0] not in (self.supply, self.queue)], 'the capacity')
        self.BANK = self.bank['path']
        self.mod = self.BANK.rsplit('::', 1)[0] + '::'
        self.CREDIT = self.mod + 'Credit'
        c = P.adt(self.CREDIT)
        self.word = one([f[0] for f in c['variants'][0]['f']], "the credit's word")
        q = [f[1] for f in fs if f[0] == self.queue][0]
        self.SLEEPER = strip_generics(re.search(r'VecDeque<([^<>]*)', q).group(1))
        sf = P.adt(self.SLEEPER)['variants'][0]['f']
        self.tx = one([f[0] for f in sf if 'Sender' in f[1]], "the sleeper's channel")
        self.wants = one([f[0] for f in sf if f[1] in ('isize', 'usize', 'i64', 'u64')], "the sleeper's wants")
        self.SELF = ('P', ('in', 'self'))

    def is_supply(self, ref):
        return ref == ('ref', self.SELF, (self.supply,))

    def is_queue(self, ref):
        return isinstance(ref, tuple) and ref[0] == 'ref' and ref[1] == self.SELF and ref[2][:1] == (self.queue,)

    def even(self, t):
        """Every value of t is even, given that credit and wants are."""
        # x mod 2 is even when x is
        t = subst(t, lambda x: x[1] if isinstance(x, tuple) and x and x[0] == 'mod' and x[2] == 2 else None)
        for m, c in poly(t).items():
            if c % 2 == 0 or any(self.even_atom(a) for a in m):
                continue
            return False
        return True

    def even_atom(self, a):
        if isinstance(a, tuple) and a[0] == '.' and a[2] == self.wants:
            return True
        return isinstance(a, tuple) and a[0] == 'max0' and self.even(a[1])

    def flag(self, old, new):
        """(change of the supply proper, 'set', 'clear' or None for the flag) of one update of the word; None if unclear."""
        d = sub(new, old)
        if self.even(d):
            return d, None
        m = mod(old, 2)
        if self.even(sub(d, sub(1, m))):
            return sub(d, sub(1, m)), 'set'
        if self.even(add(d, m)):
            return add(d, m), 'clear'
        return None


def one(xs, what):
    if len(xs) != 1:
        raise Missing(what)
    return xs[0]


def methods(P, R):
    """The methods of the accountant that others may call; what is private to its module is judged where it is called."""
    return P.fns(lambda b: strip_generics(b.get('self') or '') == R.BANK and not (b.get('trait') or '').startswith('std::') and
                 not ('Restricted' in b['vis'] and R.mod.rstrip(':') in b['vis']))


def bank_interp(ctx):
    I = ctx.interp(volatile_atomics=True)

    def on_lock(I, st, ref):
        # what the lock guards is whatever others left there
        n = st.fresh(('locked', ref))
        I.write(st, ref[1], ref[2], ('held', ref, n) + ((st.ctx,) if st.ctx else ()))
    I.hooks['on_lock'] = on_lock
    return I


def run_bank(ctx, R, b):
    """Outcomes of a method of the accountant, futures driven to their end."""
    I = bank_interp(ctx)
    st = St()
    args = []
    credits = []
    for i in range(b['argc']):
        l = b['locals'][i + 1]
        nm = l.get('n') or f'arg{i}'
        if strip_generics(l['ty']) == R.CREDIT:
            I.ty[('in', nm)] = 'isize'
            args.append(agg(R.CREDIT, **{R.word: mul(2, ('in', nm))}))
            credits.append(mul(2, ('in', nm)))
        else:
            v = ('in', 'self' if i == 0 and b.get('self') else nm)
            I.ty[v] = l['ty']
            args.append(v)
    outs = []
    for o in I.run(b, args, st):
        if o.kind == 'ret' and is_future(I, o.val):
            outs.extend(I.run_future(o.st, o.val))
        else:
            outs.append(o)
    ctx.used(I, outs)
    return I, outs, credits


def is_future(I, v):
    if isagg(v):
        if v[1].startswith('closure:'):
            b = I.P.bodies.get(v[1][8:])
            return b is not None and bool(b.get('coroutine'))
        return v[1].startswith('fut:') or '__Enum' in v[1]
    return False


def settled(R, evs):
    """The events less those of sleepers taken from the front of the queue and put back there before anyone could see."""
    out = []
    for e in evs:
        if e[0] == 'push' and e[3] == 'front' and R.is_queue(e[1]):
            for j in range(len(out) - 1, -1, -1):
                x = out[j]
                if x[0] == 'pop' and x[3] == 'front' and R.is_queue(x[1]) and x[2] == e[2]:
                    del out[j]
                    break
                if x[0] in ('pop', 'push', 'lock', 'unlock', 'send', 'await', 'loop'):
                    j = -1
                    break
            else:
                j = -1
            if j >= 0:
                continue
        out.append(e)
    return out


def segments(I, o):
    """The runs of events of an outcome: each iteration of each loop by itself, then the path outside loops."""
    out = []
    flat = []
    for e in o.st.effects():
        if e[0] == 'loop':
            loops(I, e[1], out)
            flat.append(e)
        else:
            flat.append(e)
    return out + [(o.st, flat, False)]


def loops(I, L, out):
    for it in L.iters:
        evs = []
        for e in it[2]:
            if e[0] == 'loop':
                loops(I, e[1], out)
            evs.append(e)
        out.append((L.state(it), evs, True))


def total(I, R, evs):
    """(change of the supply, credit granted to sleepers, unclear updates) over a run of events outside loops."""
    d = g = 0
    bad = []
    for e in evs:
        if e[0] == 'atomic' and R.is_supply(e[2]):
            f = R.flag(e[3], e[4])
            if f is None:
                bad.append(e)
            else:
                d = add(d, f[0])
        elif e[0] == 'send' and e[3] == 1:
            g = add(g, wants_of(R, e[1]))
    return d, g, bad


def wants_of(R, tx):
    """What the sleeper owning this channel end asked for."""
    if isinstance(tx, tuple) and tx[0] == '.' and tx[2] == R.tx:
        return ('.', tx[1], R.wants)
    raise Unsupported('a grant to something that is no sleeper: ' + pp(tx)[:120])


def credit_in(R, v):
    """The words of the credits in a value."""
    out = []
    if isagg(v):
        if v[1] == R.CREDIT:
            return [proj(v, R.word)]
        for _, x in v[3]:
            out.extend(credit_in(R, x))
    return out
