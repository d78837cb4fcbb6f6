"""A borrower waiting for writeback credit is served in turn and never left asleep with enough credit."""
from engine.terms import *
from checks.wb_model import *
from checks.C01 import has_rx

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR with every atomic read and everything under the lock fresh, so that what is derived holds in any '
                   'interleaving; the protocol between the flag, the supply and the queue is then checked on every path and loop iteration: the '
                   'flag is set under the lock after queueing and followed by another look at the supply, cleared only under the lock with the '
                   'queue known empty; whoever returns credit and may have seen the flag goes on serving until the queue is empty or its front '
                   'cannot be served; sleepers are queued at the back, taken from the front, and each one taken is notified; a loan without '
                   'sleeping needs the flag to have been clear in the very operation that took the credit.',
    'assumptions': ['an atomic read-modify-write is atomic and all updates of one word are totally ordered', 'the executor polls a woken future'],
}


def run(ctx):
    P = ctx.P
    R = Roles(P)
    fns = methods(P, R)
    ctx.floor('protocol', 'methods of the accountant', len(fns), 5)
    sleeps = wakes = repays = loans = 0
    for b in fns:
        where = b['path']
        if strip_generics(b['locals'][0]['ty']) == R.BANK:
            continue
        with ctx.rule('protocol', where):
            I, outs, credits = run_bank(ctx, R, b)
            # a helper handed the guard runs with the lock held by its caller
            lent = any('VecDeque<' in l['ty'] and l['ty'].startswith('&mut') or 'MutexGuard<' in l['ty'] for l in b['locals'][1:b['argc'] + 1])
            if lent:
                continue
            for o in outs:
                if o.kind != 'ret':
                    continue
                Q = I.read(o.st, R.SELF, (R.queue, 'data'))
                evs = settled(R, o.st.effects())
                walk(ctx, I, R, where, evs, 0, o.st, Q, True)
                for i, e in enumerate(evs):
                    if e[0] == 'push' and R.is_queue(e[1]):
                        sleeps += 1
                        # in the same hold of the lock; before the push as well as after it
                        since = max([j for j, x in enumerate(evs) if j < i and x[0] in ('lock', 'unlock') and R.is_queue(x[1])], default=-1)
                        later = [(max(i, j), x) for j, x in enumerate(evs) if j > since and supply_flag(R, x) == 'set']
                        un = [j for j, x in enumerate(evs) if j > i and x[0] == 'unlock' and R.is_queue(x[1])]
                        okk = bool(later) and bool(un) and later[0][0] < un[0]
                        ctx.ob('flag-set-with-queue', where, okk, 'a sleeper is queued without the flag being set before the lock is released')
                        if later:
                            ctx.ob('recheck-after-flag', where, served(I, R, o.st, evs, later[0][0], Q),
                                   'a borrower goes to sleep without looking at the supply again once the flag is set: credit returned just before that wakes nobody')
                    if e[0] == 'atomic' and R.is_supply(e[2]):
                        f = R.flag(e[3], e[4])
                        if f and f[0] != 0 and credits and f[0] in credits:
                            repays += 1
                            clear = any(x[0] == 'atomic' and R.is_supply(x[2]) and I.known(o.st, eq(mod(x[3], 2), 1)) == 0 for x in evs[i:])
                            if clear:
                                ctx.ob('repayment-wakes', where, True)
                            else:
                                wakes += 1
                                ctx.ob('repayment-wakes', where, served(I, R, o.st, evs, i, Q),
                                       'credit is returned while the flag may be set, and sleepers the supply covers may be left asleep')
                if credit_in(R, o.val) and not any(e[0] == 'await' and has_rx(e[1]) for e in evs):
                    loans += 1
                    fair = any(e[0] == 'atomic' and R.is_supply(e[2]) and R.flag(e[3], e[4]) and R.flag(e[3], e[4])[0] == neg(credit_in(R, o.val)[0])
                               and I.known(o.st, eq(mod(e[3], 2), 1)) == 0 for e in evs)
                    ctx.ob('no-overtaking', where, fair, 'a loan is made at once although others may be waiting')
    ctx.floor('flag-set-with-queue', 'paths that sleep', sleeps, 1)
    ctx.floor('repayment-wakes', 'paths that return credit', repays, 2)
    ctx.floor('repayment-wakes', 'paths that wake sleepers', wakes, 1)
    ctx.floor('no-overtaking', 'paths that lend at once', loans, 1)


def supply_flag(R, e):
    if e[0] == 'atomic' and R.is_supply(e[2]):
        f = R.flag(e[3], e[4])
        return f[1] if f else None
    return None


def served(I, R, st, evs, i, Q):
    """The path ends with the queue empty, or its front shown by an operation on the supply from event i on not to be covered."""
    if I.known(st, eq(I.length(Q), 0)) == 1:
        return True
    front = I.elem(st, Q, ('[]', 0))
    w = proj(front, R.wants)
    return any(e[0] == 'atomic' and R.is_supply(e[2]) and I.known(st, lt(e[3], w)) == 1 for e in evs[i:])


MUTATORS = ('push', 'pop')


def walk(ctx, I, R, where, evs, held, st, Q, top):
    """Rules of one run of events; loops are entered with the lock state they start in."""
    for n, e in enumerate(evs):
        if e[0] == 'lock' and R.is_queue(e[1]):
            ctx.ob('lock-not-nested', where, not held, 'the lock of the queue is taken twice')
            held = 1
        elif e[0] == 'unlock' and R.is_queue(e[1]):
            held = 0
        elif e[0] == 'loop':
            L = e[1]
            for it in L.iters:
                s = L.state(it)
                q = L.carried.get((R.SELF, (R.queue, 'data')))
                walk(ctx, I, R, where, settled(R, it[2]), held, s, it[3].get((R.SELF, (R.queue, 'data')), q), False)
        elif e[0] == 'push' and R.is_queue(e[1]):
            ctx.ob('queue-order', where, e[3] == 'back', 'a sleeper is not queued at the back')
            ctx.ob('queue-locked', where, held, 'the queue is changed without its lock')
            ctx.ob('wants-even', where, R.even(proj(e[2], R.wants)), 'a sleeper asks for an odd word')
        elif e[0] == 'pop' and R.is_queue(e[1]):
            ctx.ob('queue-order', where, e[3] == 'front', 'a sleeper is not taken from the front')
            ctx.ob('queue-locked', where, held, 'the queue is changed without its lock')
            sent = any(x[0] == 'send' and x[1] == proj(e[2], R.tx) for x in evs[n:])
            ctx.ob('taken-is-notified', where, sent, 'a sleeper is taken off the queue and not notified')
        elif e[0] == 'call':
            touched = [a for a in e[5] if R.is_queue(a)] if len(e) > 5 else []
            ctx.ob('queue-order', where, not touched, f'the queue is passed to {e[1]}')
        fl = supply_flag(R, e)
        if fl:
            ctx.ob('flag-locked', where, held, f'the flag is {fl} without the lock')
        if fl == 'clear':
            if Q is None:
                ctx.ob('flag-cleared-empty', where, False, 'the flag is cleared in a loop that keeps no queue')
            else:
                ctx.ob('flag-cleared-empty', where, I.known(st, eq(I.length(Q), 0)) == 1, 'the flag is cleared while there may be sleepers')
        if e[0] == 'send':
            w = wants_of(R, e[1])
            ctx.ob('notify-after-reservation', where, any(x[0] == 'atomic' and R.is_supply(x[2]) and R.flag(x[3], x[4]) and
                   R.flag(x[3], x[4])[0] == neg(w) for x in evs[:n]), 'a sleeper is notified before credit was taken for it')
