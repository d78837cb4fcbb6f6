"""The forest: which file system is where.  A name of a parent stands for one tree; a tree knows its parent; what is created is found and listed, what is destroyed is not."""
import itertools
from engine.interp import St
from engine.models import R, ok, err, some, NONE, UNIT, proj, iter_of
from engine.terms import *
from checks.proto import op, events, strip, show, cause
from checks import C22

META = {
    'level': 'other',
    'explanation': 'Abstract interpretation of MIR: every path of each operation of the forest, as the sequence of what it reads and changes in the tree of trees, replayed on an abstract map; over every '
                   'outcome of each of these.',
    'assumptions': ['the tree of trees is a sorted map (C24)', 'keys of trees and of their entries are distinct (C17), but for collisions of the hashes of names', 'no two changes of the forest run at once'],
}
F = 'database::Forest'
FK = 'database::ForestKey::'
T = 'tree::tree::Tree::'
SELF = ('in', 'forest')
TREE = ('.', SELF, '0')
TXG = ('in', 'txg')
CHANGES = ('insert', 'remove', 'range_delete', 'clean_zone')


def run(ctx):
    for r, w, f in (('get', F + '::get_tree', getting), ('insert', F + '::insert_tree', inserting), ('unlink', F + '::unlink', unlinking), ('update', F + '::update_tree', updating),
                    ('lookup', F + '::lookup', looking), ('parent', F + '::lookup_parent', parents), ('list', F + '::readdir', listing), ('all', F + '::trees', everything)):
        with ctx.rule(r, w):
            f(ctx)


def tid(n):
    return ('agg', 'database::TreeID', '', (('0', n),))


def base(ctx):
    I = ctx.interp()
    h = I.hooks
    for n in ('get', 'range', 'last_key') + CHANGES:
        h[T + n] = op('tree.' + n)
    h[FK + 'tree'] = lambda I, st, c: R(st, ('treekey', strip(I.deep(st, c.args[0]))))
    h[FK + 'tree_ent'] = lambda I, st, c: R(st, ('entkey', strip(I.deep(st, c.args[0])), text(I, st, c.args[1])))
    h[FK + 'tree_ent_range'] = lambda I, st, c: R(st, ('ents', strip(I.deep(st, c.args[0])), strip(I.deep(st, c.args[1]))))
    h['futures::StreamExt::next'] = h['futures::TryStreamExt::try_next'] = op('next')
    return I


def text(I, st, v):
    """A name, whether owned or borrowed."""
    v = strip(I.deep(st, v))
    while isinstance(v, tuple) and len(v) >= 3 and v[0] == 'ret' and isinstance(v[2], tuple) and v[2] and any(x in v[1] for x in ('deref', 'Deref', 'as_ref', 'as_str', 'borrow', 'to_owned', 'into', 'clone')):
        v = strip(v[2][0])
    return v


def drive(ctx, I, name, args, st=None):
    return C22.drive(ctx, I, ctx.P.fn(name), args, st)


def out(e):
    return ('.', ('.', ('out', e), 'v:Ok'), '0')


def value(e):
    return ('.', ('.', out(e), 'v:Some'), '0')


def went(o, e):
    for x in (e, strip(e)):
        k = o.st.facts.get(('discr', ('out', x)))
        if k:
            return k
    return None


def there(I, o, e):
    for x in (e, strip(e)):
        v = out(x)
        k = o.st.facts.get(('discr', v)) or {0: 'None', 1: 'Some'}.get(I.known(o.st, ('discr', v)))
        if k:
            return k
    return None


def sort(I, o, e):
    """Whether what was found is a tree or an entry."""
    for x in (e, strip(e)):
        v = value(x)
        k = o.st.facts.get(('discr', v)) or {0: 'Tree', 1: 'TreeEnt'}.get(I.known(o.st, ('discr', v)))
        if k:
            return k
    return None


def ops(I, o):
    return [e for e in events(I, o.st) if e[0] == 'op']


def changes(evs):
    return [e for e in evs if e[1].startswith('tree.') and e[1][5:] in CHANGES]


def null(c):
    c = strip(c)
    return isagg(c) and c[1].endswith('Credit') and strip(c[3][0][1]) == 0


def well(ctx, rule, w, evs):
    for e in evs:
        ctx.ob(rule, w, e[1] == 'next' or strip(e[2]) == TREE, f'{e[1]} is done to {pp(strip(e[2]))[:60]}')
        if e in changes(evs):
            t = e[5:] if e[1] == 'tree.insert' else e[4:]
            ctx.ob(rule, w, e[1] in ('tree.insert', 'tree.remove') and len(t) == 2 and strip(t[0]) == TXG and null(t[1]), f'{e[1]} is told {[pp(strip(x))[:60] for x in t]}')


def replay(I, o, evs):
    """The map after the changes: key -> value, ('gone',) or what was there before them, ('old', key)."""
    m = {}
    was = {}
    for e in evs:
        n = e[1]
        if n not in ('tree.get', 'tree.insert', 'tree.remove'):
            continue
        k = strip(e[3])
        was[strip(value(e))] = m.get(k, ('old', k))
        if went(o, e) == 'Err':
            continue
        if n == 'tree.insert':
            v = strip(e[4])
            m[k] = was.get(v, v)
        elif n == 'tree.remove':
            m[k] = ('gone',)
    return m


def seen_before(I, o, evs, key):
    """Whether the key was there before the first change of it, as far as the path knows."""
    for e in evs:
        if e[1] in ('tree.get', 'tree.insert', 'tree.remove') and strip(e[3]) == key and went(o, e) == 'Ok':
            return there(I, o, e)
    return None


def result(I, o):
    return strip(I.deep(o.st, o.val))


def blame(ctx, rule, w, r, evs):
    """An error that is passed on is that of an operation that failed."""
    ctx.ob(rule, w, cause(r) in evs or strip(cause(r)) in [strip(e) for e in evs], f'its error is {pp(r)[:100]}')


def code(r):
    e = proj(r, '0') if isagg(r) and r[2] == 'Err' else None
    return e[2] if isagg(e) else None


def wrong_sort(I, o, evs, want):
    """The forest holds something under a key that belongs to something of another sort."""
    for e in evs:
        if e[1] in ('tree.get', 'tree.insert', 'tree.remove') and there(I, o, e) == 'Some':
            k = 'Tree' if strip(e[3])[0] == 'treekey' else 'TreeEnt'
            s = sort(I, o, e)
            if s and s != k:
                return True
    return False


ID = ('in', 'id')


def getting(ctx):
    w = F + '::get_tree'
    I = base(ctx)
    seen = set()
    for o in drive(ctx, I, w, [('ref', ('P', SELF), ()), tid(ID)]):
        evs = ops(I, o)
        well(ctx, 'get', w, evs)
        if not ctx.ob('get', w, len(evs) == 1 and evs[0][1] == 'tree.get' and strip(evs[0][3]) == ('treekey', tid(ID)), f'it does {show(evs)[:120]}'):
            continue
        e = evs[0]
        if o.kind != 'ret':
            ctx.ob('get', w, wrong_sort(I, o, evs, 'Tree'), f'it panics: {pp(o.val)[:80]}')
            continue
        r = result(I, o)
        if went(o, e) == 'Err':
            ctx.ob('get', w, isagg(r) and r[2] == 'Err', 'an error is lost')
            blame(ctx, 'get', w, r, evs)
            seen.add('err')
        elif there(I, o, e) == 'None':
            ctx.ob('get', w, code(r) == 'ENOENT', f'a tree that is not there is {pp(r)[:80]}')
            seen.add('none')
        else:
            v = proj(r, '0') if isagg(r) and r[2] == 'Ok' else None
            ctx.ob('get', w, v == strip(('.', ('.', ('.', value(e), 'v:Tree'), '0'), 'tod')), f'a tree is {pp(r)[:140]}')
            seen.add('some')
    ctx.ob('get', w, seen == {'err', 'none', 'some'}, f'it only knows {sorted(seen)}')


def inserting(ctx):
    """A new tree has an id of its own and the parent it was given, and its entry in its parent names it; if the name is taken, nothing changes."""
    w = F + '::insert_tree'
    NAME, TOD, PARENT = ('in', 'name'), ('in', 'tod'), tid(('in', 'parent'))
    for parent in (NONE, some(PARENT)):
        I = base(ctx)
        seen = set()
        for o in drive(ctx, I, w, [('ref', ('P', SELF), ()), parent, NAME, TOD, TXG]):
            evs = ops(I, o)
            well(ctx, 'insert', w, evs)
            m = replay(I, o, evs)
            last = [e for e in evs if e[1] == 'tree.last_key']
            new = None
            if last and went(o, last[0]) == 'Ok':
                new = tid(0) if there(I, o, last[0]) == 'None' else tid(add(strip(('.', ('.', value(last[0]), 'tree_id'), '0')), 1))
            tk, ek = ('treekey', new), ('entkey', PARENT, NAME)
            if o.kind != 'ret':
                # it may give up on a forest that changes meanwhile, or that has no more ids
                ctx.ob('insert', w, new is None or there(I, o, last[0]) == 'Some' and not changes(evs) or seen_before(I, o, evs, tk) == 'Some' or wrong_sort(I, o, evs, None)
                       or any(e[1] == 'tree.remove' and there(I, o, e) == 'None' for e in evs), f'it panics: {pp(o.val)[:80]} after {show(evs)[:160]}')
                continue
            r = result(I, o)
            if isagg(r) and r[2] == 'Ok':
                v = proj(r, '0')
                ctx.ob('insert', w, new is not None and v == new, f'the new tree is {pp(v)[:80]}, not the one after {pp(new)[:80]}')
                t = m.get(tk)
                good = isagg(t) and t[2] == 'Tree' and proj(proj(t, '0'), 'parent') == parent and proj(proj(t, '0'), 'tod') == TOD
                ctx.ob('insert', w, good, f'the new tree becomes {pp(t)[:120]}')
                if parent != NONE:
                    t = m.get(ek)
                    good = isagg(t) and t[2] == 'TreeEnt' and proj(proj(t, '0'), 'tree_id') == new and proj(proj(t, '0'), 'name') == NAME
                    ctx.ob('insert', w, good, f'its entry in its parent becomes {pp(t)[:120]}')
                    ctx.ob('insert', w, seen_before(I, o, evs, ek) == 'None', 'it does not see whether the name was taken')
                ctx.ob('insert', w, set(m) <= {tk, ek}, f'it changes {[pp(k)[:60] for k in m if k not in (tk, ek)]}')
                ctx.ob('insert', w, all(went(o, e) != 'Err' for e in evs), 'it succeeds though something failed')
                seen.add('ok')
            elif code(r) == 'EEXIST':
                ctx.ob('insert', w, parent != NONE and seen_before(I, o, evs, ek) == 'Some', 'the name was not taken')
                ctx.ob('insert', w, m.get(ek, ('old', ek)) == ('old', ek), f'the entry of the other file system becomes {pp(m.get(ek))[:120]}')
                ctx.ob('insert', w, m.get(tk, ('gone',)) == ('gone',) and set(m) <= {tk, ek}, 'a tree stays that nothing names')
                seen.add('exists')
            else:
                blame(ctx, 'insert', w, r, evs)
                seen.add('err')
        ctx.ob('insert', w, seen == {'ok', 'err'} | ({'exists'} if parent != NONE else set()), f'it only knows {sorted(seen)}')


def unlinking(ctx):
    """A tree without children goes, with its entry in its parent; one that has any stays as it is."""
    w = F + '::unlink'
    PARENT = tid(('in', 'parent'))
    for parent, name in ((NONE, ('str', '')), (some(PARENT), ('in', 'name'))):
        I = base(ctx)
        I.hooks['core::str::contains'] = I.hooks['core::str::<impl str>::contains'] = lambda I, st, c: R(st, 0)
        I.hooks['core::str::is_empty'] = I.hooks['core::str::<impl str>::is_empty'] = lambda I, st, c, e=int(parent == NONE): R(st, e)
        st = St()
        seen = set()
        tk, ek = ('treekey', tid(ID)), ('entkey', PARENT, ('in', 'name'))
        for o in drive(ctx, I, w, [('ref', ('P', SELF), ()), parent, tid(ID), I.alloc(st, name), TXG], st):
            evs = ops(I, o)
            well(ctx, 'unlink', w, evs)
            m = replay(I, o, evs)
            if not ctx.ob('unlink', w, o.kind == 'ret', f'it panics: {pp(o.val)[:80]}'):
                continue
            r = result(I, o)
            nx = [e for e in evs if e[1] == 'next']
            # the keys of children begin at 1 (C17)
            asked = [e for e in nx if strip(e)[2:3] and any(names(strip(e), ('ents', tid(ID), n)) for n in (0, 1))]
            ctx.ob('unlink', w, len(asked) == 1 and asked == nx, f'it looks for children in {[pp(strip(e))[:120] for e in nx]}')
            if not asked:
                continue
            i = evs.index(asked[0])
            ctx.ob('unlink', w, not changes(evs[:i]), 'it changes something before it knows whether there are children')
            empty = {0: True, 1: False, 'None': True, 'Some': False}.get(o.st.facts.get(('discr', ('out', asked[0]))), {0: True, 1: False}.get(I.known(o.st, ('discr', ('out', asked[0])))))
            if isagg(r) and r[2] == 'Ok':
                ctx.ob('unlink', w, empty is True, 'it goes on though there are children')
                ctx.ob('unlink', w, m == ({tk: ('gone',)} if parent == NONE else {tk: ('gone',), ek: ('gone',)}), f'it leaves {[(pp(k)[:50], pp(v)[:50]) for k, v in m.items()]}')
                ctx.ob('unlink', w, all(went(o, e) != 'Err' for e in evs), 'it succeeds though something failed')
                seen.add('ok')
            elif code(r) == 'EBUSY':
                ctx.ob('unlink', w, empty is False and not changes(evs), 'it is refused though there are no children, or changed something before')
                seen.add('busy')
            else:
                blame(ctx, 'unlink', w, r, evs)
                seen.add('err')
        ctx.ob('unlink', w, seen == {'ok', 'busy', 'err'}, f'it only knows {sorted(seen)}')


def names(v, x):
    return v == x or isinstance(v, tuple) and any(names(y, x) for y in v)


def updating(ctx):
    """A tree that is written anew keeps its parent; one that is not there is not made."""
    w = F + '::update_tree'
    I = base(ctx)
    TOD = ('in', 'tod')
    tk = ('treekey', tid(ID))
    seen = set()
    for o in drive(ctx, I, w, [('ref', ('P', SELF), ()), tid(ID), TOD, TXG]):
        evs = ops(I, o)
        well(ctx, 'update', w, evs)
        m = replay(I, o, evs)
        if o.kind != 'ret':
            ctx.ob('update', w, wrong_sort(I, o, evs, None), f'it panics: {pp(o.val)[:80]}')
            continue
        r = result(I, o)
        g = [e for e in evs if e[1] == 'tree.get']
        if isagg(r) and r[2] == 'Ok':
            t = m.get(tk)
            par = strip(('.', ('.', ('.', value(g[0]), 'v:Tree'), '0'), 'parent')) if g else None
            good = isagg(t) and t[2] == 'Tree' and proj(proj(t, '0'), 'tod') == TOD and proj(proj(t, '0'), 'parent') == par
            ctx.ob('update', w, good and set(m) == {tk}, f'the tree becomes {pp(t)[:140]}')
            ctx.ob('update', w, seen_before(I, o, evs, tk) == 'Some', 'a tree that is not there is made')
            seen.add('ok')
        elif code(r) == 'ENOENT':
            ctx.ob('update', w, not m and seen_before(I, o, evs, tk) == 'None', 'a tree that is there is denied, or changed')
            seen.add('none')
        else:
            blame(ctx, 'update', w, r, evs)
            seen.add('err')
    ctx.ob('update', w, seen == {'ok', 'none', 'err'}, f'it only knows {sorted(seen)}')


def looking(ctx):
    """A path is followed from the root, a name at a time: each is looked for in what the one before stands for."""
    w = F + '::lookup'
    ROOT = tid(0)
    n = 0
    for names_ in ((), ('a',), ('a', 'b'), ('a', 'b', 'c')):
        cs = [('in', x) for x in names_]
        I = base(ctx)
        I.unroll = 8
        for p in ('core::str::', 'core::str::<impl str>::'):
            I.hooks[p + 'is_empty'] = lambda I, st, c: R(st, int(not cs))
            I.hooks[p + 'split'] = lambda I, st, c: R(st, iter_of(I, st, ('agg', 'array', '', tuple((('[]', i), x) for i, x in enumerate(cs))), 'std::vec::Vec<T>'))
        st = St()
        seen = set()
        for o in drive(ctx, I, w, [('ref', ('P', SELF), ()), I.alloc(st, ('in', 'path'))], st):
            n += 1
            evs = ops(I, o)
            well(ctx, 'lookup', w, evs)
            at, good = ROOT, True
            for i, e in enumerate(evs):
                want = ('treekey', ROOT) if not cs else ('entkey', at, cs[i]) if i < len(cs) else None
                if not ctx.ob('lookup', w, e[1] == 'tree.get' and strip(e[3]) == want, f'name {i} of {len(cs)} is looked for as {pp(strip(e))[:140]}'):
                    good = False
                    break
                at = strip(('.', ('.', ('.', value(e), 'v:TreeEnt'), '0'), 'tree_id'))
            if not good:
                continue
            if o.kind != 'ret':
                ctx.ob('lookup', w, wrong_sort(I, o, evs, None) or clash(I, o, evs, cs), f'it panics: {pp(o.val)[:100]}')
                continue
            r = result(I, o)
            last = evs[-1] if evs else None
            if last is None or went(o, last) == 'Err':
                ctx.ob('lookup', w, last is not None and isagg(r) and r[2] == 'Err', 'an error is lost')
                blame(ctx, 'lookup', w, r, evs)
                seen.add('err')
                continue
            found = there(I, o, last) == 'Some'
            if not ctx.ob('lookup', w, isagg(r) and r[2] == 'Ok', f'it fails with {pp(r)[:80]}'):
                continue
            v = proj(r, '0')
            par, me = (x[1] for x in v[3]) if isagg(v) else (None, None)
            if not found:
                ctx.ob('lookup', w, me == NONE, f'name {len(evs) - 1} of {len(cs)} is not there, and the path is {pp(v)[:100]}')
                seen.add('none')
                continue
            before = NONE if not cs else some(ROOT if len(cs) == 1 else strip(('.', ('.', ('.', value(evs[-2]), 'v:TreeEnt'), '0'), 'tree_id')) if len(evs) > 1 else None)
            ctx.ob('lookup', w, len(evs) == max(len(cs), 1), f'it stops after {len(evs)} of {len(cs)} names')
            ctx.ob('lookup', w, not clash(I, o, evs, cs), 'another name is taken for this one')
            ctx.ob('lookup', w, me == some(at if cs else ROOT) and par == before, f'a path of {len(cs)} is {pp(me)[:80]} in {pp(par)[:80]}')
            seen.add('some')
        ctx.ob('lookup', w, seen == {'err', 'none', 'some'}, f'for a path of {len(cs)} it only knows {sorted(seen)}')
    ctx.floor('lookup', 'paths', n, 10)


def clash(I, o, evs, cs):
    """The name of an entry that was found is known not to be the one looked for."""
    for e, c in zip(evs, cs):
        for x in (e, strip(e)):
            nm = ('.', ('.', ('.', value(x), 'v:TreeEnt'), '0'), 'name')
            for a, b in ((nm, c), (c, nm)):
                if I.known(o.st, eq(a, b)) == 0:
                    return True
    return False


def parents(ctx):
    w = F + '::lookup_parent'
    I = base(ctx)
    seen = set()
    for o in drive(ctx, I, w, [('ref', ('P', SELF), ()), tid(ID)]):
        evs = ops(I, o)
        if not ctx.ob('parent', w, len(evs) == 1 and evs[0][1] == 'tree.get' and strip(evs[0][3]) == ('treekey', tid(ID)), f'it does {show(evs)[:120]}'):
            continue
        well(ctx, 'parent', w, evs)
        e = evs[0]
        if o.kind != 'ret':
            ctx.ob('parent', w, wrong_sort(I, o, evs, 'Tree'), f'it panics: {pp(o.val)[:80]}')
            continue
        r = result(I, o)
        if went(o, e) == 'Err':
            blame(ctx, 'parent', w, r, evs)
            seen.add('err')
        elif there(I, o, e) == 'None':
            ctx.ob('parent', w, isagg(r) and r[2] == 'Ok' and proj(r, '0') == NONE, f'a tree that is not there has the parent {pp(r)[:80]}')
            seen.add('none')
        else:
            v = proj(r, '0') if isagg(r) and r[2] == 'Ok' else None
            ctx.ob('parent', w, v == strip(('.', ('.', ('.', value(e), 'v:Tree'), '0'), 'parent')), f'the parent of a tree is {pp(r)[:140]}')
            seen.add('some')
    ctx.ob('parent', w, seen == {'err', 'none', 'some'}, f'it only knows {sorted(seen)}')


K, VAL = ('in', 'key'), ('in', 'value')
ADAPTED = ('try_filter_map', 'filter_map', 'map_ok', 'map', 'map_err')


def adapters(I):
    for n in ADAPTED:
        for t in ('futures::TryStreamExt::', 'futures::StreamExt::'):
            I.hooks[t + n] = lambda I, st, c, n=n: R(st, ('adapted', n, I.deep(st, c.args[0]), c.args[1]))
    for n in ('boxed', 'fuse'):
        I.hooks['futures::StreamExt::' + n] = lambda I, st, c: R(st, c.args[0])
    return I


def fed(ctx, I, st, s, x):
    """What a stream makes of an item x of the range it is made of: (state, item), where an item is a Result, or ('skip',) or ('end',), or ('panic', why)."""
    s = strip(I.deep(st, s))
    if s[:2] == ('op', 'tree.range'):
        return [(st, x)]
    if s[:1] == ('adapted',):
        res = []
        for st, y in fed(ctx, I, st, s[2], x):
            good = isagg(y) and y[2] == 'Ok'
            if not isagg(y) or s[1] in ('map_ok', 'try_filter_map') and not good or s[1] == 'map_err' and good:
                res.append((st, y))
                continue
            whole = s[1] in ('map', 'filter_map')
            for o in I.apply(st.copy(), s[3], [y if whole else proj(y, '0')]):
                os = I.run_future(o.st, o.val) if o.kind == 'ret' and 'filter' in s[1] else [o]
                for o in os:
                    if o.kind != 'ret':
                        res.append((o.st, ('panic', o.val)))
                        continue
                    v = I.deep(o.st, o.val)
                    if s[1] == 'filter_map':
                        res.append((o.st, ('skip',) if v == NONE else proj(v, '0')))
                    elif s[1] == 'try_filter_map':
                        w = proj(v, '0')
                        res.append((o.st, v if v[2] == 'Err' else ('skip',) if w == NONE else ok(proj(w, '0'))))
                    else:
                        res.append((o.st, v if s[1] == 'map' else ok(v) if s[1] == 'map_ok' else err(v)))
        return res
    if isagg(s):
        at = '::' + s[1].split('::')[-2] + '::'
        bs = [b for b in ctx.P.bodies.values() if b['path'].endswith('::poll_next') and 'database' in b['path'] and at in b['path']]
        if len(bs) == 1:
            f = [v for k, v in s[3] if isinstance(v, tuple) and (v[:2] == ('op', 'tree.range') or v[:1] == ('adapted',))]
            assert len(f) == 1, 'a stream of several'
            res = []
            for st, y in fed(ctx, I, st, f[0], x):
                item = ('agg', 'std::task::Poll', 'Ready', (('0', NONE if y == ('end',) else some(y)),))
                def poll(I, st, c, item=item, first=[0]):
                    return R(st, item)
                I.hooks['futures::Stream::poll_next'] = poll
                for o in I.run(bs[0], [('agg', 'std::pin::Pin', '', (('__pointer', I.alloc(st, s)),)), ('in', 'cx')], st):
                    v = I.deep(o.st, o.val) if o.kind == 'ret' else None
                    if v is None:
                        res.append((o.st, ('panic', o.val)))
                        continue
                    v = proj(v, '0') if isagg(v) and v[2] == 'Ready' else None
                    res.append((o.st, ('end',) if v == NONE else proj(v, '0')))
            return res
    raise ValueError('not a stream that is known: ' + pp(s)[:120])


def stream(ctx, rule, name, args, span, want):
    w = F + '::' + name
    I = adapters(base(ctx))
    seen = set()
    for o in I.run(ctx.P.fn(w), [('ref', ('P', SELF), ()), *args], St()):
        if not ctx.ob(rule, w, o.kind == 'ret', 'it panics'):
            continue
        s = strip(I.deep(o.st, o.val))
        x = [t for t in subterms(s) if isinstance(t, tuple) and t[:2] == ('op', 'tree.range')]
        ctx.ob(rule, w, len(set(x)) == 1 and strip(x[0][2]) == TREE and strip(x[0][3]) == span, f'it goes over {[pp(t)[:100] for t in x]}')
        for st, y in fed(ctx, I, o.st.copy(), s, ok(('agg', 'tuple', '', (('0', K), ('1', VAL))))):
            k = st.facts.get(('discr', VAL)) or {0: 'Tree', 1: 'TreeEnt'}.get(I.known(st, ('discr', VAL)))
            seen.add(k)
            ctx.ob(rule, w, k is not None and want(I, k, y), f'of {k} at a key it makes {pp(strip(y))[:160]}')
        e = err(('in', 'error'))
        for st, y in fed(ctx, I, o.st.copy(), s, e):
            ctx.ob(rule, w, strip(y) == e, f'an error becomes {pp(y)[:80]}')
        for st, y in fed(ctx, I, o.st.copy(), s, ('end',)):
            ctx.ob(rule, w, y == ('end',), 'it does not end')
        ctx.used(I, [o])
    ctx.ob(rule, w, seen >= {'Tree', 'TreeEnt'}, f'it only knows {sorted(map(str, seen))}')


def listing(ctx):
    """The children of a file system from a cookie on: each with the cookie from which the next goes on."""
    def want(I, k, y):
        if k == 'Tree':
            return isinstance(y, tuple) and y[0] == 'panic'
        y = strip(y)
        v = proj(y, '0') if isagg(y) and y[2] == 'Ok' else None
        return isagg(v) and v[3][0][1] == ('.', ('.', VAL, 'v:TreeEnt'), '0') and v[3][1][1] == add(('.', K, 'offset'), 1)
    stream(ctx, 'list', 'readdir', [tid(ID), ('in', 'offs')], ('ents', tid(ID), ('in', 'offs')), want)


def everything(ctx):
    """All trees, and only trees."""
    def want(I, k, y):
        if k == 'TreeEnt':
            return y == ('skip',)
        y = strip(y)
        return isagg(y) and y[2] == 'Ok' and proj(y, '0') == ('.', K, 'tree_id')
    stream(ctx, 'all', 'trees', [], ('agg', 'std::ops::RangeFull', '', ()), want)
