"""The program under analysis: MIR bodies, types and impls, as dumped by the compiler driver."""
import json
import re


class Missing(Exception):
    """Something a rule is anchored on is no longer in the source."""


class Prog:
    def __init__(self, files):
        self.bodies, self.adts, self.impls = {}, {}, []
        self.by_path = {}
        self.crate_of = {}
        for f in files:
            with open(f) as fh:
                d = json.load(fh)
            for b in d['bodies']:
                b['crate'] = d['crate']
                self.bodies[b['key']] = b
                if b.get('path'):
                    self.by_path.setdefault(b['path'], []).append(b)
            for a in d['adts']:
                p = a['path']
                if a['local']:
                    self.adts[p] = a
                else:
                    self.adts.setdefault(p, a)
            for i in d['impls']:
                i['crate'] = d['crate']
                self.impls.append(i)
        self._cfg = {}
        self.monos = {}
        self._drop = None

    def fn(self, path):
        """The one function body with this path, closures excluded."""
        bs = [b for b in self.by_path.get(path, []) if '#promoted' not in b['key']]
        if len(bs) != 1:
            raise Missing(f'{len(bs)} functions named {path}')
        return bs[0]

    def fns(self, pred):
        return [b for b in self.bodies.values()
                if b['kind'] in ('Fn', 'AssocFn') and '#promoted' not in b['key'] and pred(b)]

    def method(self, self_re, name, trait=None):
        """The method `name` of the type matching self_re (trait: None for inherent, else a regex)."""
        out = [b for b in self.fns(lambda b: b.get('name') == name and b.get('self') and re.fullmatch(self_re, strip_generics(b['self'])))
               if (trait is None and not b.get('trait')) or (trait is not None and b.get('trait') and re.search(trait, b['trait']))]
        if len(out) != 1:
            raise Missing(f'{len(out)} methods {self_re}::{name}' + (f' of {trait}' if trait else ''))
        return out[0]

    def adt(self, path):
        a = self.adts.get(path)
        if a is None:
            raise Missing(f'type {path}')
        return a

    def by_name(self, name):
        if not hasattr(self, '_names'):
            self._names = {}
            for b in self.bodies.values():
                if b['kind'] in ('Fn', 'AssocFn') and '#promoted' not in b['key']:
                    self._names.setdefault(b.get('name'), []).append(b)
        return self._names.get(name, [])

    def cfg(self, b):
        c = self._cfg.get(b['key'])
        if c is None:
            c = self._cfg[b['key']] = Cfg(b)
        return c

    def drop_impl(self, path):
        """The body of the Drop impl of the type at path, if it has one in the analysed crates."""
        if self._drop is None:
            self._drop = {}
            for b in self.bodies.values():
                if b.get('name') == 'drop' and b.get('trait') and strip_generics(b['trait']).endswith('Drop'):
                    self._drop[strip_generics(b['self'])] = b
        return self._drop.get(strip_generics(path))


def strip_generics(p):
    """A path without its generic arguments: a::B::<T>::c<U> -> a::B::c."""
    out = []
    d = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == '<':
            if d == 0 and out[-2:] == [':', ':']:
                del out[-2:]
            d += 1
        elif c == '>' and not (i and p[i - 1] == '-'):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


def successors(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[4]]
    if k == 'yield':
        return [t[2]]
    return []


class Cfg:
    """Control flow of a body, cleanup paths left out."""

    def __init__(self, b):
        self.b = b
        self.succ = {}
        st = [0]
        order = []
        while st:
            n = st.pop()
            if n in self.succ:
                continue
            self.succ[n] = successors(b['blocks'][n]['t'])
            t = b['blocks'][n]['t']
            if n == 0 and t[0] == 'switch' and any(b['blocks'][x]['t'][0] == 'assert' and 'ResumedAfter' in str(b['blocks'][x]['t'][3]) for x in self.succ[0]):
                # A coroutine is followed from its start through its awaits; where it resumes is not another way into its loops.
                self.succ[0] = [x for v, x in t[2] if v == '0'] or self.succ[0]
            order.append(n)
            st.extend(self.succ[n])
        self.pred = {n: [] for n in self.succ}
        for n, ss in self.succ.items():
            for s in ss:
                self.pred[s].append(n)
        # reverse postorder
        seen, post = set(), []

        def dfs(r):
            stack = [(r, iter(self.succ[r]))]
            seen.add(r)
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succ[s])))
                        break
                else:
                    post.append(n)
                    stack.pop()
        dfs(0)
        self.rpo = post[::-1]
        idx = {n: i for i, n in enumerate(self.rpo)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for n in self.rpo[1:]:
                ps = [p for p in self.pred[n] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    a, c = p, new
                    while a != c:
                        while idx[a] > idx[c]:
                            a = idom[a]
                        while idx[c] > idx[a]:
                            c = idom[c]
                    new = a
                if idom.get(n) != new:
                    idom[n] = new
                    ch = True
        self.idom = idom
        self.loops = {}
        for n, ss in self.succ.items():
            for h in ss:
                if self.dominates(h, n):
                    body = self.loops.setdefault(h, {h})
                    w = [n]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(self.pred[x])
        for h, body in list(self.loops.items()):
            # Blocks that can only diverge from inside the loop belong to its exits; nothing to do.
            pass

    def dominates(self, a, n):
        while True:
            if n == a:
                return True
            p = self.idom[n]
            if p == n:
                return False
            n = p
