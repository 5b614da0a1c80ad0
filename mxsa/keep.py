"""Objects that a function makes and fills have to go somewhere: what is stored into them under a condition is lost when the object is
dropped. Paths are told apart by local flags and by conditions that a function tests more than once."""
import json
from .prog import walk

PTR = ('std::shared_ptr<', 'std::unique_ptr<')
ASSIGN = ('=', '+=', '-=', '*=', '/=', '|=', '&=', '^=')
LIMIT = 512


class TooMany(Exception):
    pass


def strip(n):
    while n and (n[0] == 'cast' or n[0] == 'k' and len(n[4] or []) == 1 and len(n) > 5 and any(x in (n[5] or '') for x in ('copy', 'move', 'tmp'))):
        n = n[-1] if n[0] == 'cast' else n[4][0]
    return n


class Keep:
    def __init__(self, P, f, kinds, only=None):
        self.P, self.f, self.kinds, self.only = P, f, kinds, only
        self.names = {}
        self.obj = {}          # variable -> (name, type, depth, shared?)
        self.alias = {}        # variable -> object variable
        self.stores = {}       # (vid, line) -> name
        self.lost = {}         # (vid, line) -> facts
        self.level = 0
        self.exits = []
        self.flags = set()
        n = {}

        def count(x):
            if x[0] == 'if':
                self.atoms(x[3], n)
        walk(f.body, count)
        self.atomic = {k for k, v in n.items() if v > 1}
        self.fixed = set()

    def atoms(self, c, n):
        c = strip(c)
        if not c:
            return
        if c[0] == 'u' and c[2] == '!':
            return self.atoms(c[3], n)
        if c[0] == 'b' and c[2] in ('&&', '||'):
            self.atoms(c[3], n)
            return self.atoms(c[4], n)
        k = self.key(c)
        n[k] = n.get(k, 0) + 1

    def key(self, c):
        def go(x):
            if not isinstance(x, list):
                return x
            if x and x[0] == 'cast':
                return go(x[-1])
            return [go(y) for i, y in enumerate(x) if i != 1] if x and isinstance(x[0], str) else [go(y) for y in x]
        return json.dumps(go(c))

    # ---- states: {facts: pending}
    def run(self):
        st = self.stmt(self.f.body, {frozenset(): frozenset()})
        self.leave(st, 0)
        return self

    def leave(self, st, level):
        for facts, pend in st.items():
            for p in pend:
                if self.obj[p[0]][2] >= level:
                    self.lost.setdefault(p, facts)

    def drop(self, st, level):
        """objects of an inner block end with it"""
        self.leave(st, level)
        return self.norm({f: frozenset(p for p in pend if self.obj[p[0]][2] < level) for f, pend in st.items()}.items())

    def norm(self, items):
        out = {}
        for f, p in items:
            out[f] = out.get(f, frozenset()) | p
        if len(out) > LIMIT:
            raise TooMany
        return out

    def merge(self, *sts):
        return self.norm([x for s in sts for x in s.items()])

    def stmt(self, n, st):
        if not isinstance(n, list) or not n or not st:
            return st
        k = n[0]
        if not isinstance(k, str):
            for x in n:
                st = self.stmt(x, st)
            return st
        if k == '{':
            self.level += 1
            for x in n[2:]:
                st = self.stmt(x, st)
            st = self.drop(st, self.level)
            self.level -= 1
            return st
        if k == 'd':
            for d in n[2]:
                st = self.decl(d, st)
            return st
        if k == 'if':
            st = self.stmt(n[2], st)
            st = self.expr(n[3], st)
            yes, no = self.learn(n[3], st, True), self.learn(n[3], st, False)
            self.level += 1
            yes = self.drop(self.stmt(n[4], yes), self.level)
            no = self.drop(self.stmt(n[5], no), self.level) if len(n) > 5 else no
            self.level -= 1
            return self.merge(yes, no)
        if k in ('for', 'while', 'do', 'rf', 'sw'):
            self.level += 1
            self.exits.append(({}, {}, k))
            if k == 'for':
                st = self.stmt(n[2], st)
                st = self.expr(n[3], st)
                body, cond, inc = n[5], n[3], n[4]
            elif k == 'while':
                st = self.expr(n[2], st)
                body, cond, inc = n[3], n[2], None
            elif k == 'do':
                body, cond, inc = n[2], None, n[3]
            elif k == 'rf':
                st = self.expr(n[5], st)
                body, cond, inc = n[6], None, None
            else:
                body, cond, inc = n[-1], None, None
                st = self.expr(n[2] if isinstance(n[2], list) else n[3], st)
            if k == 'sw':
                out = self.switch(body, st)
            else:
                out = {} if k == 'do' else self.none(st, body)
                cur = st
                for _ in range(3):
                    b = self.forget(cur, body)
                    b = self.stmt(body, b)
                    b = self.merge(b, self.exits[-1][1])
                    if inc:
                        b = self.expr(inc, b)
                    new = self.merge(cur, b)
                    out = self.merge(out, b)
                    if new == cur:
                        break
                    cur = new
            br = self.exits.pop()[0]
            out = self.merge(out, br)
            out = self.drop(out, self.level)
            self.level -= 1
            return out
        if k == 'ret':
            if n[2] is not None:
                st = self.use(n[2], st)
            self.leave(st, 0)
            return {}
        if k == 'throw':
            return {}
        if k in ('brk', 'cnt'):
            for e in reversed(self.exits):
                if k == 'brk' or e[2] != 'sw':
                    i = 0 if k == 'brk' else 1
                    new = self.merge(e[i], st)
                    e[i].clear()
                    e[i].update(new)
                    break
            return {}
        if k == 'try':
            before = st
            st = self.stmt(n[2], st)
            for h in n[3] or []:
                st = self.merge(st, self.stmt(h[2], self.merge(before, st)))
            return st
        if k in ('case', 'dflt'):
            return self.stmt(n[-1], st)
        return self.expr(n, st)

    def none(self, st, body):
        """the loop has nothing to go through: what it would have taken along is left out with it"""
        for v in self.obj:
            hit = []

            def look(n):
                for x in (n[4] or []) if n[0] in ('c', 'k') else [n[4]] if n[0] == 'b' and n[2] == '=' else []:
                    if self.root(x) == (v, True):
                        hit.append(1)
            walk(body, look)
            if hit:
                st = self.norm([(f, frozenset(x for x in p if x[0] != v)) for f, p in st.items()])
        return st

    def switch(self, body, st):
        cur, out = {}, {}
        hasdef = False
        for x in body[2:] if body and body[0] == '{' else [body]:
            while x and x[0] in ('case', 'dflt'):
                hasdef = hasdef or x[0] == 'dflt'
                cur = self.merge(cur, st)
                x = x[-1]
            cur = self.stmt(x, cur)
        out = self.merge(out, cur)
        return out if hasdef else self.merge(out, st)

    def forget(self, st, body):
        """what a pass of the loop may have changed"""
        names = set()

        def look(n):
            if n[0] == 'b' and n[2] in ASSIGN and strip(n[3])[0] == 'v':
                names.add(strip(n[3])[2])
        walk(body, look)
        return st if not names else self.norm([(frozenset(f for f in facts if f[0] not in names or f[0] in self.flags), p) for facts, p in st.items()])

    # ---- conditions
    def learn(self, c, st, yes):
        c = strip(c)
        if not c:
            return st
        if c[0] == 'u' and c[2] == '!':
            return self.learn(c[3], st, not yes)
        if c[0] == 'b' and c[2] in ('&&', '||'):
            if (c[2] == '&&') == yes:
                return self.learn(c[4], self.learn(c[3], st, yes), yes)
            return self.merge(self.learn(c[3], st, yes), self.learn(c[4], self.learn(c[3], st, not yes), yes))
        if c[0] == 'bo':
            return st if c[2] == yes else {}
        r, whole = self.root(c)
        if r is not None:
            return self.norm([(f, frozenset(x for x in p if x[0] != r)) for f, p in st.items()])       # asks the object itself
        v = c[2] if c[0] == 'v' else self.key(c)
        if c[0] == 'c' and c[3] is not None and c[3][0] == 'v' and self.P.q(c[2]).endswith('::empty'):
            v = ('empty', c[3][2])
        elif c[0] != 'v' and v not in self.atomic:
            return st
        return self.norm([(facts | {(v, yes)}, p) for facts, p in st.items() if (v, not yes) not in facts])

    # ---- expressions
    def decl(self, d, st):
        vid, name, ty, init, fl = d
        st = self.set(vid, init, st, True)
        i = strip(init) if init is not None else None
        if ty.startswith('std::vector<') and (i is None or i[0] == 'k' and not i[4]):
            st = self.norm([(f | {(('empty', vid), True)}, p) for f, p in st.items()])
        root, whole = self.root(i) if i else (None, False)
        if root is not None and (ty.endswith('&') or ty.endswith('*') or ty.startswith(PTR) or ty.startswith('std::optional')):
            self.alias[vid] = root
            return self.expr(init, st)
        if i is not None:
            st = self.use(init, st)
        fresh = i is None or i[0] == 'c' and not i[4] and i[3] is None and 'make' in self.P.q(i[2]) or i[0] == 'k' and not i[4] or i[0] == 'il' and not i[3]
        if fresh and 's' not in str(fl) and any(k(ty) for k in self.kinds):
            self.names[vid] = name
        if vid in self.names and self.only in (None, vid):
            self.obj[vid] = (name, ty, self.level, ty.startswith(PTR))
            st = self.clear(vid, st, True)
        return st

    def set(self, vid, init, st, first=False):
        x = strip(init) if init is not None else None
        val = x[2] if x and x[0] == 'bo' else None
        out = []
        for facts, p in st.items():
            facts = frozenset(f for f in facts if f[0] not in (vid, ('empty', vid)) and not (isinstance(f[0], str) and '["v", %s,' % vid in f[0]))
            if val is not None:
                facts |= {(vid, val)}
                self.flags.add(vid)
            out.append((facts, p))
        return self.norm(out)

    def clear(self, vid, st, gone=False):
        """the object went somewhere (a pointer to it stays good), or is a new one"""
        out = []
        for f, p in st.items():
            if gone:
                f = frozenset(x for x in f if x[0] != ('att', vid))
            elif self.obj[vid][3]:
                f = f | {(('att', vid), True)}
            out.append((f, frozenset(x for x in p if x[0] != vid)))
        return self.norm(out)

    def root(self, n):
        """(object an expression is rooted in, whether it is the whole object)"""
        whole = True
        while True:
            n = strip(n)
            if not n:
                return None, False
            if n[0] == 'v':
                v = n[2]
                if v in self.obj:
                    return v, whole
                if v in self.alias:
                    return self.alias[v], False
                return None, False
            if n[0] == 'm':
                n, whole = n[2], False
            elif n[0] == 'u' and n[2] in ('*', '&'):
                n = n[3]
            elif n[0] == 'c' and n[3] is not None:
                q = self.P.q(n[2])
                if not (q.startswith('std::') and q.rsplit('::', 1)[-1] in ('operator->', 'operator*', 'get', 'value')):
                    whole = False
                n = n[3]
            else:
                return None, False

    def use(self, n, st):
        """n is taken over by somebody"""
        x = strip(n)
        r, whole = self.root(x)
        if r is not None and (whole or not self.obj[r][3] and x[0] != 'c'):
            return self.clear(r, st)
        if x and x[0] in ('k', 'il', 'cond') or x and x[0] == 'c' and x[3] is None:
            for y in (x[4] or []) if x[0] in ('k', 'c') else x[3] or [] if x[0] == 'il' else x[2:]:
                if isinstance(y, list):
                    st = self.use(y, st)
            return st
        return self.expr(n, st)

    def store(self, r, line, st):
        if self.level <= self.obj[r][2]:
            return st
        self.stores[(r, line)] = self.obj[r][0]
        return self.norm([(f, p if (('att', r), True) in f else p | {(r, line)}) for f, p in st.items()])

    def expr(self, n, st):
        if not isinstance(n, list) or not n or not st:
            return st
        if not isinstance(n[0], str):
            for x in n:
                st = self.expr(x, st)
            return st
        if n[0] == 'b' and n[2] in ASSIGN:
            st = self.use(n[4], st)
            lhs = strip(n[3])
            if lhs and lhs[0] == 'v':
                st = self.set(lhs[2], n[4] if n[2] == '=' else None, st)
            return self.assign(lhs, n[1], st)
        if n[0] == 'lam':
            for v in list(self.obj):
                st = self.clear(v, st) if mentions(n, v) or any(a == v and mentions(n, w) for w, a in self.alias.items()) else st
            return st
        if n[0] == 'b' and n[2] in ('&&', '||'):
            st = self.expr(n[3], st)
            return self.merge(self.expr(n[4], self.learn(n[3], st, n[2] == '&&')), self.learn(n[3], st, n[2] != '&&'))
        if n[0] == 'cond':
            st = self.expr(n[2], st)
            return self.merge(self.expr(n[3], self.learn(n[2], st, True)), self.expr(n[4], self.learn(n[2], st, False)))
        if n[0] == 'c':
            inf = self.P.info.get(n[2])
            q = self.P.q(n[2])
            obj, args = n[3], n[4] or []
            if obj is not None:
                st = self.expr(obj, st)
            if q.rsplit('::', 1)[-1].startswith('operator') and args and q.rsplit('::', 1)[-1] == 'operator=':
                st = self.use(args[-1], st)
                lhs = obj if obj is not None else args[0]
                return self.assign(strip(lhs), n[1], st)
            if obj is not None and obj[0] == 'v' and inf is not None and 'c' not in inf[4]:
                st = self.norm([(frozenset(x for x in f if x[0] != ('empty', obj[2])) | ({(('empty', obj[2]), False)} if q.endswith('_back') else set()), p) for f, p in st.items()])
            r, whole = self.root(obj) if obj is not None else (None, False)
            std = q.startswith('std::')
            pts = inf[3] if inf else []
            for i, a in enumerate(args):
                t = pts[i] if i < len(pts) else ''
                ar, aw = self.root(a)
                if ar is not None and not std and ar != r and not self.obj[ar][3] and t.endswith('&') and not t.startswith('const ') and '&&' not in t:
                    st = self.store(ar, n[1], st)          # somebody fills it
                elif ar is not None and self.obj[ar][3] and not aw:
                    if not std and (t.endswith('&') and not t.startswith('const ') or t.endswith('*')) and ar != r:
                        st = self.store(ar, n[1], st)
                    else:
                        st = self.expr(a, st)
                elif ar is not None and not std and self.obj[ar][3] and not any(x in t for x in ('shared_ptr', 'unique_ptr')) and '&' in t and 'T' not in t:
                    st = self.store(ar, n[1], st) if not t.startswith('const ') else st
                elif ar is not None and q.rsplit('::', 1)[-1] in ('operator==', 'operator!='):
                    pass
                else:
                    st = self.use(a, st)
            if r is not None and inf is not None and 'c' not in inf[4] and (args or inf[2] == 'void') and not (q.startswith('std::') and q.rsplit('::', 1)[-1] in ('operator->', 'operator*', 'get')):
                st = self.store(r, n[1], st)
            return st
        if n[0] == 'k':
            for a in n[4] or []:
                st = self.use(a, st)
            return st
        if n[0] == 'u' and n[2] in ('++', '--'):
            x = strip(n[3])
            return self.assign(x, n[1], st)
        for x in n[2:]:
            if isinstance(x, list):
                st = self.expr(x, st)
        return st

    def assign(self, lhs, line, st):
        r, whole = self.root(lhs)
        if r is None:
            return st
        if whole and lhs[0] == 'v':
            return self.clear(r, st, True)
        return self.store(r, line, st)


def mentions(n, v):
    hit = []
    walk(n, lambda x: hit.append(1) if x[0] == 'v' and x[2] == v else None)
    return bool(hit)


def lost(P, f, kinds):
    """stores of a function into objects that it makes: [(line, name, type, facts of a path on which the object is dropped or None)]"""
    first = Keep(P, f, kinds, -1)
    try:
        first.run()
    except TooMany:
        first = None
    out, many = [], 0
    for vid in first.names if first else ():
        K = Keep(P, f, kinds, vid)
        try:
            K.run()
        except TooMany:
            many += 1
            continue
        for s in sorted(K.stores, key=lambda s: s[1]):
            out.append((s[1], K.obj[s[0]][0], K.obj[s[0]][1], K.lost.get(s)))
    return out, many + (first is None)


class Once(Keep):
    """an element that is added a second time, or added to the collection that it was taken from"""
    def __init__(self, P, f, only):
        Keep.__init__(self, P, f, [], only)
        self.src = {}
        self.added = {}        # (line, name) -> why it is wrong, or None

        def look(n):
            if n[0] == 'rf' and n[2] == only:
                self.src[id(n[6])] = self.coll(n[5])
        walk(f.body, look)

    def stmt(self, n, st):
        if isinstance(n, list) and id(n) in self.src:       # each pass has its own element
            c = self.src[id(n)]
            st = self.norm([(frozenset(x for x in f if x[0] not in (('in', self.only), ('from', self.only))) | ({(('from', self.only), c)} if c else set()), p) for f, p in st.items()])
        return Keep.stmt(self, n, st)

    def coll(self, n):
        """(owner, name) of O.getNSet(), and of an element of it"""
        n = strip(n)
        while n and n[0] == 'c' and n[3] is not None:
            q = self.P.q(n[2]).rsplit('::', 1)[-1]
            if q.startswith('get') and q.endswith('Set') and len(q) > 6:
                return self.key(n[3]), q[3:-3]
            if q not in ('front', 'back', 'at', 'operator[]', 'operator*', 'begin', 'cbegin'):
                return None
            n = strip(n[3])
        if n and n[0] == 'u' and n[2] == '*':
            return self.coll(n[3])
        return None

    def origin(self, vid, init, st):
        c = self.coll(init) if init is not None else None
        return self.norm([(frozenset(x for x in f if x[0] not in (('in', vid), ('from', vid))) | ({(('from', vid), c)} if c else set()), p) for f, p in st.items()])

    def decl(self, d, st):
        vid, name, ty, init, fl = d
        if vid == self.only:
            self.names[vid] = name
        st = Keep.decl(self, d, st)
        return self.origin(vid, init, st) if vid == self.only else st

    def assign(self, lhs, line, st):
        return st

    def store(self, r, line, st):
        return st

    def expr(self, n, st):
        if not isinstance(n, list) or not n or not st:
            return st
        if n[0] == 'b' and n[2] == '=' or n[0] == 'c' and self.P.q(n[2]).endswith('::operator=') and n[4]:
            lhs, rhs = (n[3], n[4]) if n[0] == 'b' else (n[3] if n[3] is not None else n[4][0], n[4][-1])
            lhs = strip(lhs)
            if lhs and lhs[0] == 'v' and lhs[2] == self.only:
                return self.origin(self.only, rhs, Keep.expr(self, n, st))
        st = Keep.expr(self, n, st)
        if n[0] == 'c' and n[3] is not None and len(n[4] or []) == 1:
            x = strip(n[4][0])
            if x and x[0] == 'c' and self.P.q(x[2]) == 'std::move' and x[4]:
                x = strip(x[4][0])
            nm = self.P.q(n[2]).rsplit('::', 1)[-1]
            if x and x[0] == 'v' and x[2] == self.only and adds(self.P, n):
                why = None
                o = (self.key(n[3]), nm[3:])
                out = []
                for f, p in st.items():
                    if (('in', x[2]), True) in f:
                        why = why or 'was added before'
                    if (('from', x[2]), o) in f:
                        why = why or 'stands there already'
                    out.append((f | {(('in', x[2]), True)}, p))
                k = (n[1], x[3] if len(x) > 3 else '')
                self.added[k] = self.added.get(k) or why
                st = self.norm(out)
        return st


def twice(P, f):
    """[(line, name, what is wrong or None)] for the elements a function adds, and how often it gave up"""
    vs, out, many = {}, {}, 0

    def look(n):
        if n[0] == 'c' and n[3] is not None and len(n[4] or []) == 1 and adds(P, n):
            x = strip(n[4][0])
            if x and x[0] == 'c' and P.q(x[2]) == 'std::move' and x[4]:
                x = strip(x[4][0])
            if x and x[0] == 'v':
                vs[x[2]] = x
    walk(f.body, look)
    for v in vs:
        o = Once(P, f, v)
        try:
            o.run()
        except TooMany:
            many += 1
            continue
        for (line, name), why in o.added.items():
            out[line, name] = out.get((line, name)) or why
    return [(l, n, w) for (l, n), w in sorted(out.items(), key=str)], many


def adds(P, n):
    q = P.q(n[2])
    nm = q.rsplit('::', 1)[-1]
    inf = P.info.get(n[2])
    return q.startswith('mx::core::') and nm.startswith('add') and nm[3:4].isupper() and inf is not None and any('shared_ptr' in t for t in inf[3])
