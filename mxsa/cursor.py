"""Abstract interpretation of code that walks over the children (or attributes) of an element with a cursor.
A state says, for every cursor: whether it is at the end, how far it moved in the current pass of the loop,
whether the child it is at was handled, and what is known about that child's name; and for every local bool
whether it is true.  States are sets of such facts, loops run to a fixed point, functions that are given
the cursor or the child are looked into."""
from .prog import walk, pointee
from .db import DEEP

ITER = ('ezxml::XElementIterator', 'ezxml::XAttributeIterator')
CHILD = ('ezxml::XElement', 'ezxml::XAttribute')
LIMIT = 1500 * DEEP


class TooMany(Exception):
    pass


def is_iter(ty):
    return ty.replace('const ', '').rstrip(' &') in ITER


def is_child(ty):
    return ty.replace('const ', '').rstrip(' &*') in CHILD


class C:
    """what is known about one cursor"""
    __slots__ = ('st', 'adv', 'used', 'prev', 'pos', 'negs', 'read')

    def __init__(self, st='?', adv=0, used=False, prev=None, pos=None, negs=frozenset(), read=False):
        self.st, self.adv, self.used, self.prev, self.pos, self.negs, self.read = st, adv, used, prev, pos, negs, read

    def key(self):
        return (self.st, self.adv, self.used, self.prev, self.pos, self.negs, self.read)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def but(self, **k):
        c = C(*self.key())
        for a, b in k.items():
            setattr(c, a, b)
        return c


class S:
    """one abstract state: immutable"""
    __slots__ = ('cur', 'env', 'h')

    def __init__(self, cur, env):
        self.cur, self.env = cur, env
        self.h = hash((frozenset(cur.items()), frozenset(env.items())))

    def __eq__(self, o):
        return self.h == o.h and self.cur == o.cur and self.env == o.env

    def __hash__(self):
        return self.h

    def set(self, k, v):
        if self.env.get(k) == v:
            return self
        e = dict(self.env)
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
        return S(self.cur, e)

    def cursor(self, k, c):
        d = dict(self.cur)
        d[k] = c
        return S(d, self.env)


class Frame:
    def __init__(self, fn, depth):
        self.fn, self.depth, self.alias, self.rets = fn, depth, {}, set()


class Cursor:
    def __init__(self, P, tag, elem, report):
        self.P, self.tag, self.elem, self.report = P, tag, elem, report
        self.frames = []
        self.loops = []
        self.uid = 0
        self.derefs = self.moves = self.passes = 0
        self.fnseen = set()
        self.decls, self.rel, self.relevant = {}, {}, set()
        self.steps = 0

    # ---- entry
    def run(self, f):
        self.frames = [Frame(f, 0)]
        self.steps = 0
        st = {S({}, {})}
        self.block(f.body, st)

    @property
    def fr(self):
        return self.frames[-1]

    def key(self, vid):
        fr = self.fr
        return fr.alias.get(vid, (fr.depth, vid))

    def bad(self, rule, line, msg):
        self.report(rule, self.fr.fn, line, msg)

    # ---- moving
    def touch(self, s, k, line, what):
        """the child at the cursor is looked at"""
        self.derefs += 1
        c = s.cur.get(k)
        if c is None:
            return s
        if c.st != 'V':
            self.bad('at-child', line, 'looks at %s although the cursor can be at the end' % what)
            return s.cursor(k, c.but(st='V'))
        return s

    def forward(self, s, k, line):
        self.moves += 1
        c = s.cur.get(k)
        if c is None:
            return s
        if c.st != 'V':
            self.bad('at-child', line, 'moves the cursor forward although it can be at the end already')
        return self.drop(s, k).cursor(k, C('?', min(2, c.adv + 1), False, (c.used or c.pos is not None, c.pos, frozenset(), c.read)))

    def backward(self, s, k, line):
        self.moves += 1
        c = s.cur.get(k)
        if c is None:
            return [s]
        if c.adv <= 0:
            self.bad('back', line, 'moves the cursor back although it did not move forward in this pass')
            return []
        out = []
        for a in ([1, 2] if c.adv == 2 else [0]):
            out.append(self.drop(s, k).cursor(k, C('V', a, True, None) if c.prev is None else C('V', a, c.prev[0], None, c.prev[1], c.prev[2], c.prev[3])))
        return out

    def drop(self, s, k):
        """names and children taken from the cursor before it moved are no longer those of the current child"""
        env = {a: v for a, v in s.env.items() if not (isinstance(v, tuple) and v[0] in ('name', 'deref') and v[1] == k)}
        return s if len(env) == len(s.env) else S(s.cur, env)

    # ---- statements: take and return sets of states
    def block(self, n, st):
        mine = False
        for c in n[2]:
            if not st:
                return st
            mine |= c is not None and c[0] == 'd'
            st = self.stmt(c, st)
        return self.forget(st, self.declared(n, False)) if mine else st

    def declared(self, n, deep=True):
        """variables that a statement declares"""
        k = (id(n), deep)
        if k not in self.decls:
            out = []
            if deep:
                walk(n, lambda x: out.extend(d[0] for d in x[2]) if x[0] == 'd' else None)
            else:
                for c in n[2]:
                    if c and c[0] == 'd':
                        out.extend(d[0] for d in c[2])
            self.decls[k] = (out, n)
        return self.decls[k][0]

    def forget(self, st, vids):
        ks = {(self.fr.depth, v) for v in vids}
        out = set()
        for s in st:
            if any(k in s.cur or k in s.env for k in ks):
                s = S({k: c for k, c in s.cur.items() if k not in ks},
                      {k: v for k, v in s.env.items() if k not in ks and not (isinstance(v, tuple) and len(v) > 1 and v[1] in ks)})
            out.add(s)
        return out

    def matters(self, vid):
        """whether the value of a bool can decide what the cursor does"""
        fr = self.fr
        if vid in fr.alias:
            return fr.alias[vid] in self.relevant
        k = id(fr.fn.body)
        if k not in self.rel:
            out = set()

            def cond(c):
                if c is not None:
                    walk(c, lambda x: out.add(x[2]) if x[0] == 'v' else None)
            curs = {v for v, n, t in fr.fn.params if is_iter(t) or is_child(t)}
            walk(fr.fn.body, lambda x: curs.update(d[0] for d in x[2] if is_iter(d[2]) or is_child(d[2])) if x[0] == 'd' else None)

            def decides(*parts):
                """whether it makes a difference to the cursor if these statements run"""
                hit = []

                def see(x):
                    if x[0] == 'v' and (x[2] in curs or x[2] in out) or x[0] in ('ret', 'brk', 'cnt', 'throw'):
                        hit.append(1)
                for c in parts:
                    if c is not None:
                        walk(c, see)
                return bool(hit)

            def look(n, inside):
                if not isinstance(n, list) or not n:
                    return
                if not isinstance(n[0], str):
                    for c in n:
                        look(c, inside)
                    return
                if n[0] in ('for', 'while', 'do', 'rf'):
                    cond(n[3] if n[0] in ('for', 'do') else n[2] if n[0] == 'while' else None)
                    for c in n[2:]:
                        look(c, True)
                    return
                if inside and n[0] == 'if':
                    if decides(n[4], n[5]):
                        cond(n[3])
                elif inside and n[0] == 'cond':
                    cond(n[2])
                elif n[0] == 'ret' and any(is_iter(t) for t in fr.fn.ptypes):
                    cond(n[2])
                elif inside and n[0] == 'b' and n[2] in ('=', '|=', '&='):
                    if n[3][0] != 'v' or n[3][2] in out:
                        cond(n[4])
                for c in n[2:]:
                    if isinstance(c, list):
                        look(c, inside)
            while True:
                was = len(out)
                look(fr.fn.body, any(is_iter(t) or is_child(t) for t in fr.fn.ptypes) and fr.depth > 0)
                if len(out) == was:
                    break
            self.rel[k] = out
        return vid in self.rel[k]

    def put(self, s, vid, v):
        """assigns a local"""
        if v in (True, False) and v is not None and not isinstance(v, tuple) and not self.matters(vid):
            v = None
        return s.set(self.key(vid), v)

    def stmt(self, n, st):
        if n is None or not st:
            return st
        if len(st) > LIMIT:
            raise TooMany()
        self.steps += len(st)
        if self.steps > 400000:
            raise TooMany()
        k = n[0]
        if k == '{':
            return self.block(n, st)
        if k == 'if':
            st = self.stmt(n[2], st) if n[2] is not None else st
            t, f = self.branch(n[3], st)
            return self.stmt(n[4], t) | (self.stmt(n[5], f) if n[5] is not None else f)
        if k == 'd':
            for d in n[2]:
                st = self.decl(d, n[1], st)
            return st
        if k in ('for', 'while', 'do', 'rf'):
            return self.loop(n, st)
        if k == 'ret':
            for s in st:
                for s2, v in (self.ev(n[2], s) if n[2] is not None else [(s, None)]):
                    self.fr.rets.add((s2, v if v is True or v is False else None))
            return set()
        if k == 'throw':
            return set()
        if k == 'brk':
            if self.loops:
                self.loops[-1][0] |= st
            return set()
        if k == 'cnt':
            for l in reversed(self.loops):
                if l[2] == 'loop':
                    l[1] |= st
                    break
            return set()
        if k == 'sw':
            return self.switch(n, st)
        if k in ('case', 'dflt'):
            return self.stmt(n[-1], st)
        if k == 'try':
            out = self.stmt(n[2], st)
            for h in n[3]:
                out = out | self.stmt(h[-1], st)
            return out
        out = set()
        for s in st:
            out |= {s2 for s2, v in self.ev(n, s)}
        return out

    def switch(self, n, st):
        body = n[-1]
        start = set()
        for s in st:
            for sub in n[2:-1]:
                if isinstance(sub, list) and sub:
                    start |= {s2 for s2, v in self.ev(sub, s)}
        start = start or st
        self.loops.append([set(), set(), 'switch'])
        cur = set()
        has_default = False
        for c in (body[2] if body and body[0] == '{' else [body]):
            if c and c[0] in ('case', 'dflt'):
                x = c
                while x and x[0] in ('case', 'dflt'):
                    has_default |= x[0] == 'dflt'
                    x = x[-1]
                cur = cur | start
            cur = self.stmt(c, cur)
        brk, cnt, _ = self.loops.pop()
        return cur | brk | (set() if has_default else start)

    def decl(self, d, line, st):
        vid, name, ty, init, fl = d
        out = set()
        for s in st:
            if init is None:
                out.add(s.set(self.key(vid), None))
                continue
            for s2, v in self.ev(init, s):
                k = self.key(vid)
                if is_iter(ty):
                    if v is not None and isinstance(v, tuple) and v[0] == 'begin':
                        out.add(s2.cursor(k, C('?')).set(k, ('cur', k)))
                    elif isinstance(v, tuple) and v[0] == 'cur':
                        if ty.endswith('&'):
                            out.add(s2.set(k, v))
                        else:
                            out.add(s2.cursor(k, s2.cur[v[1]]).set(k, ('cur', k)) if v[1] in s2.cur else s2)
                    else:
                        out.add(s2.set(k, v if isinstance(v, tuple) and v[0] == 'end' else None))
                elif v in (True, False) or isinstance(v, tuple) and v[0] in ('name', 'deref', 'str', 'elem'):
                    if isinstance(v, tuple) and v[0] == 'str' and not ty.startswith('const '):
                        v = None
                    out.add(self.put(s2, vid, v))
                else:
                    out.add(s2.set(k, None))
        return out

    def branch(self, n, st):
        t, f = set(), set()
        for s in st:
            for s2, v in self.ev(n, s):
                if v is not False:
                    t.add(s2)
                if v is not True:
                    f.add(s2)
        return t, f

    def loop(self, n, st):
        k = n[0]
        if k == 'rf':
            self.loops.append([set(), set(), 'loop'])
            seen = set(st)
            for s in st:
                seen |= {s2 for s2, v in self.ev(n[5], s)} if isinstance(n[5], list) else set()
            work = set(seen)
            exits = set(seen)
            while work:
                r = self.stmt(n[6], work)
                r |= self.loops[-1][1]
                self.loops[-1][1].clear()
                work = r - exits
                exits |= r
                if len(exits) > LIMIT:
                    raise TooMany()
            brk, cnt, _ = self.loops.pop()
            return exits | brk
        if k == 'for':
            init, cond, inc, body = n[2], n[3], n[4], n[5]
            st = self.stmt(init, st) if init is not None else st
        elif k == 'while':
            init, cond, inc, body = None, n[2], None, n[3]
        else:
            init, cond, inc, body = None, n[3], None, n[2]
        walks = set()
        if cond is not None:
            walk(cond, lambda x: walks.add(x[2]) if x[0] == 'v' else None)
        line = n[1]
        exits = set()
        seen = set()
        work = set(st)
        base = None
        self.loops.append([set(), set(), 'loop'])
        first = k == 'do'
        while work:
            if len(seen) > LIMIT:
                raise TooMany()
            seen |= work
            if first:
                t, f = work, set()
            else:
                t, f = self.branch(cond, work) if cond is not None else (work, set())
            exits |= f
            # a pass starts: distances count from here, and the ones so far are kept in the environment
            start = set()
            for s in t:
                cur, env = dict(s.cur), dict(s.env)
                for ck, c in s.cur.items():
                    env[('adv', len(self.loops), len(self.frames), ck)] = c.adv
                    if self.mentioned(walks, s, ck):
                        cur[ck] = c.but(adv=0)
                start.add(S(cur, env))
            r = self.stmt(body, start)
            r |= self.loops[-1][1]
            self.loops[-1][1].clear()
            r = self.forget({self.close(s, walks, line, inc is not None) for s in r}, self.declared(body))
            b = self.forget({self.close(s, walks, line, None) for s in self.loops[-1][0]}, self.declared(body))
            self.loops[-1][0].clear()
            exits |= b
            if k == 'do':
                t, f = self.branch(cond, r) if cond is not None else (r, set())
                exits |= f
                r = t
            if inc is not None:
                nx = set()
                for s in r:
                    nx |= {s2 for s2, v in self.ev(inc, s)}
                r = nx
            work = r - seen
            exits_of = exits
        self.loops.pop()
        # returns from inside a pass: restore distances
        return exits

    def mentioned(self, walks, s, ck):
        return any(s.env.get(self.key(v)) == ('cur', ck) for v in walks)

    def close(self, s, walks, line, has_inc):
        """the end of a pass: checks it and adds up the distances"""
        cur, env = dict(s.cur), dict(s.env)
        depth = (len(self.loops), len(self.frames))
        prog = False
        any_ = False
        for ck, c in s.cur.items():
            old = env.pop(('adv',) + depth + (ck,), None)
            if not self.mentioned(walks, s, ck):
                continue
            any_ = True
            if has_inc is not None:
                self.passes += 1
                if has_inc and c.adv > 0 and not c.used and c.pos is None:
                    self.bad('no-skip', line, 'moves past a child that no code has looked at: a helper left the cursor on it')
                prog |= c.adv > 0
            cur[ck] = c.but(adv=min(2, c.adv + (old or 0)))
        if has_inc is False and any_ and not prog:
            self.bad('progress', line, 'can run a pass in which the cursor does not move')
        return S(cur, env)

    # ---- expressions: [(state, value)]
    def ev(self, n, s):
        if n is None or not isinstance(n, list) or not n:
            return [(s, None)]
        k = n[0]
        if k == 'bo':
            return [(s, bool(n[2]))]
        if k == 's':
            return [(s, ('str', n[2]))]
        if k == 'v':
            return [(s, s.env.get(self.key(n[2])))]
        if k == 'cast':
            return self.ev(n[-1], s)
        if k == 'u':
            if n[2] == '!':
                return [(s2, (not v) if v is True or v is False else None) for s2, v in self.ev(n[3], s)]
            if n[2] == '*':
                return [(s2, v if isinstance(v, tuple) and v[0] in ('deref', 'elem') else None) for s2, v in self.ev(n[3], s)]
            r = self.ev(n[3], s)
            if n[2].startswith(('++', '--')) and n[3][0] == 'v':
                return [(s2.set(self.key(n[3][2]), None), None) for s2, v in r]
            return [(s2, None) for s2, v in r]
        if k == 'b':
            return self.binary(n, s)
        if k == 'cond':
            out = []
            for s2, v in self.ev(n[2], s):
                if v is not False:
                    out += self.ev(n[3], s2)
                if v is not True:
                    out += self.ev(n[4], s2)
            return out
        if k == 'k':
            args = n[4] or []
            if is_iter(n[2]) and len(args) == 1:
                return self.ev(args[0], s)
            if n[2].startswith('std::basic_string') and args:
                return [(s2, v if isinstance(v, tuple) and v[0] in ('str', 'name') else None) for s2, v in self.ev(args[0], s)]
            return self.seq(args, s)
        if k == 'c':
            return self.call(n, s)
        if k == 'lam':
            return [(s, None)]
        if k == 'm':
            return [(s2, None) for s2, v in self.ev(n[2], s)]
        return self.seq([c for c in n[2:] if isinstance(c, list) and c and isinstance(c[0], str)], s)

    def seq(self, args, s):
        st = {s}
        for a in args:
            nx = set()
            for x in st:
                nx |= {s2 for s2, v in self.ev(a, x)}
            st = nx
        return [(x, None) for x in st]

    def binary(self, n, s):
        op = n[2]
        if op in ('&&', '||'):
            out = []
            for s2, v in self.ev(n[3], s):
                short = op == '||'
                if v is not (not short):
                    out.append((s2, short))
                if v is not short:
                    out += self.ev(n[4], s2)
            return out
        if op == ',':
            out = []
            for s2, v in self.ev(n[3], s):
                out += self.ev(n[4], s2)
            return out
        if op in ('=', '&=', '|='):
            out = []
            for s2, v in self.ev(n[4], s):
                if n[3][0] == 'v':
                    k = self.key(n[3][2])
                    old = s2.env.get(k)
                    if op == '&=':
                        v = False if v is False or old is False else True if v is True and old is True else None
                    elif op == '|=':
                        v = True if v is True or old is True else False if v is False and old is False else None
                    if v is True or v is False or isinstance(v, tuple) and v[0] in ('name', 'deref', 'end'):
                        s3 = self.put(s2, n[3][2], v)
                    elif isinstance(v, tuple) and v[0] == 'cur' and v[1] in s2.cur:
                        own = s2.env.get(k)
                        own = own[1] if isinstance(own, tuple) and own[0] == 'cur' else k
                        s3 = self.drop(s2, own).cursor(own, s2.cur[v[1]]).set(k, ('cur', own))
                    else:
                        s3 = s2.set(k, None)
                    out.append((s3, v))
                else:
                    for s3, _ in self.ev(n[3], s2):
                        out.append((s3, v))
            return out
        out = []
        for s2, a in self.ev(n[3], s):
            for s3, b in self.ev(n[4], s2):
                if op in ('==', '!='):
                    out += self.compare(s3, a, b, op == '!=')
                elif op in ('&', '|') and (a in (True, False) or b in (True, False)):
                    if op == '&':
                        out.append((s3, False if a is False or b is False else True if a is True and b is True else None))
                    else:
                        out.append((s3, True if a is True or b is True else False if a is False and b is False else None))
                else:
                    out.append((s3, None))
        return out

    def compare(self, s, a, b, flip):
        def res(s2, v):
            return (s2, v if v is None else v != flip)
        if isinstance(b, tuple) and b[0] in ('cur', 'name') and not (isinstance(a, tuple) and a[0] in ('cur', 'name')):
            a, b = b, a
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] == 'cur' and b[0] == 'end' and a[1] in s.cur:
                c = s.cur[a[1]]
                if c.st != '?':
                    return [res(s, c.st == 'E')]
                return [res(s.cursor(a[1], c.but(st='E')), True), res(s.cursor(a[1], c.but(st='V')), False)]
            if a[0] == 'name' and b[0] == 'str' and a[1] in s.cur:
                c = s.cur[a[1]]
                if c.pos is not None:
                    return [res(s, c.pos == b[1])]
                if b[1] in c.negs:
                    return [res(s, False)]
                return [res(s.cursor(a[1], c.but(pos=b[1], negs=frozenset())), True), res(s.cursor(a[1], c.but(negs=c.negs | {b[1]})), False)]
            if a[0] == 'str' and b[0] == 'str':
                return [res(s, a[1] == b[1])]
        if a in (True, False) and b in (True, False) and a is not None and b is not None:
            return [res(s, a == b)]
        return [(s, None)]

    def call(self, n, s):
        line, fid, obj, args = n[1], n[2], n[3], n[4] or []
        q = self.P.q(fid)
        name = q.rsplit('::', 1)[-1]
        inf = self.P.info.get(fid)
        out = []
        # operands
        st = [(s, [])]
        for a in ([obj] if obj is not None else []) + list(args):
            nx = []
            for s2, vs in st:
                for s3, v in self.ev(a, s2):
                    nx.append((s3, vs + [v]))
            st = nx
            if len(st) > LIMIT:
                raise TooMany()
        for s2, vs in st:
            ov = vs[0] if obj is not None else None
            av = vs[1:] if obj is not None else vs
            out += self.one(n, q, name, inf, s2, ov, av, line, fid, obj, args)
        return out

    def one(self, n, q, name, inf, s, ov, av, line, fid, obj, args):
        cursor = isinstance(ov, tuple) and ov[0] == 'cur'
        if cursor and name == 'operator++':
            return [(self.forward(s, ov[1], line), ov if not args else None)]
        if cursor and name == 'operator--':
            return [(s2, ov if not args else None) for s2 in self.backward(s, ov[1], line)]
        if cursor and name in ('operator*', 'operator->'):
            return [(self.touch(s, ov[1], line, 'a child'), ('deref', ov[1]))]
        if name in ('operator==', 'operator!='):
            both = ([ov] if obj is not None else []) + av
            if len(both) == 2:
                r = self.compare(s, both[0], both[1], name == 'operator!=')
                if any(isinstance(x, tuple) and x[0] in ('cur', 'name', 'str') for x in both):
                    return r
                return [(s, None)]
        if cursor and name == 'operator=':
            k = ov[1]
            v = av[0] if av else None
            if isinstance(v, tuple) and v[0] == 'cur' and v[1] in s.cur:
                return [(self.drop(s, k).cursor(k, s.cur[v[1]]), ov)]
            if isinstance(v, tuple) and v[0] == 'begin':
                return [(self.drop(s, k).cursor(k, C('?')), ov)]
            d = dict(s.cur)
            d.pop(k, None)
            return [(S(d, s.env), None)]
        if q.startswith('ezxml::XElement::') and name in ('begin', 'attributesBegin', 'end', 'attributesEnd') or q.startswith('ezxml::') and name in ('begin', 'end', 'attributesBegin', 'attributesEnd'):
            return [(s, ('begin',) if name.lower().endswith('begin') else ('end',))]
        deref = isinstance(ov, tuple) and ov[0] == 'deref'
        if deref and q.startswith('ezxml::'):
            if name == 'getName':
                return [(s, ('name', ov[1]))]
            if name.startswith('getValue') and ov[1] in s.cur:
                return [(s.cursor(ov[1], s.cur[ov[1]].but(used=True)), None)]
            return [(s, None)]
        if q.startswith('std::') and name in ('move', 'forward', 'as_const') and av:
            return [(s, av[0])]
        if name == 'getElementName' and obj is not None:
            return [(s, self.tag(self, obj, ov))]
        if name in ('operator*', 'operator->', 'get') and obj is not None and av == []:
            return [(s, self.elem(self, n))]
        if name == 'operator bool' and obj is not None:
            return [(s, None)]
        if name == 'operator<<' and inf is not None and inf[3] and 'basic_ostream' in inf[3][0] + inf[2]:
            # the reader complains: what it complains about is not overlooked
            for k, c in s.cur.items():
                if not c.used:
                    s = s.cursor(k, c.but(used=True))
            return [(s, None)]
        # code that is given the cursor or the child
        moved = [v for v in av if isinstance(v, tuple) and v[0] in ('cur', 'deref', 'name')]
        f = self.P.fn.get(fid)
        if moved and name.startswith('fromXElement'):
            for v in moved:
                if v[0] == 'deref' and v[1] in s.cur:
                    if s.cur[v[1]].read:
                        self.bad('once', line, 'reads a child that was read before in the same pass')
                    s = s.cursor(v[1], s.cur[v[1]].but(used=True, read=True))
            return [(s, None)]
        if moved and f is not None and f.body is not None and f.qn.startswith('mx::') and any(v[0] != 'name' for v in moved) and len(self.frames) < 12 and f.id not in [x.fn.id for x in self.frames]:
            return self.inline(f, s, av, args)
        # unknown code: what it can change is forgotten
        res = [(s, None)]
        if inf is not None:
            for i, (v, a) in enumerate(zip(av, args)):
                ty = inf[3][i] if i < len(inf[3]) else ''
                if ty.endswith('&') and not ty.startswith('const ') and a[0] == 'v':
                    res = [(x.set(self.key(a[2]), None) if not (isinstance(v, tuple) and v[0] in ('cur', 'end')) else x, r) for x, r in res]
        for v in moved:
            if v[0] == 'deref':
                nx = []
                for x, r in res:
                    if v[1] not in x.cur:
                        nx.append((x, r))
                        continue
                    y = x.cursor(v[1], x.cur[v[1]].but(used=True))
                    if inf is not None and inf[2] == 'bool':
                        nx += [(y, True), (x, False)]
                    else:
                        nx.append((y, r))
                res = nx
            elif v[0] == 'cur':
                # it may have been moved: nothing is known
                res = [(S({a: b for a, b in x.cur.items() if a != v[1]}, {a: b for a, b in x.env.items() if b != v}), r) for x, r in res]
        return res

    def inline(self, f, s, av, args):
        self.fnseen.add(f.id)
        depth = self.fr.depth + 1
        caller = self.fr
        fr = Frame(f, depth)
        env = dict(s.env)
        for i, (vid, name, ty) in enumerate(f.params):
            if i >= len(av):
                continue
            v, a = av[i], args[i]
            ref = ty.endswith('&') and not ty.startswith('const ')
            while a and a[0] == 'cast':
                a = a[-1]
            if ref and a and a[0] == 'v' and not (isinstance(v, tuple) and v[0] == 'cur'):
                fr.alias[vid] = self.key(a[2])
                if self.matters(a[2]):
                    self.relevant.add(self.key(a[2]))
                continue
            k = (depth, vid)
            if isinstance(v, tuple) and v[0] == 'cur' and not ty.endswith('&'):
                s = S({**s.cur, k: s.cur[v[1]]}, env) if v[1] in s.cur else s
                v = ('cur', k)
            if v is None:
                env.pop(k, None)
            else:
                env[k] = v
        s = S(s.cur, env)
        self.frames.append(fr)
        saved, self.loops = self.loops, []
        out = self.block(f.body, {s})
        self.frames.pop()
        self.loops = saved
        res = set()
        for s2, v in list(fr.rets) + [(x, None) for x in out]:
            # distances of passes that were left by a return, and the function's own variables
            cur = dict(s2.cur)
            env = {}
            adds = {}
            for k, v2 in s2.env.items():
                if isinstance(k, tuple) and k and k[0] == 'adv' and k[2] == depth + 1:
                    adds.setdefault(k[3], []).append(v2)
                elif isinstance(k, tuple) and len(k) == 2 and k[0] == depth:
                    continue
                else:
                    env[k] = v2
            for ck, vs in adds.items():
                if ck in cur:
                    cur[ck] = cur[ck].but(adv=min(2, cur[ck].adv + sum(vs)))
            cur = {k: c for k, c in cur.items() if k[0] < depth}
            res.add((S(cur, env), v))
        return list(res)
