"""Where the fields of the public records get their values from when a document is read, and where they go when one is
written: dependences between record fields and document places, flow insensitive within a function, calls substituted."""
from .prog import bare, is_cont, pointee, value_type, walk

STORES = ('push_back', 'emplace_back', 'insert', 'emplace', 'assign', 'append', 'push_front', 'operator+=', 'operator=', 'operator<<', 'operator[]')


def strip(n):
    while n and n[0] == 'cast':
        n = n[-1]
    return n


def scalar(P, t):
    t = bare(t)
    while is_cont(t):
        t = bare(value_type(t))
    return t in P.enums or not t.startswith('mx::') and not t.startswith('std::') or t.startswith('std::basic_string')


class Flow:
    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.elem = {c for c in P.by_cls if c.startswith('mx::core::') and any(f.name == 'streamName' for f in P.by_cls[c])}
        self.edges, self.touch = {}, {}

    # ---- call graph
    def calls(self, f):
        r = self.edges.get(f.id)
        if r is None:
            r = set()

            def look(n):
                if n[0] == 'c':
                    r.add(n[2])
                elif n[0] == 'k':
                    r.add(n[3])
            for b in [f.body] + [i[1] for i in f.inits or [] if i[1]]:
                if b:
                    walk(b, look)
            self.edges[f.id] = r
        return r

    def reach(self, roots):
        seen, todo = set(), [r.id for r in roots]
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            f = self.P.fn.get(i)
            if f is not None:
                todo += self.calls(f)
            todo += self.P.overriders.get(i, ())
        return [self.P.fn[i] for i in seen if i in self.P.fn]

    # ---- one function
    def of(self, f):
        """([(target, data sources, control sources, line)], sources of the result)"""
        r = self.memo.get(f.id)
        if r is None:
            self.memo[f.id] = ([], frozenset())          # recursion: nothing new
            r = self.memo[f.id] = One(self, f).run()
        return r


class One:
    def __init__(self, F, f):
        self.F, self.P, self.f = F, F.P, f
        self.params = {p[0]: i for i, p in enumerate(f.params)}
        self.events, self.rets = [], set()
        self.vars, self.vardef, self.ctrl = {}, {}, []
        self.alias = {}

    def run(self):
        f = self.f
        if f.inits:
            for i in f.inits:
                if isinstance(i[0], str) and i[1]:
                    self.put(self.member(f.cls, i[0]), i[1], i[1][1] if len(i[1]) > 1 and isinstance(i[1][1], int) else f.line)
        if f.body is not None:
            self.bind(f.body)
            for _ in range(3):
                self.grow(f.body)
            self.visit(f.body)
        return self.events, frozenset(self.rets)

    def member(self, cls, name):
        if cls and cls.startswith('mx::api::'):
            return ('api', cls, name)
        if cls and cls.startswith('mx::core::'):
            return ('core', '@' + plain(name)) if cls.endswith('Attributes') else ('f', cls, name)
        return ('f', cls, name)

    # ---- local variables: everything that is ever stored into them
    def bind(self, n):
        def look(n):
            if n[0] == 'd':
                for d in n[2]:
                    self.vardef.setdefault(d[0], []).append(d[3])
                    if d[3] and ((d[2].endswith('&') and not d[2].startswith('const ')) or '*' in d[2]):
                        self.alias[d[0]] = d[3]
            elif n[0] == 'rf':
                self.vardef.setdefault(n[2], []).append(n[5])
                if n[4].endswith('&') and not n[4].startswith('const '):
                    self.alias[n[2]] = n[5]
        walk(n, look)

    def grow(self, body):
        for v, xs in self.vardef.items():
            s = self.vars.setdefault(v, set())
            for x in xs:
                if x:
                    s |= self.src(x)

        def look(n):
            if n[0] == 'b' and n[2].endswith('=') and n[2] not in ('==', '!=', '<=', '>='):
                t = self.local(n[3])
                if t is not None:
                    self.vars.setdefault(t, set()).update(self.src(n[4]))
            elif n[0] == 'c' and n[3] is not None and self.P.q(n[2]).rsplit('::', 1)[-1] in STORES:
                t = self.local(n[3])
                if t is not None:
                    for a in n[4] or []:
                        self.vars.setdefault(t, set()).update(self.src(a))
            elif n[0] == 'c':
                f = self.P.fn.get(n[2])
                if f is not None and f.qn.startswith('mx::') and n[4]:
                    for tgt, data, ctrl, line in self.F.of(f)[0]:
                        if tgt[0] == 'p' and tgt[1] < len(n[4]):
                            t = self.local(n[4][tgt[1]])
                            if t is not None:
                                self.vars.setdefault(t, set()).update(self.subst(data, n))
        walk(body, look)

    def local(self, n):
        n = strip(n)
        while n and (n[0] == 'u' and n[2] in ('*', '&') or n[0] == 'c' and n[3] is not None and self.P.q(n[2]).startswith('std::') and self.P.q(n[2]).rsplit('::', 1)[-1] in ('operator[]', 'at', 'front', 'back')):
            n = strip(n[3])
        return n[2] if n and n[0] == 'v' and n[2] not in self.params else None

    def value(self, t):
        """a value, not an element or a record to look into"""
        t = bare(t)
        t = bare(pointee(t) or t)
        return t not in self.F.elem and not t.endswith('Attributes') and not t.startswith('mx::api::') or t in self.P.enums

    # ---- what an expression depends on
    def src(self, n):
        out = set()
        self.src_(n, out)
        return out

    def src_(self, n, out):
        n = strip(n)
        if not n or not isinstance(n, list) or not n or not isinstance(n[0], str):
            return
        k = n[0]
        if k == 'v':
            if n[2] in self.params:
                if self.value(self.f.params[self.params[n[2]]][2]):
                    out.add(('p', self.params[n[2]]))
            else:
                out |= self.vars.get(n[2], set())
            return
        if k == 'm':
            if isinstance(n[4], str):
                t = self.member(n[4], n[3])
                if t[0] == 'f' and not (n[2] and n[2][0] == 'this'):
                    t = None
                if t is not None:
                    out.add(t)
                    if t[0] != 'f':
                        return
            self.src_(n[2], out)
            return
        if k == 'c':
            inf = self.P.info.get(n[2])
            name = self.P.q(n[2]).rsplit('::', 1)[-1]
            f = self.P.fn.get(n[2])
            if name in ('getElementName', 'streamName'):
                out.add(('u', name))
                return
            if inf is not None and inf[1] in self.F.elem and n[3] is not None and not n[4]:
                if name.startswith('getValue') or name == 'getChoice':
                    out.add(('core', inf[1].rsplit('::', 1)[-1] + ('?' if name == 'getChoice' else '')))
                    return
                if name.startswith('getHas'):
                    out.add(('core', name[6:]))
                    return
                if name.startswith('get'):
                    if name.endswith('Set'):
                        out.add(('core', '*' + name[3:-3]))
                    self.src_(n[3], out)
                    return
            if f is not None and f.body is not None and f.qn.startswith(('mx::impl::', 'mx::api::', 'mx::utility::')):
                out |= self.subst(self.F.of(f)[1], n)
                if not self.F.of(f)[1] and bare(f.ret) != 'void':
                    for a in n[4] or []:
                        self.src_(a, out)
                return
            if n[3] is not None:
                self.src_(n[3], out)
            for a in n[4] or []:
                self.src_(a, out)
            return
        for x in n[2:]:
            if isinstance(x, list):
                if x and isinstance(x[0], str):
                    self.src_(x, out)
                else:
                    for y in x:
                        if isinstance(y, list):
                            self.src_(y, out)

    def subst(self, atoms, call):
        out = set()
        args = call[4] or []
        for a in atoms:
            if a[0] == 'p':
                if a[1] < len(args):
                    self.src_(args[a[1]], out)
            else:
                out.add(a)
        return out

    # ---- events
    def target(self, n):
        n = strip(n)
        while n and (n[0] == 'u' and n[2] in ('*', '&') or n[0] == 'c' and n[3] is not None and self.P.q(n[2]).rsplit('::', 1)[-1] in ('operator*', 'operator->', 'back', 'front', 'operator[]', 'at', 'get')):
            n = strip(n[3])
        if not n:
            return None
        if n[0] == 'v' and n[2] in self.params:
            return ('p', self.params[n[2]])
        if n[0] == 'm' and isinstance(n[4], str):
            t = self.member(n[4], n[3])
            if t[0] != 'f' or n[2] and n[2][0] == 'this':
                return t
        return None

    def touched(self, n):
        """the record fields that a place which is stored to lies in"""
        out = []
        n = strip(n)
        while n:
            if n[0] == 'u' and n[2] in ('*', '&'):
                n = strip(n[3])
            elif n[0] == 'c' and n[3] is not None:
                n = strip(n[3])
            elif n[0] == 'm':
                if isinstance(n[4], str) and n[4].startswith('mx::api::'):
                    out.append(('api', n[4], n[3]))
                n = strip(n[2])
            elif n[0] == 'v' and n[2] in self.alias:
                n, self.alias = strip(self.alias[n[2]]), {k: v for k, v in self.alias.items() if k != n[2]}
            else:
                break
        return out

    def mark(self, n, line):
        a = self.alias
        for t in self.touched(n):
            self.F.touch.setdefault(self.f.id, {}).setdefault(t, line)
        self.alias = a

    def put(self, t, expr, line):
        if t is None:
            return
        self.event(t, self.src(expr), line)

    def event(self, t, data, line, ctrl=()):
        c = set(ctrl)
        for x in self.ctrl:
            c |= x
        self.events.append((t, frozenset(data), frozenset(c), line))

    def visit(self, n):
        if not isinstance(n, list) or not n:
            return
        if not isinstance(n[0], str):
            for x in n:
                self.visit(x)
            return
        k = n[0]
        if k == 'if':
            self.visit(n[2])
            self.visit(n[3])
            self.ctrl.append(self.src(n[3]))
            self.visit(n[4])
            self.visit(n[5])
            self.ctrl.pop()
            return
        if k == 'sw':
            self.ctrl.append(self.cond(n))
            for x in n[2:]:
                self.visit(x)
            self.ctrl.pop()
            return
        if k == 'rf':
            self.ctrl.append(self.src(n[5]))
            for x in n[2:]:
                self.visit(x)
            self.ctrl.pop()
            return
        if k in ('for', 'while'):
            self.ctrl.append(self.src(n[3] if k == 'for' else n[2]))
            for x in n[2:]:
                self.visit(x)
            self.ctrl.pop()
            return
        if k == 'ret':
            if n[2] is not None:
                self.rets |= self.src(n[2])
                if not self.src(n[2]):
                    for x in self.ctrl:
                        self.rets |= x
        elif k == 'b' and n[2].endswith('=') and n[2] not in ('==', '!=', '<=', '>='):
            self.mark(n[3], n[1])
            self.put(self.target(n[3]), n[4], n[1])
        elif k == 'il':
            self.record(n)
        elif k == 'k':
            f = self.P.fn.get(n[3])
            for t, a in zip((self.P.info.get(n[3]) or [0, 0, 0, []])[3], n[4] or []):
                if t.endswith('&') and not t.startswith('const ') and not t.endswith('&&'):
                    self.mark(a, n[1])
            if f is not None and (f.qn.startswith('mx::api::') or f.qn.startswith('mx::impl::')) and n[4]:
                self.inline(f, ['c', n[1], n[3], None, n[4]], n[1], params=True)
        elif k == 'c':
            self.call(n)
        for x in n[1:]:
            self.visit(x)

    def cond(self, n):
        for x in n[2:]:
            if isinstance(x, list) and x and isinstance(x[0], str):
                return self.src(x)
        return set()

    def record(self, n):
        cls = next((bare(x) for x in n[2:] if isinstance(x, str)), '')
        args = n[-1] if isinstance(n[-1], list) else []
        if cls.startswith('mx::api::') and cls in self.P.rec:
            for fd, a in zip(self.P.rec[cls]['f'], args):
                if a and a[0] not in ('zero', 'null') and a != fd[2] and not (a[0] == 'k' and not a[4]):
                    self.put(('api', cls, fd[0]), a, n[1])

    def call(self, n):
        inf = self.P.info.get(n[2])
        if inf is None:
            return
        name = self.P.q(n[2]).rsplit('::', 1)[-1]
        args = n[4] or []
        if n[3] is not None and 'c' not in inf[4]:
            if args or not (name.startswith(('get', 'begin', 'end', 'find')) or name in ('front', 'back', 'at', 'data', 'rbegin', 'rend') or name.startswith('operator')):
                self.mark(n[3], n[1])
        for t, a in zip(inf[3], args):
            if t.endswith('&') and not t.startswith('const ') and not t.endswith('&&'):
                self.mark(a, n[1])
        if inf[1] in self.F.elem and n[3] is not None and args:
            cls = inf[1].rsplit('::', 1)[-1]
            if name == 'setValue':
                self.put(('core', cls), args[0], n[1])
            elif name == 'setChoice':
                self.put(('core', cls + '?'), args[0], n[1])
            elif name.startswith('setHas'):
                self.put(('core', name[6:]), args[0], n[1])
            elif name.startswith(('set', 'add')):
                self.put(('core', name[3:]), args[0], n[1])
            return
        f = self.P.fn.get(n[2])
        if n[3] is not None and 'c' not in inf[4] and not (f is not None and f.qn.startswith('mx::impl::')):
            if name.startswith('set') or name in STORES or name == 'operator=' or inf[1] and inf[1].startswith('mx::core::'):
                t = self.target(n[3])
                if t is not None:
                    d = set()
                    for a in args:
                        self.src_(a, d)
                    self.event(t, d, n[1])
        if n[3] is not None and name.startswith('emplace') and args and is_cont(bare(inf[1] or '')):
            vt = bare(value_type(inf[1]))
            for g in self.P.methods(vt) if vt.startswith('mx::api::') else ():
                if 'k' in g.flags and len(g.params) == len(args):
                    self.inline(g, ['c', n[1], g.id, None, args], n[1])
        if f is not None and f.qn.startswith('mx::'):
            self.inline(f, n, n[1])
        elif f is None and n[3] is None:
            # handed to code outside of the library by reference
            for t, a in zip(inf[3], args):
                if t.endswith('&') and not t.startswith('const ') and not t.endswith('&&'):
                    g = self.target(a)
                    if g is not None:
                        self.event(g, set().union(*[self.src(x) for x in args]), n[1])

    def inline(self, f, n, line, params=False):
        for tgt, data, ctrl, l in self.F.of(f)[0]:
            pd = any(a[0] == 'p' for a in data)
            if tgt[0] == 'p':
                if tgt[1] < len(n[4] or []):
                    t = self.target(n[4][tgt[1]])
                    if t is not None:
                        self.event(t, self.subst(data, n), line, self.subst(ctrl, n))
            elif pd:
                self.event(tgt, self.subst(data, n), line, self.subst(ctrl, n))


def plain(name):
    return name[3].lower() + name[4:] if name.startswith('has') and len(name) > 3 and name[3].isupper() else name
