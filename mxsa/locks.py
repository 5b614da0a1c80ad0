"""Lock sets: for every access of a field and every call, the mutexes that are held there.  A mutex is named by
the class and field it lives in.  Guards are scoped lock objects, their lock/unlock, and plain lock/unlock calls."""
from .prog import walk, prog

GUARDS = ('std::lock_guard<', 'std::unique_lock<', 'std::scoped_lock<', 'std::shared_lock<')
MUTEX = ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::timed_mutex', 'std::shared_timed_mutex')
WRITES = ('=', '+=', '-=', '*=', '/=', '|=', '&=', '^=', '%=', '<<=', '>>=')


class Access:
    __slots__ = ('fn', 'line', 'cls', 'field', 'held', 'write', 'base', 'node')


class Call:
    __slots__ = ('fn', 'line', 'callee', 'held', 'obj', 'args')


class Acquire:
    __slots__ = ('fn', 'line', 'mutex', 'held', 'base')


def is_mutex(t):
    return t.replace('mutable ', '').replace('const ', '').strip() in MUTEX


def path(n):
    """text of an access path: this.a.b"""
    if n is None:
        return ''
    if n[0] == 'this':
        return 'this'
    if n[0] == 'm':
        return path(n[2]) + '.' + n[3]
    if n[0] == 'v':
        return 'v%s' % n[2]
    if n[0] == 'u' and n[2] == '*':
        return path(n[3])
    if n[0] == 'cast':
        return path(n[-1])
    if n[0] == 'c' and n[3] is not None and not n[4]:
        q = prog().q(n[2])
        if q.endswith(('operator->', 'operator*', '::get')):
            return path(n[3])
    return '?'


class Locks:
    def __init__(self, P, f):
        self.P, self.f = P, f
        self.acc, self.calls, self.acq = [], [], []
        self.uses = []            # (variable, line, held)
        self.vars = {}            # guard variable -> (mutex key, base path, scope id)
        self.uid = 0
        self.decls = {}           # variable -> (name, type, init node, held)
        self.n(f.body, frozenset())

    def key(self, n):
        """(class, field) and base path of the mutex an expression names"""
        while n and n[0] in ('cast',):
            n = n[-1]
        if n and n[0] == 'm':
            return (n[4], n[3]), path(n[2])
        if n and n[0] == 'v':
            return ('var', n[2]), ''
        return None, ''

    def hold(self, held, key, base):
        self.uid += 1
        return held | {(key, base, self.uid)}

    def acquire(self, n, key, base, held):
        a = Acquire()
        a.fn, a.line, a.mutex, a.held, a.base = self.f, n[1], key, held, base
        self.acq.append(a)

    def n(self, n, held, write=False):
        """visits a node; returns the locks held after it"""
        if not isinstance(n, list) or not n:
            return held
        if not isinstance(n[0], str):
            for c in n:
                held = self.n(c, held)
            return held
        k = n[0]
        if k == '{':
            inner = held
            mine = set()
            for c in n[2]:
                if c and c[0] == 'd':
                    for d in c[2]:
                        if d[2].replace('const ', '').startswith(GUARDS):
                            mine.add(d[0])
                inner = self.n(c, inner)
            drop = {self.vars[v][2] for v in mine if v in self.vars}
            return frozenset(h for h in inner if h[2] not in drop)
        if k == 'd':
            for vid, name, ty, init, fl in n[2]:
                if ty.replace('const ', '').startswith(GUARDS) and init is not None:
                    args = init[4] if init[0] == 'k' else []
                    m = next((self.key(a) for a in args if self.key(a)[0]), (None, ''))
                    if m[0] is not None:
                        deferred = 'defer_lock' in str(args[1:])
                        self.uid += 1
                        self.vars[vid] = (m[0], m[1], self.uid)
                        if not deferred:
                            self.acquire(n, m[0], m[1], held)
                            held = held | {(m[0], m[1], self.uid)}
                else:
                    held = self.n(init, held)
                    self.decls[vid] = (name, ty, init, held)
            return held
        if k == 'if':
            held = self.n(n[2], held)
            held = self.n(n[3], held)
            a, b = self.n(n[4], held), self.n(n[5], held)
            if ends(n[4]):
                return b
            if n[5] is not None and ends(n[5]):
                return a
            return a & b
        if k == 'm':
            a = Access()
            a.fn, a.line, a.cls, a.field, a.held, a.write, a.base, a.node = self.f, n[1], n[4], n[3], held, write, path(n[2]), n[2]
            self.acc.append(a)
            return self.n(n[2], held, False)
        if k == 'v':
            self.uses.append((n[2], n[1], held))
            return held
        if k == 'b' and n[2] in WRITES:
            held = self.n(n[4], held)
            return self.n(n[3], held, True)
        if k == 'u' and n[2].startswith(('++', '--')):
            return self.n(n[3], held, True)
        if k == 'c':
            q = self.P.q(n[2])
            name = q.rsplit('::', 1)[-1]
            if n[3] is not None and name in ('lock', 'unlock'):
                o = n[3]
                if o[0] == 'v' and o[2] in self.vars:
                    m, base, u = self.vars[o[2]]
                    if name == 'lock':
                        self.acquire(n, m, base, held)
                        return held | {(m, base, u)}
                    return frozenset(h for h in held if h[2] != u)
                m, base = self.key(o)
                if m is not None and q.startswith('std::'):
                    if name == 'lock':
                        self.acquire(n, m, base, held)
                        return self.hold(held, m, base)
                    return frozenset(h for h in held if (h[0], h[1]) != (m, base))
            inf = self.P.info.get(n[2])
            wr = False
            if inf is not None and n[3] is not None:
                wr = 'c' not in inf[4] and 's' not in inf[4] and not harmless(q)
            held = self.n(n[3], held, wr)
            opeq = n[3] is None and (name.startswith('operator') and name[8:] in WRITES or name in ('operator++', 'operator--'))
            for i, a in enumerate(n[4] or []):
                held = self.n(a, held, opeq and i == 0)
            c = Call()
            c.fn, c.line, c.callee, c.held, c.obj, c.args = self.f, n[1], n[2], held, n[3], n[4]
            self.calls.append(c)
            return held
        for c in n[2:]:
            if isinstance(c, list):
                held2 = self.n(c, held)
                if k not in ('for', 'while', 'do', 'rf', 'sw', 'try', 'lam'):
                    held = held2
        return held


def harmless(q):
    return q.rsplit('::', 1)[-1] in ('operator->', 'operator*', 'get', 'begin', 'end', 'cbegin', 'cend', 'find', 'at', 'front', 'back', 'data', 'operator[]', 'rbegin', 'rend', 'lock') and not (q.startswith('std::map') and q.endswith('operator[]'))


def ends(n):
    """the statement never falls through"""
    if not n:
        return False
    if n[0] == '{':
        return bool(n[2]) and ends(n[2][-1])
    return n[0] in ('ret', 'throw', 'brk', 'cnt')


def internal(P, f):
    """only code of this library that the analysis sees can call it"""
    r = P.rec.get(f.cls) if f.cls else None
    if 'z' in f.flags or 'd' in f.flags:
        return True
    if r is not None and r['file'].endswith('.cpp'):
        return True
    return not f.cls and f.file.endswith('.cpp')


def entry_locks(P, fns, info):
    """locks held on every entry of internal functions: {fn id: frozenset of (key, base-free)}"""
    sites = {}
    for f in fns:
        for c in info[f.id].calls:
            sites.setdefault(c.callee, []).append(c)
    ALL = None
    ent = {f.id: (ALL if internal(P, f) and sites.get(f.id) else frozenset()) for f in fns}
    change = True
    while change:
        change = False
        for f in fns:
            if not (internal(P, f) and sites.get(f.id)):
                continue
            r = ALL
            for c in sites[f.id]:
                e = ent.get(c.fn.id, frozenset())
                if e is ALL:
                    continue
                h = frozenset(x[0] for x in c.held) | e
                r = h if r is ALL else r & h
            if r != ent[f.id]:
                ent[f.id] = r
                change = True
    return {k: (v if v is not None else frozenset()) for k, v in ent.items()}
