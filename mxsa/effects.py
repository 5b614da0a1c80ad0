"""Which of the objects a function is given it may change (deeply): 'this' or the number of a parameter."""
from .locks import Locks
from .prog import walk, bare, pointee

SHALLOW = 'own'


def pointy(ty):
    return ty.endswith(('&', '*')) or 'shared_ptr<' in ty or 'unique_ptr<' in ty or 'iterator' in ty


class Effects:
    def __init__(self, P, fns, mutable=()):
        self.P = P
        self.fns = {f.id: f for f in fns}
        self.info = {f.id: Locks(P, f) for f in fns}
        self.mutable = mutable
        self.sum = {f.id: {} for f in fns}       # root -> (line, what)
        self.lv = {}
        change = True
        while change:
            change = False
            for f in fns:
                if self.scan(f):
                    change = True

    def root(self, f, n, depth=0):
        """whose state an expression denotes: 'this', a parameter number, 'own' (local or fresh), or None"""
        if n is None or depth > 20:
            return None
        k = n[0]
        if k == 'this':
            return 'this'
        if k == 'm':
            return self.root(f, n[2], depth + 1)
        if k in ('cast',):
            return self.root(f, n[-1], depth + 1)
        if k == 'u' and n[2] in ('*', '&'):
            return self.root(f, n[3], depth + 1)
        if k == 'v':
            for i, (vid, name, ty) in enumerate(f.params):
                if vid == n[2]:
                    return i if pointy(ty) else 'own'
            d = self.info[f.id].decls.get(n[2])
            if d is None:
                for lv in self.loopvars(f):
                    if lv[0] == n[2]:
                        return self.root(f, lv[2], depth + 1) if pointy(lv[1]) else 'own'
                return None
            if not pointy(d[1]):
                return 'own'
            return self.root(f, d[2], depth + 1) if d[2] is not None else 'own'
        if k == 'c':
            q = self.P.q(n[2])
            name = q.rsplit('::', 1)[-1]
            if n[3] is not None:
                inf = self.P.info.get(n[2])
                if inf is not None and not pointy(inf[2]) and not name.startswith('operator') and name not in ('begin', 'end', 'cbegin', 'cend', 'front', 'back', 'at', 'get', 'find'):
                    return 'own'
                return self.root(f, n[3], depth + 1)
            if name.startswith('make') or 'make_shared' in q:
                return 'own'
            if name in ('move', 'forward', 'dynamic_pointer_cast', 'static_pointer_cast', 'ref', 'addressof') and n[4]:
                return self.root(f, n[4][0], depth + 1)
            if name.startswith('operator') and n[4]:
                return self.root(f, n[4][0], depth + 1)
            return None
        if k == 'k':
            if pointy(n[2]) and n[4]:
                return self.root(f, n[4][0], depth + 1)
            return 'own'
        if k in ('new',):
            return 'own'
        if k == 'cond':
            for c in n[3:]:
                r = self.root(f, c, depth + 1) if isinstance(c, list) else None
                if r not in (None, 'own'):
                    return r
            return None
        return None

    def loopvars(self, f):
        if f.id not in self.lv:
            lv = self.lv[f.id] = []
            walk(f.body, lambda n: lv.append((n[2], n[4], n[5])) if n[0] == 'rf' else None)
        return self.lv[f.id]

    def note(self, f, root, line, what):
        if root in (None, 'own') or root in self.sum[f.id]:
            return False
        self.sum[f.id][root] = (line, what)
        return True

    def call_effects(self, c):
        """roots, seen from the caller, that a call changes: [(root, what)]"""
        f, P = c.fn, self.P
        inf = P.info.get(c.callee)
        out = []
        if inf is None:
            return out
        if c.callee in self.sum:
            s = self.sum[c.callee]
            for r in s:
                n = c.obj if r == 'this' else c.args[r] if isinstance(r, int) and r < len(c.args or ()) else None
                if n is not None:
                    out.append((self.root(f, n), inf[0], n))
        elif c.obj is not None and 'c' not in inf[4] and 's' not in inf[4] and inf[0].startswith('mx::'):
            out.append((self.root(f, c.obj), inf[0], c.obj))
        return out

    def scan(self, f):
        ch = False
        L = self.info[f.id]
        for a in L.acc:
            if a.write and (a.cls, a.field) not in self.mutable:
                r = self.base_root(f, a)
                ch |= self.note(f, r, a.line, a.field)
        for c in L.calls:
            for r, what, _ in self.call_effects(c):
                ch |= self.note(f, r, c.line, what)
        return ch

    def base_root(self, f, a):
        return self.root(f, a.node)
