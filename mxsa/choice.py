"""Elements that hold one of several alternatives: which accessor belongs to which alternative.
Derived from what the class writes for each value of its choice, not from names."""
from .prog import bare, walk
from .reach import Reach


class Choices:
    def __init__(self, P):
        self.P = P
        self.memo = {}

    def of(self, cls):
        """(enum, choice field, {method name: set of alternatives}) of a class with alternatives, or None"""
        if cls not in self.memo:
            self.memo[cls] = self.make(cls)
        return self.memo[cls]

    def make(self, cls):
        P = self.P
        if cls not in P.rec:
            return None
        get = [f for f in P.methods(cls, 'getChoice') if f.body is not None and not f.params and bare(f.ret) in P.enums]
        st = [f for f in P.methods(cls, 'streamContents') if f.body is not None]
        if not get or not st:
            return None
        enum = bare(get[0].ret)
        fields = self.fields(get[0], set())
        if len(fields) != 1:
            return None
        field = next(iter(fields))
        by = {}
        for c in P.enums[enum]['c']:
            alt = ('e', enum + '::' + c[0])
            seen = set()

            def oracle(R, n, env):
                if n[0] == 'm' and n[3] == field:
                    return alt
                if n[0] == 'c' and P.fn.get(n[2]) is get[0]:
                    return alt
                return None

            def visit(R, n, env):
                if n[0] == 'c':
                    for x in ([n[3]] if n[3] is not None else []) + (n[4] or []):
                        walk(x, lambda y: seen.add(y[3]) if y[0] == 'm' else None)
                    f = P.fn.get(n[2])
                    if f is not None and f.cls == cls:
                        seen.update(self.fields(f, set()))
                return env
            R = Reach(P, oracle, None, visit)
            # range-for over a member as well
            for f in st:
                def rf(n):
                    if n[0] == 'rf':
                        pass
                R.run(f, {})
                self.loops(R, f, oracle, seen)
            by[alt[1]] = seen - {field}
        common = set.intersection(*by.values()) if by else set()
        out = {}
        for f in P.methods(cls):
            if f.body is None or f.name in ('streamContents', 'getChoice', 'setChoice', 'fromXElementImpl', 'hasContents') or f.name.startswith('~'):
                continue
            touched = self.fields(f, set()) - {field} - common
            alts = {a for a, fs in by.items() if fs & touched}
            if touched and alts and len(alts) < len(by):
                out[f.name] = alts
        return enum, field, out

    def loops(self, R, f, oracle, seen):
        """collections the writer runs over"""
        def visit_rf(n):
            if n[0] == 'rf':
                rng.append(n)
        rng = []
        walk(f.body, visit_rf)
        if not rng:
            return
        marks = {id(n): n for n in rng}
        hit = set()
        ex = R.ex

        def spy(n, env):
            if n is not None and env is not None and id(n) in marks:
                hit.add(id(n))
            return type(R).ex(R, n, env)
        R.ex = spy
        R.run(f, {})
        R.ex = ex
        for i in hit:
            walk(marks[i][5], lambda y: seen.add(y[3]) if y[0] == 'm' else None)
            def call(y):
                if y[0] == 'c':
                    g = self.P.fn.get(y[2])
                    if g is not None and g.cls == f.cls:
                        seen.update(self.fields(g, set()))
            walk(marks[i][5], call)

    def fields(self, f, done):
        if f.id in done:
            return set()
        done.add(f.id)
        out = set()

        def look(n):
            if n[0] == 'm' and n[2] and n[2][0] == 'this':
                out.add(n[3])
            elif n[0] == 'c' and (n[3] is None or n[3][0] == 'this'):
                g = self.P.fn.get(n[2])
                if g is not None and g.cls == f.cls and g.body is not None:
                    out.update(self.fields(g, done))
        walk(f.body, look)
        return out
