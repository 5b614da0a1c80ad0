"""The document model seen as data: for every element and attribute-set class, what its writer emits and
under which conditions, and what its reader accepts and where it puts it."""
import re
from .prog import prog, bare, pointee, value_type, is_cont
from .sym import Walker, show, evalf, evalpc, decide, neg, conj, disj, subterms, TRUE, FALSE, is_bool, type_of

EI = 'mx::core::ElementInterface'
AI = 'mx::core::AttributesInterface'


def is_element(P, c):
    return c and P.derives(c, EI) and c != EI


def is_attrs(P, c):
    return c and P.derives(c, AI) and c != AI


def is_value_class(P, c):
    return c and c.startswith('mx::core::') and c in P.rec and not P.derives(c, EI) and not P.derives(c, AI)


class Model:
    def __init__(self, P=None, embed=False):
        """embed: look also into named classes that do not read themselves (their parent reads their children)"""
        self.embed = embed
        self.P = P or prog()
        P = self.P
        self.elements = sorted(c for c in P.rec if c.startswith('mx::core::') and is_element(P, c))
        self.attrs = sorted(c for c in P.rec if c.startswith('mx::core::') and is_attrs(P, c) and not P.rec[c]['fl'].endswith('A'))
        self._cache = {}

    # ---- function lookup through the class hierarchy
    def method(self, cls, name):
        fs = [f for f in self.P.find_method(cls, name) if f.body]
        return fs[0] if fs else None

    def inline(self, f, obj, ts):
        P = self.P
        n = f.name
        if is_value_class(P, f.cls):
            return False
        if not f.cls and len(f.params) <= 2 and (n in ('toString', 'toStream', 'operator<<') or n.startswith(('parse', 'tryParse'))):
            if not any('ezxml' in t or 'Iterator' in t for t in f.ptypes):
                if not any(P.derives(pointee(t), EI) or P.derives(pointee(t), AI) for t in f.ptypes if pointee(t) in P.rec):
                    return False
        return True

    def opaque_fn(self, f, obj):
        """reading and writing a named child is one step; the nameless grouping classes are looked into"""
        if f.name in ('fromXElement', 'toStream') and f.cls == EI:
            c = pointee(type_of(obj)) if obj else None
            return not self.is_group(c)
        return f.cls == AI and f.name == 'fromXElement'

    def is_group(self, c):
        """a class that stands for a part of its parent's content, not for an element of its own"""
        if not (c in self.P.rec and is_element(self.P, c) and self.method(c, 'streamName')):
            return False
        key = (c, 'group')
        if key not in self._cache:
            self._cache[key] = False
            ns = self.names(c)
            r = not ns
            if not r:
                # an alternative or part that borrows the name of the element that contains it
                for o in self.by_name().get(ns[0][1], ()):
                    if o != c and any(re.search(re.escape(c) + r'\b(?!::)', f[1]) for f in self.P.fields(o).values()):
                        r = True
                sharing = [o for o in self.by_name().get(ns[0][1], ()) if o != c]
                if not r and sharing and self.stub(c):
                    r = True
            if not r and self.embed and self.stub(c) and not self.leaf(c):
                r = True
            self._cache[key] = r
        return self._cache[key]

    def by_name(self):
        if 'by_name' not in self._cache:
            d = {}
            for c in self.elements:
                for g, n in self.names(c) or ():
                    d.setdefault(n, []).append(c)
            self._cache['by_name'] = d
        return self._cache['by_name']

    def stub(self, c):
        """the class has a reader that reads nothing"""
        w = Walker(inline=lambda *a: False)
        f = self.method(c, 'fromXElementImpl')
        if f is None:
            return False
        w.run(f, this=('this', c))
        return not any(e.kind in ('call', 'assign') for e in w.events)

    def leaf(self, c):
        """nothing but the name is ever written"""
        f = self.method(c, 'streamContents')
        w = Walker(inline=lambda *a: False).run(f, this=('this', c)) if f else None
        return not w or not any(e.kind == 'call' and e.a[0].rsplit('::', 1)[-1] in ('toStream', 'streamContents', 'operator<<') for e in w.events) and not any(e.kind == 'out' and e.a[1][0] not in ('s', 'ch') for e in w.events)

    def reader(self, cls):
        return self.walk(cls, 'fromXElementImpl')

    def writer(self, cls):
        return self.walk(cls, 'streamContents')

    def walk(self, cls, name, opaque=(), inline=None, fn=None):
        f = fn or self.method(cls, name)
        if f is None or not f.body:
            return None
        key = (cls, name, tuple(opaque), f.id)
        if key not in self._cache:
            w = Walker(inline=inline or self.inline, opaque=opaque, opaque_fn=None if name == 'streamName' else self.opaque_fn)
            w.run(f, this=('this', cls))
            self._cache[key] = w
        return self._cache[key]

    def ctors(self, cls):
        """constructors with a body that create a fresh object (no copy or move)"""
        out = []
        for f in self.P.by_cls.get(cls, ()):
            if f.name == cls.rsplit('::', 1)[-1] and f.body is not None and 'k' in f.flags:
                if len(f.ptypes) == 1 and pointee(f.ptypes[0]) == cls:
                    continue
                out.append(f)
        return out

    def ctor_state(self, cls, f=None):
        """field -> value after construction (fields whose value is certain)"""
        key = (cls, 'ctor', f.id if f else 0)
        if key in self._cache:
            return self._cache[key]
        if f is None:
            fs = self.ctors(cls)
            zero = [x for x in fs if not x.params]
            f = (zero or fs or [None])[0]
        st = {}
        if f is not None:
            w = Walker(inline=self.inline, opaque_fn=self.opaque_fn)
            w.run(f, this=('this', cls))
            for e in w.events:
                if e.kind == 'assign' and e.a[0][0] == 'f' and e.a[0][1] == ('this', cls):
                    st[e.a[0][2]] = e.a[1] if not e.pc else None
        self._cache[key] = st
        return st

    # ---- names
    def names(self, cls):
        """the element names an object of the class can write, as (guard, string), or None"""
        w = self.walk(cls, 'streamName')
        if w is None:
            return None
        outs = merge_out(w.events)
        res = []
        for g, t in outs:
            res += name_alts(g, t)
        return res


def name_alts(g, t):
    if t[0] == 's':
        return [(g, t[1])]
    if t[0] == 'ite':
        return name_alts(g + (t[1],), t[2]) + name_alts(g + (neg(t[1]),), t[3])
    return [(g, None)]


def out_events(events):
    """stream output on a caller-supplied stream: (guard, term) in program order; covers <<, and opaque toStream(os, x)"""
    for e in events:
        if e.kind == 'out':
            yield e, e.a[0], e.a[1]
        elif e.kind == 'call':
            q, fid, obj, args = e.a[0], e.a[1], e.a[2], e.a[3]
            n = q.rsplit('::', 1)[-1]
            if n in ('toStream', 'operator<<') and obj is None and len(args) == 2:
                yield e, args[0], args[1]
            elif n == 'toStream' and obj is not None and len(args) == 1:
                yield e, args[0], obj
            elif n in ('write', 'put') and obj is not None and len(args) >= 1 and 'basic_ostream' in q:
                yield e, obj, args[0]


def merge_out(events):
    """adjacent outputs under one condition joined"""
    res = []
    for e, o, v in out_events(events):
        if v[0] == 'fnref':
            continue
        if v[0] == 'ch':
            v = ('s', chr(v[1]))
        if res and res[-1][0] == e.pc and res[-1][1][0] == 's' and v[0] == 's':
            res[-1] = (e.pc, ('s', res[-1][1][1] + v[1]))
        else:
            res.append((e.pc, v))
    return res
