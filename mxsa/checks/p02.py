"""P02: every child element is written and read back consistently."""
from ..core import *
from ..prog import pointee, bare, is_cont
from ..rep import parallel
from ..xsd import schema
from .p01 import get_name, written

PUSH = ('push_back', 'emplace_back', 'insert', 'push_front', 'emplace', 'emplace_front')
CLEAR = ('clear', 'pop_back', 'erase', 'pop_front')
ENDS = ('end', 'cend', 'attributesEnd')


def is_end(t):
    return t[0] == 'eq' and any(x[0] == 'endit' or x[0] == 'c' and x[1].rsplit('::', 1)[-1] in ENDS for x in t[1:3])


class Paths:
    """terms as places relative to the element: this.a.b -> 'a.b', a collection member -> 'a[]'"""

    def __init__(self, cls, events):
        self.cls = cls
        self.roots = {}
        self.places = {}      # object -> every place it is put
        todo = []
        for e in events:
            if e.kind == 'assign' and e.a[1][0] == 'new':
                todo.append((e.a[1], e.a[0], ''))
            elif e.kind == 'call' and e.a[2] is not None and e.a[0].rsplit('::', 1)[-1] in PUSH:
                for x in e.a[3]:
                    if x[0] == 'new':
                        todo.append((x, e.a[2], '[]'))
        for _ in range(3):
            for n, t, suf in todo:
                p = self.path(t)
                if p is not None:
                    self.places.setdefault(n, set()).add(p + suf)
                    if n not in self.roots:
                        self.roots[n] = p + suf

    def path(self, t):
        k = t[0]
        if k == 'this':
            return ''
        if k == 'f':
            p = self.path(t[1])
            return None if p is None else (p + '.' + t[2] if p else t[2])
        if k in ('elem', 'at', 'it'):
            p = self.path(t[1])
            return None if p is None else p + '[]'
        if k == 'c' and t[2] is not None and t[1].rsplit('::', 1)[-1] in ('front', 'back', 'begin', 'cbegin', 'operator*', 'operator->'):
            p = self.path(t[2])
            return None if p is None else (p if p.endswith('[]') else p + '[]')
        if k == 'new':
            return self.roots.get(t)
        return None


def alternatives(t, g=()):
    """ite target split into (condition, plain term)"""
    if t[0] == 'ite':
        return alternatives(t[2], g + (t[1],)) + alternatives(t[3], g + (neg(t[1]),))
    if t[0] in ('f', 'elem', 'at'):
        r = []
        for g2, x in alternatives(t[1], g) if t[1][0] in ('ite', 'f', 'elem', 'at') else [(g, t[1])]:
            r.append((g2, (t[0], x) + tuple(t[2:])))
        return r
    return [(g, t)]


class Effect:
    __slots__ = ('kind', 'path', 'val', 'e', 'alts')

    def __init__(self, kind, path, val, e):
        self.kind, self.path, self.val, self.e = kind, path, val, e


class Reader:
    def __init__(self, M, cls):
        self.M, self.cls = M, cls
        self.w = M.reader(cls)
        self.paths = Paths(cls, self.w.events)
        self.effects = []
        self.reads = []       # consumption events
        for e in self.w.events:
            if e.kind == 'assign':
                for g, t in alternatives(e.a[0]):
                    p = self.paths.path(t)
                    if p is not None:
                        self.effects.append(Effect('set', p, e.a[1], with_pc(e, g)))
            elif e.kind == 'call':
                q, n = e.a[0], e.a[0].rsplit('::', 1)[-1]
                if q == EI + '::fromXElement':
                    if 'ElementInterface.cpp' in e.where or any('processing' in str(x).lower() for x in ()):
                        continue
                    for g, t in alternatives(e.a[2]):
                        self.reads.append((with_pc(e, g), t, e.a[3][1] if len(e.a[3]) > 1 else None))
                elif e.a[2] is not None and n in PUSH:
                    for g, t in alternatives(e.a[2]):
                        p = self.paths.path(t)
                        if p is not None:
                            self.effects.append(Effect('push', p, None, with_pc(e, g)))
                elif e.a[2] is not None and n in CLEAR:
                    p = self.paths.path(e.a[2])
                    if p is not None:
                        self.effects.append(Effect('erase' if n in ('erase', 'pop_back', 'pop_front') else 'clear', p, None, e))


class Pc:
    """an event with additional conditions"""
    __slots__ = ('e', 'pc', 'seq')

    def __init__(self, e, g):
        self.e, self.pc, self.seq = e, tuple(e.pc) + tuple(x for x in g if x not in e.pc), e.seq

    @property
    def where(self):
        return self.e.where


def with_pc(e, g):
    return Pc(e, g)


def child_names(M, cls, X, pc):
    """element names the child X can have here: the positive name tests on it (the latest decides), else the excluded ones"""
    pos, excl = None, set()

    def scan(l):
        nonlocal pos
        g = get_name(l)
        if g and g[0] == X:
            pos = [g[1]]
        elif l[0] == 'not':
            g = get_name(l[1])
            if g and g[0] == X:
                excl.add(g[1])
        elif l[0] == 'or':
            ns = []
            for y in l[1:]:
                g = get_name(y)
                if g is None and y[0] == 'and':
                    gs = [get_name(z) for z in y[1:]]
                    gs = [z for z in gs if z and z[0] == X]
                    g = gs[0] if len(gs) == 1 else None
                if not (g and g[0] == X):
                    return
                ns.append(g[1])
            pos = ns
    for l in pc:
        scan(l)
    if pos and len(pos) > 1:
        pos = [n for n in pos if n not in excl] or pos
    return pos, excl


def tested(pc):
    """[(X, name)] of all positive name tests"""
    return [g for l in pc for g in [get_name(l)] if g]


class Truth:
    """what is known when the child of event e is consumed"""

    def __init__(self, pc):
        self.lits = set(pc)
        self.name = {}
        pos = {}
        for l in pc:
            g = get_name(l)
            if g:
                pos.setdefault(g[0], set()).add(g[1])
        for x, ns in pos.items():
            if len(ns) == 1:
                self.name[x] = next(iter(ns))

    def atom(self, t):
        a, b = t in self.lits, neg(t) in self.lits
        if a != b:
            return a
        g = get_name(t)
        if g and g[0] in self.name:
            return self.name[g[0]] == g[1]
        if is_end(t):
            return False
        return None

    def of(self, pc):
        r = True
        for l in pc:
            if l in self.lits:
                continue
            v = evalf(l, self.atom)
            if v is False:
                return False
            if v is None:
                r = None
        return r


class State:
    """fresh object plus certain effects"""

    def __init__(self, M, cls, paths):
        self.M, self.cls, self.paths = M, cls, paths
        self.v, self.nonempty, self.present, self.maybe = {}, {}, set(), set()

    def apply(self, eff, truth):
        some = {}
        for x in eff:
            t = truth.of(x.e.pc)
            if t is False:
                continue
            if x.kind == 'erase' and any(y.kind == 'push' and y.path == x.path and y.e.seq < x.e.seq and set(y.e.pc) <= set(x.e.pc) for y in eff):
                continue      # one in, one out
            if t is None and x.path not in self.maybe:
                # what it would establish holds already
                if x.kind == 'set' and not x.path.endswith('[]') and self.v.get(x.path) == x.val and x.val[0] in ('bo', 'e', 'n'):
                    continue
                if x.kind == 'push' and self.nonempty.get(x.path) or x.kind == 'set' and x.path.endswith('[]') and self.nonempty.get(x.path[:-2]):
                    continue
            if t is None:
                self.maybe.add(x.path)
                base = x.path[:-2] if x.path.endswith('[]') else x.path
                some.setdefault(base, []).append(x)
                continue
            self.maybe.discard(x.path)
            some.pop(x.path, None)
            if x.kind == 'set':
                self.v[x.path] = x.val
                if x.path.endswith('[]'):
                    self.nonempty[x.path[:-2]] = True
            elif x.kind == 'push':
                self.nonempty[x.path] = True
            else:
                self.nonempty[x.path] = False
        # one of several ways of putting a member in place is taken in any case
        for base, xs in some.items():
            if any(x.kind in ('clear', 'erase') or x.kind == 'set' and x.path == base for x in xs):
                continue
            if decide(disj([conj([l for l in x.e.pc if l not in truth.lits]) for x in xs]), truth.atom) is True:
                self.nonempty[base] = True
                self.maybe.discard(base)
                self.maybe.discard(base + '[]')

    def initial(self, t):
        """value of field term t in a fresh object"""
        if t[0] != 'f':
            return None
        st = self.M.ctor_state(t[3]) if t[3] in self.M.P.rec else {}
        v = st.get(t[2])
        if v is None and t[3] in self.M.P.rec:
            own = pointee(type_of(t[1])) if t[1][0] != 'this' else t[1][1]
            v = self.M.ctor_state(own).get(t[2]) if own in self.M.P.rec else None
        return v

    def value(self, t):
        p = self.paths.path(t)
        if p is None:
            return None, True
        if p in self.maybe:
            return None, True
        if p in self.v:
            return self.v[p], False
        return self.initial(t), False

    def atom(self, t):
        k = t[0]
        if k == 'f':
            v, m = self.value(t)
            return v[1] if v is not None and v[0] == 'bo' else None
        if k == 'eq':
            for a, b in ((t[1], t[2]), (t[2], t[1])):
                if b[0] in ('e', 'n', 'bo') and a[0] == 'f':
                    v, m = self.value(a)
                    if v is not None and v[0] == b[0]:
                        return v[1] == b[1]
                    return None
            if is_end(t):
                return False
        if k == 'empty':
            p = self.paths.path(t[1])
            if p is None or p in self.maybe:
                return None
            if p in self.nonempty:
                return not self.nonempty[p]
            return self.initially_empty(t[1])
        if k == 'lt' and t[1][0] == 'size' and t[2][0] == 'n':
            p = self.paths.path(t[1][1])
            if p in self.nonempty and self.nonempty[p] and t[2][1] <= 1:
                return False
        if k == 'isnull':
            p = self.paths.path(t[1])
            if p is None:
                return None
            if any(q == p or q.startswith(p + '.') or q.startswith(p + '[') for q in self.present):
                return False
            v, m = self.value(t[1])
            if v is None:
                return None
            return {'new': False, 'null': True}.get(v[0])
        return None

    def initially_empty(self, t):
        if t[0] != 'f':
            return None
        M = self.M
        own = t[3]
        key = (own, 'pushes')
        if key not in M._cache:
            s = set()
            for f in M.ctors(own):
                w = Walker(inline=M.inline, opaque_fn=M.opaque_fn).run(f, this=('this', own))
                for e in w.events:
                    if e.kind == 'call' and e.a[2] is not None and e.a[0].rsplit('::', 1)[-1] in PUSH and e.a[2][0] == 'f':
                        s.add(e.a[2][2])
            M._cache[key] = s
        return t[2] not in M._cache[key]

    def guard(self, pc):
        return evalpc(pc, self.atom)


def prefixes(p):
    out = []
    for i, c in enumerate(p):
        if c in '.[':
            out.append(p[:i])
    return out


def target_class(M, t):
    return pointee(type_of(t))


def run(rep, P):
    M = Model(P, embed=True)
    rep.rule('read-where-written', 'a child that is read is stored at a place from which the writer takes a child', 400)
    rep.rule('read-by-name', 'a child is read into an object of the class that has that element name, from the child itself', 350)
    rep.rule('written-after-reading', 'after a child has been read, the condition under which the writer emits it holds', 400)
    rep.rule('written-is-readable', 'every child the writer can emit is recognised by the reader', 400)
    rep.rule('no-clobbering', 'reading one child does not undo what an earlier child of the same parent established', 2000)
    rep.rule('absent-not-written', 'a child that the schema does not require is not written by a fresh element', 150)
    rep.rule('content', 'the text content that is written comes from the place into which the text content is read', 150)
    rep.rule('has-contents', 'an element that would write a child says that it has contents', 350)
    S = schema()
    parallel([c for c in M.elements if M.names(c) and not M.is_group(c)], lambda c, r: one(r, P, M, S, c), rep)


def one(rep, P, M, S, cls):
    short = cls.rsplit('::', 1)[-1]
    W, rd = M.writer(cls), M.reader(cls)
    if W is None or rd is None:
        return
    rep.saw(M.method(cls, 'streamContents'), M.method(cls, 'fromXElementImpl'))
    R = Reader(M, cls)
    wp = Paths(cls, W.events)
    writes = []    # (path, term, pc, event)
    odd = False
    for e in W.events:
        if e.kind == 'call' and e.a[0] == EI + '::toStream':
            for g, t in alternatives(e.a[2]):
                p = wp.path(t)
                if p is None:
                    odd = True
                    continue
                writes.append((p, t, tuple(e.pc) + g, e))
    own = [n for g, n in M.names(cls)]
    bypath = {}
    for w in writes:
        bypath.setdefault(w[0], []).append(w)
    types = [t for n in own for t in S.types.get(n, [])]
    if odd or rd.unknown:
        rep.skip('read-where-written', short, 'writer or reader not fully understood')
    fresh = State(M, cls, R.paths)
    # does this class dispatch on the name of the element it is given?
    args = [l for e in rd.events for l in e.pc for g in [get_name(l[1] if l[0] == 'not' else l)] if g and g[0][0] == 'arg' and g[1] not in own]
    group = bool(args)
    readpaths, consumed = set(), []
    for e, t, X in R.reads:
        if t[0] == 'c' and 'getNext' in t[1]:
            continue
        p = R.paths.path(t)
        tc = target_class(M, t)
        tnames = [n for g, n in (M.names(tc) or [])] if tc in P.rec else []
        pos, excl = child_names(M, cls, X, e.pc)
        key = '%s<%s>' % (short, p if p is not None else show(t)[:60])
        nkey = '%s<%s>' % (short, '|'.join(tnames) or p)
        # from the child itself, under its name
        others = [n for x, n in tested(e.pc) if x != X and n in tnames]
        if X is not None and X[0] == 'arg' and not group and tnames and not set(tnames) & set(own):
            rep.bad('read-by-name', nkey, e.where, '%s reads <%s> from its own element instead of from the child of that name' % (short, tnames[0]))
        elif pos is None and others:
            rep.bad('read-by-name', nkey, e.where, '%s reads <%s> from another element than the one whose name was tested' % (short, others[0]))
        elif pos is not None and tnames and None not in tnames:
            wrong = [n for n in pos if n not in tnames]
            if group_like(M, tc):
                rep.skip('read-by-name', nkey, 'target dispatches on the name itself')
            else:
                rep.ob(not wrong, 'read-by-name', nkey + ':' + '|'.join(pos), e.where, '%s reads <%s> into an object that is written as <%s>' % (short, '|'.join(wrong), '|'.join(tnames)), nkey)
        else:
            rep.skip('read-by-name', nkey, 'no single name test on the child')
        if p is None:
            rep.skip('read-where-written', key, 'target not a place of the element: ' + t[0])
            continue
        readpaths.add(p)
        if t[0] == 'new':
            readpaths |= R.paths.places.get(t, set())
        ws = bypath.get(p)
        if ws is None and p.endswith('[]') is False and p + '[]' in bypath:
            ws = bypath[p + '[]']
        if ws is None:
            ws = deeper(M, p, t, bypath) or None
        if ws is None:
            if odd:
                rep.skip('read-where-written', key, 'writer not fully understood')
            else:
                rep.bad('read-where-written', key, e.where, '%s reads <%s> into %s, from where nothing is written' % (short, '|'.join(pos or tnames or ['?']), p))
            continue
        rep.ok('read-where-written', key)
        # state after reading
        tr = Truth(e.pc)
        st = State(M, cls, R.paths)
        st.present.add(p)
        st.apply(R.effects, tr)
        g = [st.guard(w[2]) for w in ws]
        if p.endswith('[]') and p[:-2] not in st.nonempty:
            # the member must end up in the collection
            root = t
            while root[0] in ('f', 'elem', 'at') and root[0] == 'f':
                root = root[1]
            if root[0] == 'new' and p[:-2] not in st.maybe and not st.v.get(p):
                g = [False]
        if any(x is True for x in g):
            rep.ok('written-after-reading', key)
            consumed.append((e, t, p, pos, tnames, tr, st, ws))
        elif all(x is False for x in g):
            rep.bad('written-after-reading', key, e.where, '%s: after <%s> has been read it is not written again (%s)' % (short, '|'.join(pos or tnames), ' / '.join(show(conj(list(w[2]))) for w in ws)[:300]))
        else:
            rep.skip('written-after-reading', key, 'writer condition not decided')
    # written -> readable
    for p, t, pc, e in writes:
        tc = target_class(M, t)
        nm = [n for g, n in (M.names(tc) or [])]
        key = '%s<%s>' % (short, p)
        if p in readpaths:
            rep.ok('written-is-readable', key)
            continue
        # an empty element has nothing to read: recognising its name and switching it on is enough
        if len(nm) == 1 and M.leaf(tc) and any(by_name_on(M, R, nm[0], pc, x) for x in name_tests(R.w.events, nm[0])):
            rep.ok('written-is-readable', key)
            continue
        if any(R.paths.path(t2) is None for e2, t2, X2 in R.reads) and not all(R.paths.path(t2) is not None for e2, t2, X2 in R.reads):
            rep.skip('written-is-readable', key, 'some reads not understood')
            continue
        rep.bad('written-is-readable', key, e.where, '%s writes <%s> from %s but never reads it' % (short, '|'.join(map(str, nm)), p))
    # absent children
    for p, t, pc, e in writes:
        tc = target_class(M, t)
        nm = [n for g, n in (M.names(tc) or [])]
        if not types or len(nm) != 1 or nm[0] is None:
            continue
        types_ = types
        if not any(tp.content and nm[0] in S.children(tp.content) for tp in types):
            # a child of a named part that this element writes in full
            x = t
            while x[0] in ('elem', 'at', 'it') or x[0] == 'f' and x[2] == '':
                x = x[1]
            o = x[3] if x[0] == 'f' and len(x) > 3 else None
            types_ = [tp for g, n in (M.names(o) or []) for tp in S.types.get(n, [])] if o in P.rec else []
            if not types_:
                continue
        need = max(S.min_count(tp.content, nm[0]) for tp in types_)
        if need > 0:
            continue
        # exempt: an alternative of a required choice
        if any(required_choice(S, tp.content, nm[0]) for tp in types_):
            continue
        fr = State(M, cls, wp)
        if e.loops:
            c = t
            while c[0] == 'f':
                c = c[1]
            base = c[1] if c[0] in ('elem', 'at') else None
            v = conj([neg(('empty', base))] + list(pc)) if base else conj(list(pc))
        else:
            v = conj(list(pc))
        r = evalf(v, fr.atom)
        key = '%s<%s>' % (short, nm[0])
        if r is None:
            rep.skip('absent-not-written', key, 'condition not decided for a fresh object')
        else:
            rep.ob(r is False, 'absent-not-written', key, e.where, 'a fresh %s writes <%s>, which the schema does not require' % (short, nm[0]), key)
    # clobbering
    for i, (e, t, p, pos, tn, tr, st, ws) in enumerate(consumed):
        a = pos or tn
        if len(a) != 1 or not types or not any(st.guard(w[2]) is True for w in ws):
            continue
        verdict = {}      # later child name -> [(lost?, how, event, place)]
        for e2, t2, p2, pos2, tn2, tr2, st2, ws2 in consumed:
            b = pos2 or tn2
            if p2 == p or e2 is e or len(b) != 1 or a == b:
                continue
            if not any(S.can_precede(tp.content, a[0], b[0]) for tp in types):
                continue
            # objects made anew for the second child are not the first one's
            s3 = State(M, cls, R.paths)
            s3.v, s3.nonempty, s3.present, s3.maybe = dict(st.v), dict(st.nonempty), set(st.present), set(st.maybe)
            s3.apply([x for x in R.effects if '[]' not in x.path and not x.path.startswith(p + '.')], tr2)
            g = [s3.guard(w[2]) for w in ws]
            if all(x is False for x in g):
                v = 'discards'
            elif any(x is True for x in g):
                # the place itself is not replaced
                lost = [x for x in R.effects if x.kind == 'set' and (x.path == p or p.startswith(x.path + '.')) and tr2.of(x.e.pc) is True and x.val[0] in ('new', 'null')]
                v = 'replaces the object that holds' if lost else ''
            else:
                v = None
            verdict.setdefault(b[0], []).append((v, e2, p2))
        for b, vs in verdict.items():
            key = '%s<%s>then<%s>' % (short, a[0], b)
            if any(v[0] == '' for v in vs):
                rep.ok('no-clobbering', key)
            elif any(v[0] is None for v in vs):
                rep.skip('no-clobbering', key, 'not decided')
            else:
                rep.bad('no-clobbering', key, vs[0][1].where, '%s: reading <%s> after <%s> %s the latter' % (short, b, a[0], vs[0][0]))
    has_contents(rep, M, cls, short)
    content(rep, M, cls, short, W, R)


def has_contents(rep, M, cls, short):
    """contents are only streamed when hasContents says so"""
    from .p03 import valid
    H = M.method(cls, 'hasContents')
    if H is None or H.cls == EI:
        return
    Wh, W = M.walk(cls, 'hasContents'), M.writer(cls)
    has = disj([conj(list(pc) + [v]) for pc, v in Wh.returns()])

    def atom(x):
        return False if x[0] == 'isnull' else None
    done = set()
    for e in W.events:
        if e.kind == 'call' and e.a[0] == EI + '::toStream':
            for g, t in alternatives(e.a[2]):
                pc = list(e.pc) + list(g)
                if e.loops:
                    c = t
                    while c[0] == 'f':
                        c = c[1]
                    while c[0] in ('elem', 'at'):
                        pc.append(neg(('empty', c[1])))
                        c = c[1]
                        while c[0] == 'f':
                            c = c[1]
                tc = pointee(type_of(t))
                nm = [n for g2, n in (M.names(tc) or [])] if tc in M.P.rec else []
                key = '%s<%s>' % (short, '|'.join(map(str, nm)) or show(t))
                if key in done:
                    continue
                done.add(key)
                r = valid(M, disj([neg(conj(pc)), has]), atom)
                if r is None:
                    rep.skip('has-contents', key, 'not decided')
                else:
                    rep.ob(r, 'has-contents', key, e.where, '%s::hasContents can be false although <%s> would be written' % (short, '|'.join(map(str, nm))), key)


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) for x in t)
    return t


def deeper(M, p, t, bypath):
    """the place belongs to a named child whose own writer emits it"""
    x, out = t, []
    chain = []
    while x[0] == 'f':
        chain.insert(0, x[2])
        x = x[1]
        c = pointee(type_of(x))
        q = p[:len(p) - len('.' + '.'.join(chain))] if p.endswith('.' + '.'.join(chain)) else None
        if q not in bypath or c not in M.P.rec:
            continue
        w = M.writer(c)
        if w is None:
            continue
        pp = Paths(c, w.events)
        for e in w.events:
            if e.kind == 'call' and e.a[0] == EI + '::toStream':
                for g, t2 in alternatives(e.a[2]):
                    if pp.path(t2) == '.'.join(chain):
                        for o in bypath[q]:
                            out.append((p, t, o[2] + subst(tuple(e.pc) + g, ('this', c), x), e))
        if out:
            return out
    return out


def name_tests(events, n):
    out = []
    for e in events:
        if any(g and g[1] == n for l in e.pc for g in [get_name(l)]) and tuple(e.pc) not in out:
            out.append(tuple(e.pc))
    return out


def by_name_on(M, R, n, wpc, pc):
    st = State(M, R.cls, R.paths)
    st.apply(R.effects, Truth(pc))
    return st.guard(wpc) is not False


def required_choice(S, p, n):
    """n occurs (only) as one alternative of a choice that must be taken"""
    if p is None or p[0] == 'elem':
        return False
    if p[0] == 'choice':
        if p[1] >= 1 and n in S.children(p):
            for k in p[3]:
                if k[0] == 'elem' and k[3] == n or n in S.children(k) and k[1] >= 1 and S.min_count(k, n) > 0:
                    return True
        return any(required_choice(S, k, n) for k in p[3])
    return any(required_choice(S, k, n) for k in p[3])


def group_like(M, cls):
    """a class whose reader looks at the name of the element it is given"""
    key = (cls, 'grouplike')
    if key not in M._cache:
        r = False
        w = M.reader(cls)
        own = [n for g, n in (M.names(cls) or [])]
        for e in (w.events if w else ()):
            for l in e.pc:
                g = get_name(l[1] if l[0] == 'not' else l)
                if g and g[0][0] == 'arg' and g[1] not in own:
                    r = True
        M._cache[key] = r
    return M._cache[key]


def content(rep, M, cls, short, W, R):
    outs = []
    for e, o, v in out_events(W.events):
        if v[0] in ('s', 'ch', 'fnref', 'n'):
            continue
        t = v
        while t[0] == 'c' and (t[2] is not None and not t[3] or t[2] is None and len(t[3]) == 1):
            t = t[2] if t[2] is not None else t[3][0]
        p = R.paths.path(t)
        if p is not None and 'myProcessingInstructions' not in p:
            outs.append((p, e))
    ins = {}
    for e in R.w.events:
        tgt, srcs = None, []
        if e.kind == 'assign':
            tgt, srcs = e.a[0], [e.a[1]]
        elif e.kind == 'call' and e.a[2] is not None and e.a[0].rsplit('::', 1)[-1].startswith(('parse', 'set', 'tryParse', 'operator=')):
            tgt, srcs = e.a[2], list(e.a[3])
        if tgt is None:
            continue
        p = R.paths.path(tgt)
        if p is None:
            continue
        if any(x[0] == 'c' and x[1].rsplit('::', 1)[-1] == 'getValue' for s in srcs for x in subterms(s)) or e.kind == 'assign' and e.a[1][0] in ('lv', 'upd', 'ite'):
            ins.setdefault(p, []).append(e)
    for p, e in outs:
        key = '%s.%s' % (short, p)
        hit = [q for q in ins if q == p or p.startswith(q + '.') or q.startswith(p + '.')]
        if hit:
            rep.ok('content', key)
        else:
            rep.bad('content', key, e.where, '%s writes its text from %s but reading stores no text there' % (short, p))
