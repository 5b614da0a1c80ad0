"""P05: element accessors never hand out null."""
from ..core import *
from ..prog import bare, pointee
from ..rep import parallel

PUSH = ('push_back', 'emplace_back', 'insert', 'push_front', 'emplace')


def run(rep, P):
    rep.rule('constructed', 'after construction every child held by pointer exists, or is left to its accessors (rule returned) to create', 600)
    rep.rule('assigned', 'a pointer is stored in an element only where it is known not to be null', 640)
    rep.rule('added', 'a pointer is added to a collection of an element only where it is known not to be null', 190)
    rep.rule('returned', 'an accessor returns a pointer known not to be null (null only for the end of a collection)', 680)
    rep.rule('used', 'a child that is created on first access is not used inside the element before it exists', 1100)
    M = Model(P)
    X = Ctx(P, M)
    parallel(sorted(X.classes), lambda c, r: one(r, X, c), rep)


class Ctx:
    def __init__(self, P, M):
        self.P, self.M = P, M
        self.ptr, self.sets = {}, {}
        for c in P.rec:
            if not c.startswith('mx::core::'):
                continue
            for n, fd in P.fields(c).items():
                t = fd[1].replace('const ', '')
                if t.startswith('std::shared_ptr<'):
                    self.ptr[c, n] = t
                elif is_cont(t) and 'std::shared_ptr<' in t.split('allocator')[0]:
                    self.sets[c, n] = t
        self.classes = {c for c, n in list(self.ptr) + list(self.sets)}
        self.sum = {}

    def methods(self, c):
        out = []
        for f in self.P.by_cls.get(c, ()):
            if f.body is None:
                continue
            if len(f.ptypes) == 1 and bare(f.ptypes[0]).rstrip('& ') == c and ('k' in f.flags or f.name == 'operator='):
                continue
            out.append(f)
        return out

    def inline(self, f, obj, ts):
        if not self.M.inline(f, obj, ts):
            return False
        # helpers of the class itself and free helpers that work on its parts; other elements answer for themselves
        return obj is None or obj[0] == 'this' or not (f.cls and is_element(self.P, f.cls))

    def walk(self, c, f):
        k = (c, f.id)
        if k not in self.sum:
            w = Walker(inline=self.inline, opaque_fn=self.M.opaque_fn)
            w.run(f, this=('this', c))
            self.sum[k] = w
        return self.sum[k]

    def field(self, t, c):
        """(class, name) of an own pointer field"""
        if t[0] == 'f' and len(t) > 3 and t[1] == ('this', c):
            return (t[3], t[2])
        return None

    def nonnull(self, v, pc, good=None, depth=0):
        """True: cannot be null here; False: can be null (or nothing rules it out); None: not understood"""
        if depth > 12:
            return None
        k = v[0]
        if k in ('new', 'this'):
            return True
        if k == 'null':
            return False
        g = evalpc(pc, lambda x: True if x == ('isnull', v) else None)
        if g is False:
            return True
        if k == 'ite':
            a = self.nonnull(v[2], pc + (v[1],), good, depth + 1) if dead(pc, v[1]) is not True else True
            b = self.nonnull(v[3], pc + (neg(v[1]),), good, depth + 1) if dead(pc, neg(v[1])) is not True else True
            return False if a is False or b is False else True if a and b else None
        if k == 'f' and len(v) > 3 and ((v[3], v[2]) in self.ptr):
            if v[1][0] == 'this':
                return True if good is None or (v[3], v[2]) in good else False
            return True
        if k in ('elem', 'at', 'front', 'back', 'deref'):
            return True             # a member of a collection: the collections hold no null
        if k == 'val' and v[1].startswith('std::shared_ptr<'):
            if not v[2]:
                return False
            return self.nonnull(v[2][0], pc, good, depth + 1) if len(v[2]) == 1 else None
        if k == 'c':
            n = v[1].rsplit('::', 1)[-1]
            if n in ('make_shared', 'makeShared'):
                return True
            if n in ('dynamic_pointer_cast', 'lock'):
                return False
            if n in ('static_pointer_cast', 'move', 'forward', 'const_pointer_cast') and len(v[3]) == 1:
                return self.nonnull(v[3][0], pc, good, depth + 1)
            if v[2] is not None and v[1].startswith('mx::core::') and n.startswith('get') and not v[3]:
                return True         # an accessor of another element, answered for there
            return None
        if k == 'arg':
            return False
        return None


def dead(pc, l):
    return evalpc(pc, lambda x: False if x == l else None) is False or None


def one(rep, X, c):
    P, M = X.P, X.M
    own = {n for cc, n in X.ptr if cc == c}
    short = c.rsplit('::', 1)[-1]
    # construction
    good = set()
    ctors = [f for f in X.methods(c) if 'k' in f.flags]
    state = {}
    for f in ctors:
        st = {}
        for e in X.walk(c, f).events:
            if e.kind == 'assign' and X.field(e.a[0], c):
                n = e.a[0][2]
                st[n] = e.a[1] if not e.pc else ('ite', conj(e.pc), e.a[1], st.get(n, ('null',)))
        state[f] = st
    for n in own:
        if ctors and all(n in state[f] and X.nonnull(state[f][n], (), set()) is True or delegates(X, c, f) for f in ctors):
            good.add((c, n))
    for f in X.methods(c):
        w = X.walk(c, f)
        rep.saw(f)
        ctor = 'k' in f.flags
        helper = 'z' in f.flags     # seen again, with its arguments, inside the functions that call it
        cur = set(good)
        at_ret = {}
        inits = []                  # (field, condition): created on that condition if it was not there
        for e in w.events:
            now = cur | made(inits, e.pc) if inits else cur
            if e.kind == 'ret':
                at_ret[e.pc, e.a[0]] = now
            if e.kind == 'assign' and not ctor:
                fl = X.field(e.a[0], c) if e.a[0][0] == 'f' else None
                if fl in X.ptr:
                    r = X.nonnull(e.a[1], e.pc, now)
                    if r and ('isnull', e.a[0]) in e.pc:
                        inits.append((fl, set(e.pc) - {('isnull', e.a[0])}))
                    elif r and not e.pc:
                        cur.add(fl)
                    elif not r:
                        cur.discard(fl)
                        inits[:] = [x for x in inits if x[0] != fl]
                    if helper and from_arg(e.a[1]):
                        continue
                    if r is None:
                        rep.skip('assigned', '%s::%s' % (short, f.name), 'value not understood: ' + e.a[1][0] + ' ' + str(e.a[1][1])[:40])
                    else:
                        rep.ob(r, 'assigned', '%s:%s' % (short, fl[1]), f.where, '%s::%s stores a pointer that may be null in %s' % (short, f.name, fl[1]), '%s::%s %s' % (short, f.name, fl[1]))
                elif fl in X.sets and e.a[1] and not (e.a[1][0] == 'val' and not e.a[1][2]):
                    rep.bad('added', '%s:%s' % (short, fl[1]), f.where, '%s::%s replaces %s by a collection that may hold null' % (short, f.name, fl[1]))
                elif e.a[0][0] in ('elem', 'at', 'front', 'back') and any(x[0] == 'f' and X.field(x, c) in X.sets for x in subterms(e.a[0])) and 'shared_ptr' in str(type_of(e.a[0])):
                    r = X.nonnull(e.a[1], e.pc, now)
                    if not (helper and from_arg(e.a[1])):
                        rep.ob(r is not False, 'added', '%s:%s' % (short, f.name), f.where, '%s::%s puts a pointer that may be null into a collection' % (short, f.name))
            elif e.kind == 'call' and e.a[2] is not None and e.a[2][0] == 'f' and len(e.a[2]) > 3 and e.a[2][1] == ('this', c):
                n = e.a[0].rsplit('::', 1)[-1]
                fl = (e.a[2][3], e.a[2][2])
                if fl in X.sets:
                    if n not in PUSH or not e.a[3] or helper and from_arg(e.a[3][-1]):
                        continue
                    v = e.a[3][-1]
                    if n == 'insert' and len(e.a[3]) > 2:
                        rep.skip('added', short, 'range insertion')
                        continue
                    r = X.nonnull(v, e.pc, now)
                    if r is None:
                        rep.skip('added', '%s::%s' % (short, f.name), 'value not understood: ' + str(v)[:60])
                    else:
                        rep.ob(r, 'added', '%s:%s' % (short, e.a[2][2]), f.where, '%s::%s adds a pointer that may be null to %s' % (short, f.name, e.a[2][2]), '%s::%s' % (short, f.name))
                elif fl in X.ptr and not e.a[0].startswith('std::') and not ctor:
                    r = X.nonnull(e.a[2], e.pc, now)
                    rep.ob(r is not False, 'used', '%s:%s' % (short, fl[1]), '%s:%d' % (f.where.rsplit(':', 1)[0], e.line), '%s::%s uses %s, which is created on first access, before it exists' % (short, f.name, fl[1]), '%s::%s %s' % (short, f.name, fl[1]))
        if ctor:
            for n in own:
                if delegates(X, c, f):
                    continue
                v = state[f].get(n, ('null',))
                r = X.nonnull(v, (), set())
                if r is True:
                    rep.ok('constructed', '%s::%s' % (short, n))
                elif r is None:
                    rep.skip('constructed', '%s::%s' % (short, n), 'value not understood')
                else:
                    rep.ok('constructed', '%s::%s (created on access)' % (short, n))
        elif f.ret and bare(f.ret).startswith('std::shared_ptr<mx::core::'):
            for pc, v in w.returns():
                check_return(rep, X, c, f, w, pc, v, at_ret.get((pc, v), good))


def made(inits, pc):
    s = set(pc)
    return {fl for fl, need in inits if need <= s}


def from_arg(v):
    return any(x[0] == 'arg' for x in [v] + list(subterms(v)))


def delegates(X, c, f):
    return any(e.kind == 'ctor' and e.a[0] == c for e in X.walk(c, f).events)


def end_lookup(pc):
    """the lookup was made for the end of the collection, or for a place outside it"""
    def inside(x):
        if x[0] == 'eq' and any(y[0] == 'endit' or y[0] == 'c' and y[1].rsplit('::', 1)[-1] in ('end', 'cend') for y in x[1:3]):
            return False
    if evalpc(pc, inside) is False:
        return True
    for l in pc:
        for x in [l] + list(subterms(l)):
            if x[0] in ('size', 'empty') or x[0] == 'c' and x[1].rsplit('::', 1)[-1] in ('size', 'find', 'find_if'):
                return True
    return False


def check_return(rep, X, c, f, w, pc, v, good):
    short = c.rsplit('::', 1)[-1]
    vs = [(pc, v)]
    while any(x[1][0] == 'ite' for x in vs):
        nx = []
        for p, t in vs:
            if t[0] == 'ite':
                nx += [(p + (t[1],), t[2]), (p + (neg(t[1]),), t[3])]
            else:
                nx.append((p, t))
        vs = nx
        if len(vs) > 64:
            rep.skip('returned', '%s::%s' % (short, f.name), 'too many cases')
            return
    for p, t in vs:
        if impossible(p):
            continue
        r = X.nonnull(t, p, good)
        if r is False and (t == ('null',) or t[0] == 'val' and not t[2]) and end_lookup(p):
            r = True
        if r is None:
            rep.skip('returned', '%s::%s' % (short, f.name), 'value not understood: ' + str(t)[:60])
        else:
            rep.ob(r, 'returned', '%s::%s' % (short, f.name), f.where, '%s::%s can return null' % (short, f.name), '%s::%s' % (short, f.name))


def impossible(pc):
    s = set(pc)
    return any(neg(x) in s for x in s)
