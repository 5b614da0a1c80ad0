"""Constant propagation through the summaries of small functions: the value a function computes for given constant
arguments, as far as its source determines it.  None means not determined."""
from .sym import Walker, evalf, evalpc, conj, show
from .prog import bare, pointee

SOME, THROW = 'opt', ('throw',)


class Eval:
    def __init__(self, P):
        self.P = P
        self.sum = {}
        self.byname = {}
        for f in P.fn.values():
            if f.body is not None:
                self.byname.setdefault(f.qn, []).append(f)
        self.memo = {}

    def summary(self, f, cls=None):
        k = (f.id, cls)
        if k not in self.sum:
            w = Walker(inline=(lambda g, o, ts: g.cls == cls and bool(cls)))
            w.run(f, this=('this', cls or f.cls)) if (cls or f.cls) else w.run(f)
            self.sum[k] = w
        return self.sum[k]

    def exits(self, f, w):
        """returns and throws with the constants their condition wants the arguments to be"""
        k = (id(w), 'exits')
        if k not in self.sum:
            out = []
            for e in w.events:
                if e.kind in ('throw', 'ret'):
                    need = []
                    for l in e.pc:
                        if l[0] == 'eq':
                            for a, b in ((l[1], l[2]), (l[2], l[1])):
                                if a[0] == 'arg' and b[0] in ('s', 'e') and isinstance(a[1], int):
                                    need.append((a[1], b))
                    out.append((e, need))
            self.sum[k] = out
        return self.sum[k]

    def call(self, f, args, state=None, depth=0):
        """value of f(args); for a method, state (field -> value) is updated"""
        if depth > 8:
            return None
        key = (f.id, tuple(args)) if state is None and all(a is not None for a in args) else None
        if key and key in self.memo:
            return self.memo[key]
        w = self.summary(f, f.cls or None)
        env = Env(self, f, args, state, depth)
        if state is not None:
            for e in w.events:
                if e.kind == 'assign' and e.a[0][0] == 'f' and e.a[0][1][0] == 'this':
                    g = evalpc(e.pc, env.truth)
                    if g is True:
                        state[e.a[0][2]] = env.val(e.a[1])
                    elif g is None:
                        state[e.a[0][2]] = None
        # the first exit that is taken; exits after an undetermined one do not count
        r = None
        for e, need in self.exits(f, w):
            if need and any(a is not None and i < len(args) and args[i] is not None and args[i] != a for i, a in need):
                continue
            if True:
                g = evalpc(e.pc, env.truth)
                if g is None:
                    break
                if g is True:
                    r = THROW if e.kind == 'throw' else env.val(e.a[0])
                    break
        if key:
            self.memo[key] = r
        return r


class Env:
    def __init__(self, E, f, args, state, depth):
        self.E, self.f, self.args, self.state, self.depth = E, f, args, state, depth

    def truth(self, t):
        v = self.val(t)
        return v[1] if v is not None and v[0] == 'bo' else None

    def streamed(self, q, v):
        """the text a free stream function writes for a value"""
        vs = [None, self.val(v)]
        cands = [f for f in self.E.byname.get(q, ()) if len(f.params) == 2]
        if len(cands) > 1 and vs[1] is not None:
            cands = [f for f in cands if fits(f, vs)]
        if len(cands) == 1 and self.depth < 6:
            return Env(self.E, cands[0], vs, None, self.depth + 1).stream(('arg', 0, cands[0].params[0], cands[0].qn))
        return None

    def stream(self, target):
        """what has been written to a stream, as a string"""
        w = self.E.summary(self.f, self.f.cls or None)
        s = ''
        for e in w.events:
            o = None
            if e.kind == 'out':
                o, v = e.a[0], e.a[1]
            elif e.kind == 'call' and e.a[0].rsplit('::', 1)[-1] in ('toStream', 'operator<<') and e.a[2] is None and len(e.a[3]) == 2:
                o, v = e.a[3]
            if o is None or o != target and not (target[0] == 'arg' and o[0] == 'arg' and o[1] == target[1]):
                continue
            g = evalpc(e.pc, self.truth)
            if g is None:
                return None
            if g is False:
                continue
            x = None
            if e.kind == 'call':
                x = self.streamed(e.a[0], v)
            else:
                x = self.val(v)
            if x is None or x[0] not in ('s', 'ch'):
                return None
            s += x[1] if x[0] == 's' else chr(x[1])
        return ('s', s)

    def val(self, t):
        k = t[0]
        if k in ('s', 'e', 'bo', 'n', 'fl', 'ch'):
            return t
        if k == 'arg':
            return self.args[t[1]] if isinstance(t[1], int) and t[1] < len(self.args) else None
        if k == 'f' and t[1][0] == 'this' and self.state is not None:
            return self.state.get(t[2])
        if k == 'f' and t[2] == '*':
            v = self.val(t[1])
            return v[1] if v is not None and v[0] == SOME else None
        if k in ('not', 'and', 'or'):
            r = evalf(t, self.truth)
            return None if r is None else ('bo', r)
        if k == 'ite':
            c = self.truth(t[1])
            if c is None:
                a, b = self.val(t[2]), self.val(t[3])
                return a if a == b else None
            return self.val(t[2] if c else t[3])
        if k == 'eq':
            a, b = self.val(t[1]), self.val(t[2])
            if a is None or b is None:
                return None
            if a[0] == 'fresh' or b[0] == 'fresh':
                return ('bo', a == b)
            if a[0] == b[0] or {a[0], b[0]} <= {'n', 'fl'}:
                return ('bo', a[1] == b[1])
            if {a[0], b[0]} == {'n', 'e'}:
                return None
            return None
        if k == 'lt':
            a, b = self.val(t[1]), self.val(t[2])
            if a is None or b is None or a[0] not in ('n', 'fl') or b[0] not in ('n', 'fl'):
                return None
            return ('bo', a[1] < b[1])
        if k == 'has':
            v = self.val(t[1])
            return ('bo', v[1] is not None) if v is not None and v[0] == SOME else None
        if k == 'empty':
            v = self.val(t[1])
            if v is not None and v[0] == 's':
                return ('bo', v[1] == '')
            if v is not None and v[0] == 'fresh':
                return ('bo', False)
            return None
        if k == 'optderef':
            v = self.val(t[1])
            return v[1] if v is not None and v[0] == SOME else None
        if k == 'val':
            if t[1].startswith('std::optional'):
                if not t[2]:
                    return (SOME, None)
                v = self.val(t[2][0])
                if v is not None and v[0] == SOME:
                    return v
                return (SOME, v) if v is not None else None
            if len(t[2]) == 1:
                return self.val(t[2][0])
            if not t[2] and 'basic_string<' in t[1]:
                return ('s', '')
            return None
        if k == 'cat':
            vs = [self.val(x) for x in t[1:]]
            if any(v is None or v[0] not in ('s', 'ch') for v in vs):
                return None
            return ('s', ''.join(v[1] if v[0] == 's' else chr(v[1]) for v in vs))
        if k == 'written' and t[1][2] is None and len(t[1][3]) == 2 and t[1][3][0][0] == 'sb':
            return self.streamed(t[1][1], t[1][3][1])
        if k == 'c':
            q, obj, args = t[1], t[2], t[3]
            n = q.rsplit('::', 1)[-1]
            if n == 'str' and not args and obj is not None and 'stringstream' in q:
                return self.stream(obj)
            if n == 'compareCaseInsensitive' and len(args) == 2:
                a, b = self.val(args[0]), self.val(args[1])
                if a is None or b is None:
                    return None
                return ('bo', a == b or a[0] == b[0] == 's' and a[1].lower() == b[1].lower())
            if q.startswith('std::') and obj is not None:
                o = self.val(obj)
                if o is None:
                    return None
                if o[0] == SOME:
                    if n in ('value', 'operator*', 'operator->'):
                        return o[1]
                    if n in ('has_value', 'operator bool'):
                        return ('bo', o[1] is not None)
                    if n == 'value_or':
                        return o[1] if o[1] is not None else self.val(args[0])
                if n in ('c_str', 'str') or n.startswith('operator basic_string'):
                    return o
                return None
            if q.startswith('std::') and n in ('move', 'forward', 'make_optional') and len(args) == 1:
                v = self.val(args[0])
                return v if n != 'make_optional' or v is None else (SOME, v)
            if obj is None:
                vs = [self.val(a) for a in args]
                cands = [g for g in self.E.byname.get(q, ()) if len(g.params) == len(args)]
                if len(cands) > 1:
                    cands = [g for g in cands if fits(g, vs)]
                if len(cands) == 1 and not cands[0].cls:
                    return self.E.call(cands[0], vs, None, self.depth + 1)
            if obj is not None and obj[0] == 'this' and self.state is not None:
                vs = [self.val(a) for a in args]
                cands = [g for g in self.E.byname.get(q, ()) if len(g.params) == len(args)]
                if len(cands) > 1:
                    cands = [g for g in cands if fits(g, vs)]
                if len(cands) == 1:
                    return self.E.call(cands[0], vs, self.state, self.depth + 1)
            return None
        return None


def fits(g, vs):
    for t, v in zip(g.ptypes, vs):
        if v is None:
            continue
        b = bare(t)
        if v[0] == 'e' and b != v[1].rsplit('::', 1)[0]:
            return False
        if v[0] in ('s', 'fresh') and 'basic_string' not in b and 'char' not in b:
            return False
    return True
