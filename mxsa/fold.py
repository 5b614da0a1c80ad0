"""Constant folding of functions over the syntax tree: the value that a function's source determines for constant
arguments, through calls, branches, switches, constant tables and the loops and searches over them.  Anything the source
does not determine (I/O, objects, unknown callees) ends in Unknown; nothing is executed."""
from .prog import strip_targs


class Unknown(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Thrown(Exception):
    pass


THROWS = ('throws',)


class Seq:
    """a table: sorted pairs of a map, or the members of a sequence or set"""
    def __init__(self, items, kind):
        self.items, self.kind = items, kind


class Pair:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __eq__(self, o):
        return isinstance(o, Pair) and (self.a, self.b) == (o.a, o.b)


class It:
    def __init__(self, s, i):
        self.s, self.i = s, i

    def __eq__(self, o):
        return isinstance(o, It) and self.s is o.s and self.i == o.i


class Lam:
    def __init__(self, node, env):
        self.node, self.env = node, env


class Obj:
    """an object nothing is known about"""
    def __init__(self, cls):
        self.cls = cls


class Fold:
    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.gl = {}
        self.steps = 0
        self.cv = {}
        for q, en in P.enums.items():
            self.cv[q] = {c[0]: c[1] for c in en['c']}

    # ---- entry: value of f(args), or None
    def value(self, f, args):
        k = (f.id, tuple(a if isinstance(a, (tuple, bool, int, str)) else id(a) for a in args))
        if k not in self.memo:
            self.steps = 0
            try:
                self.memo[k] = self.call(f, args, 0)
            except Thrown:
                self.memo[k] = THROWS
            except (Unknown, RecursionError):
                self.memo[k] = None
        return self.memo[k]

    def call(self, f, args, depth):
        if depth > 25 or f.body is None:
            raise Unknown(f.qn)
        env = {}
        for i, p in enumerate(f.params):
            if i < len(args):
                env[p[0]] = args[i]
        try:
            self.stmt(f.body, env, depth)
        except Ret as r:
            return r.v
        return ('void',)

    # ---- statements
    def stmt(self, n, env, depth):
        if n is None:
            return
        self.steps += 1
        if self.steps > 200000:
            raise Unknown('steps')
        k = n[0]
        if k == '{':
            for c in n[2]:
                self.stmt(c, env, depth)
        elif k == 'd':
            for vid, name, ty, init, fl in n[2]:
                env[vid] = self.lazy(init, env, depth) if init is not None else None
        elif k == 'if':
            if n[2] is not None:
                self.stmt(n[2], env, depth)
            self.stmt(n[4] if self.bool(n[3], env, depth) else n[5], env, depth)
        elif k == 'ret':
            raise Ret(self.ev(n[2], env, depth) if n[2] is not None else ('void',))
        elif k == 'throw':
            raise Thrown()
        elif k == 'brk':
            raise Brk()
        elif k == 'cnt':
            raise Cnt()
        elif k == 'sw':
            self.switch(n, env, depth)
        elif k in ('case', 'dflt'):
            self.stmt(n[-1], env, depth)
        elif k == 'rf':
            seq = self.ev(n[5], env, depth)
            if not isinstance(seq, Seq):
                raise Unknown('range')
            var = n[2]
            for x in self.members(seq):
                env[var] = x
                if len(n) > 7 and isinstance(x, Pair) and len(n[7]) == 2:
                    env[n[7][0][0]], env[n[7][1][0]] = x.a, x.b
                try:
                    self.stmt(n[6], env, depth)
                except Cnt:
                    pass
                except Brk:
                    break
        elif k in ('for', 'while', 'do'):
            init, cond, inc, body = (n[2], n[3], n[4], n[5]) if k == 'for' else (None, n[2], None, n[3]) if k == 'while' else (None, n[3], None, n[2])
            if init is not None:
                self.stmt(init, env, depth)
            first = k == 'do'
            while first or cond is None or self.bool(cond, env, depth):
                first = False
                self.steps += 1
                if self.steps > 200000:
                    raise Unknown('steps')
                try:
                    self.stmt(body, env, depth)
                except Cnt:
                    pass
                except Brk:
                    break
                if inc is not None:
                    self.ev(inc, env, depth)
        elif k == 'try':
            try:
                self.stmt(n[2], env, depth)
            except Thrown:
                if not n[3] or 'exception' not in n[3][0][1] and n[3][0][1] != '...':
                    raise Unknown('catch')
                self.stmt(n[3][0][2], env, depth)
        elif k == 'c' and self.noise(n):
            return
        else:
            self.ev(n, env, depth)

    def noise(self, n):
        """a call whose result is dropped and that is given nothing it could change"""
        f = self.P.fn.get(n[2])
        return f is None and self.P.q(n[2]).startswith('std::') and not any(a and a[0] == 'v' for a in n[4] or []) and (n[3] is None)

    def switch(self, n, env, depth):
        v = self.ev(n[2], env, depth)
        body = n[-1]
        cs = body[2] if body and body[0] == '{' else [body]
        start = None
        for i, c in enumerate(cs):
            x = c
            while x and x[0] in ('case', 'dflt'):
                if x[0] == 'case' and self.same(self.ev(x[2], env, depth), v):
                    start = i
                    break
                x = x[-1]
            if start is not None:
                break
        if start is None:
            for i, c in enumerate(cs):
                x = c
                while x and x[0] in ('case', 'dflt'):
                    if x[0] == 'dflt':
                        start = i
                    x = x[-1]
        if start is None:
            return
        try:
            for c in cs[start:]:
                while c and c[0] in ('case', 'dflt'):
                    c = c[-1]
                self.stmt(c, env, depth)
        except Brk:
            pass

    def lazy(self, n, env, depth):
        try:
            return self.ev(n, env, depth)
        except Unknown:
            return None

    def bool(self, n, env, depth):
        v = self.ev(n, env, depth)
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        raise Unknown('condition')

    def num(self, v):
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'e':
            q, n = v[1].rsplit('::', 1)
            if q in self.cv and n in self.cv[q]:
                return self.cv[q][n]
        if isinstance(v, (int, float)):
            return v
        return None

    def same(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == 'e' and b[0] == 'e':
            x, y = self.num(a), self.num(b)
            return x == y if x is not None and y is not None else a == b
        return a == b

    # ---- expressions
    def ev(self, n, env, depth):
        self.steps += 1
        k = n[0]
        if k == 'e':
            return ('e', n[2])
        if k in ('bo',):
            return bool(n[2])
        if k in ('n', 'ch'):
            return n[2]
        if k == 'fl':
            return float(n[2])
        if k == 'cl':
            a = self.ev(n[2], env, depth)
            if isinstance(a, Lam):
                return self.apply(a, [self.ev(x, env, depth) for x in n[3]], depth)
            raise Unknown('call')
        if k == 's':
            return ('s', n[2])
        if k == 'v':
            v = env.get(n[2])
            if v is None:
                raise Unknown(n[3] if len(n) > 3 else '?')
            return v
        if k == 'g':
            return self.glob(n[2], depth)
        if k == 'cast':
            v = self.ev(n[-1], env, depth)
            t = n[3].replace('const ', '').strip() if isinstance(n[3], str) else ''
            x = self.num(v)
            if x is not None and t in self.P.enums:
                for nm, c in self.cv[t].items():
                    if c == x:
                        return ('e', t + '::' + nm)
                raise Unknown('cast')
            if x is not None and t in ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'size_t', 'char') and not isinstance(x, bool):
                return int(x)
            return v
        if k == 'b':
            return self.binary(n, env, depth)
        if k == 'u':
            op = n[2]
            if op == '!':
                return not self.bool(n[3], env, depth)
            if op.startswith(('++', '--')):
                if n[3][0] != 'v':
                    raise Unknown('++')
                v = env.get(n[3][2])
                d = 1 if op[0] == '+' else -1
                if isinstance(v, It):
                    env[n[3][2]] = It(v.s, v.i + d)
                elif isinstance(v, int):
                    env[n[3][2]] = v + d
                else:
                    raise Unknown('++')
                return env[n[3][2]]
            v = self.ev(n[3], env, depth)
            if op == '*':
                return self.star(v)
            if op == '-' and isinstance(v, (int, float)):
                return -v
            if op in ('+', '&'):
                return v
            raise Unknown(op)
        if k == 'cond':
            return self.ev(n[3] if self.bool(n[2], env, depth) else n[4], env, depth)
        if k == 'lam':
            return Lam(n, env)
        if k == 'm':
            b = self.ev(n[2], env, depth)
            if isinstance(b, It):
                b = self.star(b)
            if isinstance(b, Pair) and n[3] in ('first', 'second'):
                return b.a if n[3] == 'first' else b.b
            raise Unknown('member')
        if k == 'il':
            return Seq([self.ev(c, env, depth) for c in n[3]], 'seq')
        if k == 'k':
            return self.ctor(n, env, depth)
        if k == 'c':
            return self.funcall(n, env, depth)
        if k == 'sub':
            a, i = self.ev(n[2], env, depth), self.ev(n[3], env, depth)
            i = self.num(i)
            if isinstance(a, Seq) and isinstance(i, int) and 0 <= i < len(a.items):
                return a.items[i]
        raise Unknown(k)

    def members(self, s):
        return s.items

    def star(self, v):
        if isinstance(v, It):
            if 0 <= v.i < len(v.s.items):
                return v.s.items[v.i]
            raise Unknown('end')
        if isinstance(v, tuple) and v[0] == 'some':
            return v[1]
        return v

    def glob(self, q, depth):
        if q not in self.gl:
            self.gl[q] = None
            g = self.P.globals.get(q)
            if g is not None and g['init'] is not None and (g['t'].startswith('const ') or 'c' in g.get('fl', '')):
                try:
                    self.gl[q] = self.ev(g['init'], {}, depth + 1)
                except Unknown:
                    pass
        if self.gl[q] is None:
            raise Unknown(q)
        return self.gl[q]

    def binary(self, n, env, depth):
        op = n[2]
        if op in ('&&', '||'):
            a = self.bool(n[3], env, depth)
            return self.bool(n[4], env, depth) if a == (op == '&&') else a
        if op == '=' or op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            if n[3][0] != 'v':
                raise Unknown('assign')
            v = self.ev(n[4], env, depth)
            if op != '=':
                v = self.arith(op[:-1], env.get(n[3][2]), v)
            env[n[3][2]] = v
            return v
        a, b = self.ev(n[3], env, depth), self.ev(n[4], env, depth)
        if op == ',':
            return b
        return self.arith(op, a, b)

    def arith(self, op, a, b):
        if a is None or b is None:
            raise Unknown(op)
        if op in ('==', '!='):
            if isinstance(a, (Obj, Lam)) or isinstance(b, (Obj, Lam)):
                raise Unknown(op)
            return self.same(a, b) == (op == '==')
        x, y = self.num(a), self.num(b)
        if x is None or y is None:
            if op == '+' and isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 's' == b[0]:
                return ('s', a[1] + b[1])
            raise Unknown(op)
        if op in ('<', '>', '<=', '>='):
            return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
        if op in ('+', '-', '*'):
            return {'+': x + y, '-': x - y, '*': x * y}[op]
        if op in ('&', '|', '^') and isinstance(x, int) and isinstance(y, int):
            return {'&': x & y, '|': x | y, '^': x ^ y}[op]
        if op in ('/', '%') and isinstance(x, int) and isinstance(y, int) and y:
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return q if op == '/' else x - q * y
        if op == '/' and y:
            return x / y
        raise Unknown(op)

    def ctor(self, n, env, depth):
        c = strip_targs(n[2])
        args = n[4] or []
        if c in ('std::pair', 'std::tuple') and len(args) == 2:
            return Pair(self.ev(args[0], env, depth), self.ev(args[1], env, depth))
        if c.endswith('pair') and len(args) == 1:
            return self.ev(args[0], env, depth)
        if c in ('std::map', 'std::unordered_map', 'std::multimap'):
            s = self.ev(args[0], env, depth) if args else Seq([], 'map')
            if isinstance(s, Seq):
                d = []
                for p in s.items:
                    if not isinstance(p, Pair):
                        raise Unknown('map')
                    if not any(self.same(p.a, q.a) for q in d[-1:]) and not self.dup(d, p.a):
                        d.append(p)
                d.sort(key=lambda p: (0, self.num(p.a)) if self.num(p.a) is not None else (1, str(p.a)))
                return Seq(d, 'map')
        if c in ('std::set', 'std::unordered_set', 'std::vector', 'std::array', 'std::initializer_list', 'std::list', 'std::deque'):
            s = self.ev(args[0], env, depth) if args else Seq([], 'seq')
            if isinstance(s, Seq):
                it = list(s.items)
                if 'set' in c:
                    it.sort(key=lambda p: (0, self.num(p)) if self.num(p) is not None else (1, str(p)))
                return Seq(it, 'set' if 'set' in c else 'seq')
        if c == 'std::optional':
            return ('some', self.ev(args[0], env, depth)) if args else ('none',)
        if c.startswith(('std::basic_string', 'std::__cxx11::basic_string', 'std::string')):
            return self.ev(args[0], env, depth) if args else ('s', '')
        if c.startswith('std::_Rb_tree') or c.startswith('__gnu_cxx::__normal_iterator') or '(lambda' in n[2]:
            return self.ev(args[0], env, depth)
        if n[2] in self.P.rec:
            return Obj(n[2])
        raise Unknown(c)

    def dup(self, d, a):
        x = self.num(a)
        if x is None:
            return any(self.same(a, q.a) for q in d)
        if not hasattr(self, '_dup') or self._dup[0] is not d:
            self._dup = (d, set())
        if x in self._dup[1]:
            return True
        self._dup[1].add(x)
        return False

    def funcall(self, n, env, depth):
        fid, obj, an = n[2], n[3], n[4] or []
        q = strip_targs(self.P.q(fid))
        name = q.rsplit('::', 1)[-1]
        if isinstance(fid, int) and self.P.fn.get(fid) is not None and self.P.fn[fid].body is not None and q.startswith('mx::'):
            f = self.P.fn[fid]
            return self.call(f, [self.arg(a, env, depth) for a in an], depth + 1)
        vs = ([self.ev(obj, env, depth)] if obj is not None else []) + [self.ev(a, env, depth) for a in an]
        if name in ('move', 'forward', 'as_const') and len(vs) == 1:
            return vs[0]
        if not vs:
            raise Unknown(q)
        a = vs[0]
        if isinstance(a, Lam) and name == 'operator()':
            return self.apply(a, vs[1:], depth)
        if isinstance(a, Seq):
            if name in ('begin', 'cbegin'):
                return It(a, 0)
            if name in ('end', 'cend'):
                return It(a, len(a.items))
            if name == 'size':
                return len(a.items)
            if name == 'empty':
                return not a.items
            if len(vs) == 2 and name in ('find', 'count', 'contains', 'at', 'operator[]'):
                hit = [i for i, x in enumerate(a.items) if self.same(x.a if a.kind == 'map' else x, vs[1])] if a.kind in ('map', 'set') else [self.num(vs[1])]
                if name == 'find':
                    return It(a, hit[0] if hit else len(a.items))
                if name in ('count', 'contains'):
                    return len(hit) if name == 'count' else bool(hit)
                if hit and hit[0] is not None and 0 <= hit[0] < len(a.items):
                    return a.items[hit[0]].b if a.kind == 'map' else a.items[hit[0]]
                if name == 'at':
                    raise Thrown()
                raise Unknown(q)
        if isinstance(a, It) and len(vs) >= 1:
            if name in ('operator->', 'operator*'):
                return self.star(a)
            if name in ('operator==', 'operator!=') and len(vs) == 2:
                return (a == vs[1]) == (name == 'operator==')
            if name == 'operator++':
                x = obj if obj is not None else an[0]
                if x[0] == 'v':
                    env[x[2]] = It(a.s, a.i + 1)
                    return env[x[2]]
            if name in ('find_if', 'any_of', 'none_of', 'all_of', 'find', 'count_if', 'count') and len(vs) == 3 and isinstance(vs[1], It):
                hit = None
                cnt = 0
                for i in range(a.i, vs[1].i):
                    r = self.apply(vs[2], [a.s.items[i]], depth) if isinstance(vs[2], Lam) else self.same(a.s.items[i], vs[2])
                    if not isinstance(r, bool):
                        raise Unknown(q)
                    if name == 'all_of':
                        r = not r
                    if r:
                        cnt += 1
                        if hit is None:
                            hit = i
                if name.startswith('count'):
                    return cnt
                if name.startswith('find'):
                    return It(a.s, vs[1].i if hit is None else hit)
                return (hit is not None) == (name == 'any_of')
        if name in ('operator==', 'operator!=') and len(vs) == 2:
            return self.arith(name[8:], vs[0], vs[1])
        if isinstance(a, tuple) and a and a[0] in ('some', 'none'):
            if name in ('has_value', 'operator bool'):
                return a[0] == 'some'
            if name in ('value', 'operator*') and a[0] == 'some':
                return a[1]
            if name == 'value_or' and len(vs) == 2:
                return a[1] if a[0] == 'some' else vs[1]
        if isinstance(a, tuple) and a and a[0] == 's' and name in ('c_str', 'data', 'str'):
            return a
        if name in ('make_pair', 'make_tuple') and len(vs) == 2:
            return Pair(vs[0], vs[1])
        raise Unknown(q)

    def arg(self, a, env, depth):
        try:
            return self.ev(a, env, depth)
        except Unknown:
            return None

    def apply(self, lam, args, depth):
        n = lam.node
        env = dict(lam.env)
        for p, a in zip(n[2], args):
            env[p[0]] = a
        try:
            self.stmt(n[3], env, depth + 1)
        except Ret as r:
            return r.v
        return ('void',)
