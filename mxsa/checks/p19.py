"""P19: converting between partwise and timewise loses nothing.

An abstract walk of the two conversions. Every value carries what it was made from: the accessors it was read through, the
loops whose turn it depends on and the objects it was made in. Every store into the new score is then compared with what the
two trees share."""
from ..core import *
from ..guard import uncast, TYPES
from ..prog import bare, walk

CO = 'mx::core::'
CMP = ('<', '>', '<=', '>=', '==', '!=')


class Loop:
    def __init__(self, line, rng=frozenset()):
        self.line, self.range, self.issue, self.exits, self.endless = line, rng, None, [], False

    def __repr__(self):
        return 'loop@%d' % self.line


class Deps:
    def __init__(self, P, f):
        self.P, self.f = P, f
        self.env = {}
        self.where = {}         # variable -> loops around its definition
        self.loops = []
        self.conds = []
        self.stores = []        # (class, what, receiver, value, loops, line, conditions)
        self.made = {}          # variable -> (class, line, block)
        self.depth = 0
        self.listed = []
        self.counts = []
        self.flags = {}
        self.floor, self.insw = 0, 0
        self.adds = set()
        self.takes = []
        for p in f.params:
            self.env[p[0]] = frozenset([('P', p[1])])

    def run(self):
        self.stmt(self.f.body)
        return self

    # ---- expressions
    def ex(self, n):
        if not isinstance(n, list) or not n:
            return frozenset()
        if not isinstance(n[0], str):
            r = frozenset()
            for x in n:
                r |= self.ex(x)
            return r
        k = n[0]
        if k == 'v':
            return self.env.get(n[2], frozenset())
        if k == 'b' and n[2] == '=':
            v = self.ex(n[4])
            self.assign(n[3], v, n[4], n[1])
            return v
        if k == 'm':
            r = self.ex(n[2])
            if isinstance(n[4], str) and n[4].startswith(CO):
                r |= {('F', n[4][len(CO):], n[3])}
            return r
        if k == 'lam':
            r = frozenset()
            saved = self.env
            self.env = dict(saved)
            out = []

            def look(x):
                if x[0] == 'ret' and x[2]:
                    out.append(x[2])
            walk(n[3], look)
            for x in out:
                r |= self.ex(x)
            self.env = saved
            return r
        if k == 'c':
            return self.call(n)
        r = frozenset()
        for x in n[1:]:
            if isinstance(x, list):
                r |= self.ex(x)
        return r

    def call(self, n):
        P = self.P
        inf = P.info.get(n[2])
        args = [self.ex(a) for a in n[4] or []]
        o = self.ex(n[3]) if n[3] is not None else frozenset()
        if inf is None:
            return o.union(*args)
        q = P.q(n[2])
        name = q.rsplit('::', 1)[-1]
        if name == 'operator=' and n[3] is not None and n[4]:
            self.assign(n[3], args[0], n[4][0], n[1])
            return args[0]
        cls = inf[1] or ''
        if cls.startswith(CO) and n[3] is not None:
            c = cls[len(CO):]
            if name.startswith('set') and args:
                self.stores.append((c, name[3:], o, args[0], tuple(self.loops), n[1], tuple(self.conds), base(n[3])))
            if name.startswith('add') and args:
                b = base(n[4][0])
                if b is not None:
                    self.adds.add(b)
            if name.startswith('get'):
                return o.union(*args) | {('A', c, name)}
            return o.union(*args)
        f = P.fn.get(n[2])
        if not cls and q.startswith(CO) and name.startswith('make'):
            return frozenset([('M', name[4:], n[1], tuple(self.loops))])
        if name in ('push_back', 'emplace_back', 'insert') and n[3] is not None:
            b = base(n[3])
            if b is not None:
                self.env[b] = self.env.get(b, frozenset()).union(*args)
            for a in n[4] or []:
                c = base(a)
                if c is not None:
                    self.adds.add(c)
        if f is not None and f.body is not None and q.startswith('mx::') and self.depth < 3 and (not cls or cls == self.f.cls) and f is not self.f:
            return self.inline(f, args, n)
        r = o.union(*args)
        if name in ('operator++', 'operator--') and n[3] is not None:
            b = base(n[3])
            if b is not None and self.loops:
                self.env[b] = self.env.get(b, frozenset()) | {('L', self.loops[-1])}
        return r

    def inline(self, f, args, n):
        saved, lo = self.env, self.f
        self.env = dict(saved)
        for p, a in zip(f.params, args):
            self.env[('x', p[0])] = a
        # callee variables live in a space of their own
        outer = self.env
        self.env = {p[0]: a for p, a in zip(f.params, args)}
        ret, self.returned = getattr(self, 'returned', None), frozenset()
        self.depth += 1
        held = self.made, self.adds, self.where
        low, self.floor = self.floor, len(self.loops)
        self.made, self.adds, self.where = {}, set(), {}
        self.stmt(f.body)
        self.made, self.adds, self.where = held
        self.floor = low
        self.depth -= 1
        r, self.returned = self.returned, ret
        self.env = saved
        # what the callee put into a parameter that it took by reference
        for p, a in zip(f.params, n[4] or []):
            b = base(a)
            if b is not None and p[2].endswith('&') and not p[2].startswith('const '):
                self.env[b] = self.env.get(b, frozenset()) | r
        return r

    def assign(self, lhs, v, rhs, line):
        l = uncast(lhs)
        if not l:
            return
        if l[0] == 'v':
            self.env[l[2]] = v if not self.conds else self.env.get(l[2], frozenset()) | v | self.chosen([c for c, _ in self.conds])
            self.make(l[2], rhs, line)
            r = uncast(rhs)
            if r and r[0] == 'bo':
                self.flags.setdefault(l[2], []).append((r[2], tuple(self.loops), line))
            self.counts.append((l[2], v, rhs, tuple(self.conds), line))
        elif l[0] == 'm' and isinstance(l[4], str) and l[4].startswith(CO):
            self.stores.append((l[4][len(CO):], '.' + l[3], self.ex(l[2]), v, tuple(self.loops), line, tuple(self.conds), base(l[2])))
        elif l[0] == 'c':
            o = self.ex(l)
            a = {x for x in o if x[0] == 'A' and x[2] == 'getAttributes'}
            q = self.P.q(l[2]).rsplit('::', 1)[-1]
            if a and q == 'operator*':
                self.stores.append((sorted(a)[-1][1], 'Attributes', o, v, tuple(self.loops), line, tuple(self.conds), base(l)))

    def make(self, vid, rhs, line):
        r = uncast(rhs)
        if r and r[0] == 'c' and self.P.q(r[2]).startswith(CO + 'make'):
            self.made[vid] = (self.P.q(r[2])[len(CO) + 4:], line)
        t = taken(self.P, rhs)
        if t is not None:
            self.takes.append((vid, t, tuple(self.conds), tuple(self.loops), line))

    def chosen(self, conds):
        """what a search goes by: both sides of the comparisons of ids that decide what is taken"""
        r = frozenset()
        for c in conds:
            found = [x for x in compares(c) if x[2] in ('==', '!=')]

            def look(x):
                if x[0] == 'c' and self.P.q(x[2]).rsplit('::', 1)[-1] in ('operator==', 'operator!='):
                    found.append(x)
            if c:
                walk(c, look)
            for x in found:
                v = self.ex(x[3]) | self.ex(x[4])
                if any(y[0] == 'F' and y[2] == 'id' for y in v):
                    r |= v
        return r

    def leave(self, k, line):
        """a loop is left before its end"""
        by = bool(self.chosen([c for c, _ in self.conds[-1:]]))      # what was looked for is found
        for L in self.loops[-1:] if k == 'brk' else self.loops[self.floor:]:
            if k != 'brk' or len(self.loops) > self.floor:
                L.exits.append((line, by))

    # ---- statements
    def stmt(self, n):
        if not isinstance(n, list) or not n:
            return
        if not isinstance(n[0], str):
            for x in n:
                self.stmt(x)
            return
        k = n[0]
        if k == 'ret' or k == 'brk' and not self.insw:
            self.leave(k, n[1])
        if k == '{':
            extra = 0
            for x in n[2]:
                self.stmt(x)
                # what follows an early way out happens under the opposite condition
                if x and x[0] == 'if' and not x[5] and leaves(x[4]):
                    self.conds.append((x[3], False))
                    extra += 1
            for i in range(extra):
                self.conds.pop()
            return
        if k == 'd':
            for d in n[2]:
                v = self.ex(d[3]) if d[3] else frozenset()
                self.env[d[0]] = v
                self.where[d[0]] = tuple(self.loops)
                if d[3]:
                    self.make(d[0], d[3], n[1])
                    r = uncast(d[3])
                    if r and r[0] == 'il' and len(r[-1]) == 1:
                        r = uncast(r[-1][0])
                    if r and r[0] == 'bo':
                        self.flags.setdefault(d[0], []).append((r[2], tuple(self.loops), n[1]))
            return
        if k == 'if':
            if n[2]:
                self.stmt(n[2])
            self.ex(n[3])
            self.conds.append((n[3], True))
            self.stmt(n[4])
            self.conds.pop()
            if n[5]:
                self.conds.append((n[3], False))
                self.stmt(n[5])
                self.conds.pop()
            return
        if k == 'rf':
            L = Loop(n[1], self.ex(n[5]))
            sw, self.insw = self.insw, 0
            self.env[n[2]] = L.range | {('L', L)}
            self.loops.append(L)
            self.where[n[2]] = tuple(self.loops)
            self.stmt(n[6])
            self.loops.pop()
            self.insw = sw
            return
        if k in ('for', 'while', 'do'):
            init, c, inc, body = (n[2], n[3], n[4], n[5]) if k == 'for' else (None, n[2], None, n[3]) if k == 'while' else (None, n[3], None, n[2])
            if init:
                self.stmt(init)
            L = Loop(n[1], self.ex(c) if c else frozenset())
            turn(self, L, init, c, inc)
            sw, self.insw = self.insw, 0
            L.endless = not c or uncast(c)[0] == 'bo'
            self.loops.append(L)
            vs = written(inc) if inc else written(body)
            for v in vs:
                if used(c, v) or inc:
                    self.env[v] = self.env.get(v, frozenset()) | {('L', L)}
            self.stmt(body)
            if inc:
                self.ex(inc)
            self.loops.pop()
            self.insw = sw
            if c:
                how = self.chosen([c])
                for v in vs:
                    self.env[v] = self.env.get(v, frozenset()) | how
            return
        if k == 'ret':
            if n[2]:
                v = self.ex(n[2]) | self.chosen([c for c, _ in self.conds])
                self.returned = getattr(self, 'returned', None) or frozenset()
                self.returned |= v
                b = base(n[2])
                if b is not None:
                    self.adds.add(b)
            return
        if k in ('sw', 'case', 'dflt', 'try'):
            self.insw += k == 'sw'
            for x in n[1:]:
                if isinstance(x, list):
                    self.stmt(x)
            self.insw -= k == 'sw'
            return
        self.ex(n)


def written(n):
    out = set()

    def look(x):
        t = None
        if x[0] == 'u' and ('++' in x[2] or '--' in x[2]):
            t = x[3]
        elif x[0] == 'b' and x[2] in ('+=', '-=', '='):
            t = x[3]
        elif x[0] == 'c' and x[3] is not None:
            t = x[3] if len(x) > 4 else None
        t = uncast(t) if t else None
        if t and t[0] == 'v':
            out.add(t[2])
    if n:
        walk(n, look)
    return out


def used(n, v):
    hit = [False]

    def look(x):
        if x[0] == 'v' and x[2] == v:
            hit[0] = True
    if n:
        walk(n, look)
    return hit[0]


def base(n):
    """the variable an expression is about"""
    n = uncast(n)
    while n:
        if n[0] == 'v':
            return n[2]
        if n[0] == 'm':
            n = uncast(n[2])
        elif n[0] == 'u' and n[2] in '*&':
            n = uncast(n[3])
        elif n[0] == 'c':
            n = uncast(n[3] if n[3] is not None else (n[4] or [None])[0])
        else:
            return None
    return None


def leaves(n):
    if not n:
        return False
    if n[0] == '{':
        return any(leaves(x) for x in n[2])
    return n[0] in ('cnt', 'brk', 'ret', 'throw')


def taken(P, n):
    """variable whose first child an expression takes"""
    n = uncast(n)
    front = False
    while n and n[0] == 'c':
        nm = P.q(n[2]).rsplit('::', 1)[-1]
        if nm in ('begin', 'cbegin', 'front'):
            front = True
        elif nm.endswith('Set') and front and n[3] is not None:
            return base(n[3])
        elif nm not in ('operator*', 'operator->'):
            return None
        n = uncast(n[3] if n[3] is not None else (n[4] or [None])[0])
    return None


def number(n):
    n = uncast(n)
    while n and n[0] == 'il' and len(n[-1]) == 1:
        n = uncast(n[-1][0])
    return n[2] if n and n[0] == 'n' else 0 if n and (n[0] == 'zero' or n[0] == 'il' and not n[-1]) else None


def shifted(n):
    """x + 1, 2 + x, x - 1: the part that varies and the constant"""
    n, k = uncast(n), 0
    while n and n[0] == 'b' and n[2] in ('+', '-'):
        c, o = number(n[4]), n[3]
        if c is None and n[2] == '+':
            c, o = number(n[3]), n[4]
        if c is None:
            break
        k += c if n[2] == '+' else -c
        n = uncast(o)
    return n, k


def turn(D, L, init, c, inc):
    """a counting loop starts at the first and ends after the last"""
    c = uncast(c)
    if not c or c[0] != 'b' or not inc:
        return
    a, b = uncast(c[3]), uncast(c[4])
    op = c[2]
    a, ka = shifted(a)
    b, kb = shifted(b)
    w = written(inc)
    if b and b[0] == 'v' and b[2] in w:
        a, b, ka, kb, op = b, a, kb, ka, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
    if not a or a[0] != 'v' or a[2] not in w:
        return
    start = None
    if init and init[0] == 'd':
        for d in init[2]:
            if d[0] == a[2] and d[3]:
                start = number(d[3])
    L.var, L.start = a[2], start
    if start is not None and op in ('<', '<=', '!=') and number(b) is None:
        over = kb - ka + (op == '<=')       # turns beyond counter < bound
        if over not in (0, start):
            L.issue = 'it runs too far by %d' % over if over > 0 else 'its last %d turns are left out' % -over
    i = uncast(inc)
    if i and i[0] == 'b' and i[2] == '+=' and number(i[4]) not in (None, 1):
        L.issue = 'it skips turns'


def offset(n, L):
    """constant added to the counter of a loop where it is used as an index"""
    n = uncast(n)
    if n and n[0] == 'v' and n[2] == getattr(L, 'var', None):
        return 0
    if n and n[0] == 'b' and n[2] in '+-':
        r, c = offset(n[3], L), number(n[4])
        if r is not None and c is not None:
            return r + c if n[2] == '+' else r - c
    return None


def accessor(v, name):
    return any(x[0] == 'A' and x[2] == name for x in v)


def is_measure(L):
    return any(x[0] == 'A' and x[2].endswith('MeasureSet') for x in L.range)


def run(rep, P):
    rep.rule('carried', 'everything both trees can hold is stored into the new one from the old one', 8)
    rep.rule('keyed', 'what is stored at a part and a measure was read at that part and that measure', 4)
    rep.rule('whole', 'the loops visit every part and every measure, and nothing they visit is passed over', 4)
    rep.rule('attached', 'every part and measure that is made becomes part of the score', 3)
    rep.rule('first', 'the part or measure that a new parent already has is used once, for the first child', 1)
    rep.rule('listed', 'the parts are taken from the whole part list', 1)
    rep.rule('order', 'converting a document reads the old form before dropping it and selects the new form', 2)
    for f in sorted(P.fn.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or f.cls or not f.qn.startswith(CO):
            continue
        src = next((s for s in ('ScorePartwise', 'ScoreTimewise') if f.params and CO + s in f.params[0][2]), None)
        dst = next((s for s in ('ScorePartwise', 'ScoreTimewise') if CO + s in f.ret), None)
        if not src or not dst or src == dst:
            continue
        rep.saw(f)
        convert(rep, P, f, src, dst)
    contents(rep, P)


def convert(rep, P, f, src, dst):
    D = Deps(P, f).run()
    here = lambda l: '%s:%d' % (f.file, l)
    g = f.name
    form = dst[len('Score'):]
    T = [dst, form + 'Part', form + 'Measure']
    S = [src, src[len('Score'):] + 'Part', src[len('Score'):] + 'Measure']
    # ---- carried
    for t in T:
        for m in sorted({m.name for m in P.methods(CO + t) if m.name.startswith('set') and len(m.params) == 1}):
            what = m[3:]
            if what == 'Attributes':
                continue
            if not any(P.methods(CO + s, 'get' + what) for s in S):
                continue
            got = [s for s in D.stores if s[0] == t and s[1] == what]
            good = [s for s in got if accessor(s[3], 'get' + what)]
            rep.ob(bool(good) and len(good) == len(got), 'carried', '%s:%s.%s' % (g, t, what), here(got[0][5] if got else f.line),
                   '%s %s' % (g, 'sets %s of the new %s to something that is not the %s of the old score' % (what, t, what) if got else 'does not carry %s over to the new %s' % (what, t)), t)
        am = P.methods(CO + t, 'setAttributes')
        if not am:
            continue
        ac = bare(am[0].params[0][2]).split('<')[-1].rstrip('>').strip()
        ac = next((c for c in P.rec if c.startswith(CO) and c.endswith('Attributes') and c in am[0].params[0][2]), None)
        if ac is None:
            continue
        mine = {x[0] for x in P.rec[ac]['f'] if not x[1].startswith('const ')}
        whole = [s for s in D.stores if s[0] == t and s[1] == 'Attributes']
        for fd in sorted(mine):
            if not any(fd in {x[0] for x in (P.rec.get(c) or {'f': []})['f']} for s in S for c in attrs(P, s)):
                continue
            got = [s for s in D.stores if s[0] == ac[len(CO):] and s[1] == '.' + fd and reaches(s, t, D)]
            ok = [s for s in got if any(x[0] == 'F' and x[2] == fd for x in s[3])] or [s for s in whole if accessor(s[3], 'getAttributes')]
            rep.ob(bool(ok), 'carried', '%s:%s@%s' % (g, t, fd), here((got + whole)[0][5] if got + whole else f.line),
                   '%s does not carry the attribute %s over to the new %s' % (g, fd, t), t)
    # ---- keyed
    for c, what, o, v, loops, line, conds, b in D.stores:
        if c not in T and not (c == 'PartAttributes' and loops):
            continue
        if what == 'MusicDataGroup':
            miss = [L for L in loops if ('L', L) not in v]
            kinds = {is_measure(x[1]) for x in v if x[0] == 'L'}
            rep.ob(not miss and kinds == {True, False}, 'keyed', '%s:%s.%s' % (g, c, what), here(line),
                   '%s stores music that does not depend on %s' % (g, 'the turn of the loop at line %d' % miss[0].line if miss else 'the measure' if True not in kinds else 'the part'), c)
        elif what == 'Attributes' and c.endswith('Measure'):
            rep.ob(any(x[0] == 'L' and is_measure(x[1]) for x in v), 'keyed', '%s:%s.%s' % (g, c, what), here(line),
                   '%s stores attributes of a measure that do not depend on which measure it is' % g, c)
        elif c == 'PartAttributes' and what == '.id' and loops:
            rep.ob(any(x[0] == 'L' and not is_measure(x[1]) for x in v), 'keyed', '%s:%s%s' % (g, c, what), here(line),
                   '%s stores an id that does not depend on which part it is' % g, c)
        if what in ('MusicDataGroup', 'Attributes') and b is not None and loops and c in T[1:]:
            w = D.where.get(b)
            if w is not None:
                need = loops if what == 'MusicDataGroup' else [L for L in loops if is_measure(L)]
                rep.ob(not [L for L in need if L not in w and not any(x == ('L', L) for x in o)], 'keyed', '%s:%s<-%s' % (g, c, what), here(line),
                       '%s stores into a %s that stays the same from turn to turn' % (g, c), c)
    # ---- whole
    seen = set()
    for s in D.stores:
        if s[1] != 'MusicDataGroup' and not (s[1] == 'Attributes' and s[0] in T[1:]):
            continue
        for L in s[4]:
            if L not in seen:
                seen.add(L)
                rep.ob(L.issue is None, 'whole', '%s:loop%d' % (g, len(seen)), here(L.line), '%s: the loop does not visit everything: %s' % (g, L.issue), g)
                early = [x for x, by in L.exits if not by] if not L.endless else []
                rep.ob(not early, 'whole', '%s:end%d' % (g, len(seen)), here(L.line), '%s: the loop is left before it has visited everything (line %s)' % (g, early and early[0]), g)
        for c, pol in s[6]:
            for x in compares(c):
                bad = None
                for L in s[4]:
                    for y in (x[3], x[4]):
                        k = offset(y, L)
                        if k is not None and k != -(getattr(L, 'start', 0) or 0):
                            bad = 'the counter moved by %d' % k
                for y in (x[3], x[4]):
                    z = uncast(y)
                    if z and z[0] == 'b' and z[2] in '+-' and 'size' in str(names(P, z)) and number(z[4]) is not None:
                        bad = 'a size moved by %s' % number(z[4])
                rep.ob(bad is None, 'whole', '%s:%s:cond%d' % (g, s[1], s[6].index((c, pol))), here(s[5]), '%s stores under a condition on %s' % (g, bad), g)
    # the count a loop runs to is the largest one
    for vid, v, rhs, conds, line in D.counts:
        if not any(x[0] == 'A' and x[2].endswith('MeasureSet') for x in v) or 'size' not in str(names(P, rhs)):
            continue
        r = uncast(rhs)
        if r and r[0] == 'c' and P.q(r[2]) in ('std::max', 'std::min'):
            rep.ob(P.q(r[2]) == 'std::max', 'whole', g + ':count', here(line), '%s counts the measures of the shortest part' % g, g)
            continue
        for c, pol in conds[-1:]:
            for x in compares(c):
                a, b, op = uncast(x[3]), uncast(x[4]), x[2]
                if a and a[0] == 'v' and a[2] == vid:
                    op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                elif not (b and b[0] == 'v' and b[2] == vid):
                    continue
                if not pol:
                    op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<'}.get(op, op)
                rep.ob(op in ('>', '>='), 'whole', g + ':count', here(line), '%s does not count the measures of the longest part' % g, g)
    # ---- indexes
    index(rep, P, f, D, g, here)
    # ---- attached
    for vid, (c, line) in sorted(D.made.items()):
        rep.ob(vid in D.adds, 'attached', '%s:%s' % (g, c), here(line), '%s makes a %s that is not added to anything' % (g, c), g)
    # ---- first
    for vid, parent, conds, loops, line in D.takes:
        flag = None
        for c, pol in reversed(conds):
            b = uncast(c)
            while b and b[0] == 'u' and b[2] == '!':
                b = uncast(b[3])
            if b and b[0] == 'v' and b[2] in D.flags:
                flag = b[2]
                break
        if flag is None:
            continue
        ups = [x for x in D.flags[flag]]
        start, later = ups[0], [x for x in ups[1:] if x[0] != ups[0][0]]
        w = D.where.get(parent)
        ok = bool(later) and any(len(x[1]) > len(start[1]) for x in later)
        rep.ob(ok, 'first', '%s:reset:%d' % (g, len(loops)), here(line), '%s takes the child that is already there again and again' % g, g)
        if w is not None:
            rep.ob(start[1] == w, 'first', '%s:scope:%d' % (g, len(loops)), here(line), '%s starts over with the child that is already there at another loop than the one that provides the parent' % g, g)
    # ---- listed
    need = {'getScorePart', 'getPartGroupOrScorePartSet'}
    got = set()
    for s in D.stores:
        for x in s[3] | s[2]:
            if x[0] == 'A':
                got.add((x[1], x[2]))
    for v in D.env.values():
        for x in v:
            if x[0] == 'A':
                got.add((x[1], x[2]))
    if any(c == 'PartList' for c, n in got):
        for a in (('PartList', 'getScorePart'), ('PartList', 'getPartGroupOrScorePartSet'), ('PartGroupOrScorePart', 'getScorePart')):
            rep.ob(a in got, 'listed', '%s:%s' % (g, '.'.join(a)), here(f.line), '%s does not look at %s.%s for its parts' % (g, a[0], a[1]), g)


def attrs(P, s):
    return [c for c in P.rec if c.startswith(CO) and c.endswith('Attributes') and any(c in (m.ret or '') for m in P.methods(CO + s, 'getAttributes'))]


def reaches(s, t, D):
    """the attributes stored into belong to an object of class t"""
    return any(x == ('A', t, 'getAttributes') for x in s[2])


def names(P, n):
    out = []

    def look(x):
        if x[0] == 'c':
            out.append(P.q(x[2]).rsplit('::', 1)[-1])
    walk(n, look)
    return out


def compares(c):
    out = []

    def look(x):
        if x[0] == 'b' and x[2] in CMP:
            out.append(x)
    if c:
        walk(c, look)
    return out


def index(rep, P, f, D, g, here):
    loops = set()
    for s in D.stores:
        loops |= set(s[4])
    k = [0]

    def look(n):
        if n[0] == 'c' and n[3] is not None and P.q(n[2]).rsplit('::', 1)[-1] in ('operator[]', 'at') and n[4] and 'vector' in (P.info[n[2]][1] or ''):
            for L in loops:
                o = offset(n[4][0], L)
                if o is not None:
                    k[0] += 1
                    rep.ob(o + (getattr(L, 'start', 0) or 0) == 0, 'whole', '%s:index%d' % (g, k[0]), here(n[1]),
                           '%s starts reading at element %d' % (g, o + (getattr(L, 'start', 0) or 0)), g)
    walk(f.body, look)


def contents(rep, P):
    """Document::convertContents and anything else that replaces one form by the other"""
    for f in sorted(P.fn.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or f.cls != CO + 'Document':
            continue
        hits = []

        def look(n):
            if n[0] == 'c' and P.q(n[2]) in (CO + 'partwiseTimewise', CO + 'timewisePartwise'):
                hits.append(n)
        walk(f.body, look)
        if not hits:
            continue
        rep.saw(f)
        for block in branches(f.body, hits):
            ev = []

            def order(n):
                if n[0] == 'c' and n[3] is not None and P.q(n[2]).endswith('::operator=') and n[4]:
                    ev.append((fieldof(n[3]), n[4][0], n[1]))
                elif n[0] == 'b' and n[2] == '=':
                    ev.append((fieldof(n[3]), n[4], n[1]))
            for x in block:
                walk(x, order)
            conv = None
            gone = set()
            line = 0
            chosen = None
            problem = None
            for fld, v, l in ev:
                h = next((h for h in hits if inside(v, h)), None)
                if h is not None:
                    conv, line = P.q(h[2])[len(CO):], l
                    arg = fieldof(h[4][0])
                    if arg in gone:
                        problem = 'converts what it has already dropped'
                    if arg == fld:
                        problem = 'stores the new form over the old one'
                elif fld and 'hoice' in fld:
                    e = []
                    walk(v, lambda n: e.append(n[2].rsplit('::', 1)[-1]) if n[0] == 'e' else None)
                    chosen = e[0] if e else '?'
                elif fld:
                    gone.add(fld)
            if conv is None:
                rep.skip('order', f.qn, 'the conversion is not stored directly')
                continue
            want = 'timewise' if conv == 'partwiseTimewise' else 'partwise'
            if chosen not in (want, '?'):
                problem = problem or ('does not select the new form' if chosen is None else 'selects the form it comes from')
            rep.ob(problem is None, 'order', '%s:%s' % (f.name, conv), '%s:%d' % (f.file, line), '%s, %s: %s' % (f.name, conv, problem), 'Document')


def fieldof(n):
    n = uncast(n)
    while n:
        if n[0] == 'm':
            return n[3]
        if n[0] == 'u':
            n = uncast(n[3])
        elif n[0] == 'c':
            n = uncast(n[3] if n[3] is not None else (n[4] or [None])[0])
        else:
            return None
    return None


def inside(n, h):
    hit = [False]

    def look(x):
        if x is h:
            hit[0] = True
    walk(n, look)
    return hit[0]


def branches(body, hits):
    """for each conversion, the statements that are executed with it"""
    out = []
    for h in hits:
        best = []

        def look(n):
            if n[0] == '{' and inside(n, h):
                best.append(n[2])
        walk(body, look)
        b = best[-1]
        # statements of a switch: those between two labels
        cut = [i for i, x in enumerate(b) if x and x[0] in ('case', 'dflt')]
        if cut:
            at = next(i for i, x in enumerate(b) if inside(x, h))
            lo = max(i for i in cut if i <= at)
            hi = min([i for i in cut if i > at] + [len(b)])
            b = b[lo:hi]
        out.append(b)
    return out
