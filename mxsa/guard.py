"""Partial operations and what guards them.

Forward analysis of each function: on every path, which containers are known to hold something, which iterators are known
not to be at an end, which optionals and pointers are known to hold a value, which numbers are known not to be zero. An
operation that needs such a fact and lacks it is reported; when the operand is a parameter, the demand moves to the call."""
import re
from .prog import bare, walk

TERM = None
SEQ = ('std::vector', 'std::list', 'std::deque', 'std::map', 'std::set', 'std::multimap', 'std::unordered_map', 'std::unordered_set', 'std::basic_string', 'std::array')
P_FIND = re.compile(r'std::find_if$')
FIND = ('find', 'find_if', 'find_if_not', 'find_first_of', 'lower_bound', 'upper_bound', 'max_element', 'min_element', 'search', 'adjacent_find')
TYPES = {'int': (-2 ** 31, 2 ** 31 - 1), 'unsigned int': (0, 2 ** 32 - 1), 'long': (-2 ** 63, 2 ** 63 - 1), 'unsigned long': (0, 2 ** 64 - 1),
         'long long': (-2 ** 63, 2 ** 63 - 1), 'unsigned long long': (0, 2 ** 64 - 1), 'short': (-2 ** 15, 2 ** 15 - 1), 'unsigned short': (0, 2 ** 16 - 1),
         'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255), 'bool': (0, 1)}
INF = float('inf')
NEG = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}
SWAP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}


def is_iter(cls):
    return 'iterator' in (cls or '')


def uncast(n):
    while n and n[0] in ('cast',) and isinstance(n[-1], list):
        n = n[-1]
    while n and n[0] == 'k' and len(n[4] or []) == 1 and len(n) > 5 and ('copy' in (n[5] or '') or 'move' in (n[5] or '')):
        n = uncast(n[4][0])
    return n


class Guard:
    def __init__(self, P):
        self.P = P
        self.floor = {}         # (class, field) -> True when never empty
        self.needs = {}         # fid -> {(kind, param index): (file, line, what)}
        self.busy = set()
        self.modmemo = {}
        self.nullmemo = {}
        self.nfmemo = {}

    # ---- names of things
    def key(self, n, env):
        n = uncast(n)
        if not n:
            return None
        k = n[0]
        if k == 'v':
            return env.get(('ref', n[2]), ('v', n[2]))
        if k == 'this':
            return env.get('this', ('this',))
        if k == 'm':
            b = self.key(n[2], env) if n[2] else ('this',)
            return None if b is None else ('m', b, n[3])
        if k == 'u' and n[2] in ('*', '&'):
            return self.key(n[3], env)
        if k in ('n', 'e', 's', 'bo', 'ch'):
            return ('k',) + tuple(str(x) for x in n[2:3])
        if k == 'g':
            return ('g', n[2])
        if k == 'c':
            inf = self.P.info.get(n[2])
            if inf is None:
                return None
            name = self.P.q(n[2]).rsplit('::', 1)[-1]
            if n[3] is not None and name in ('operator->', 'get') and not n[4] or n[3] is not None and name == 'operator*' and not n[4]:
                b = self.key(n[3], env)
                return b if b is None or not is_iter(inf[1]) else ('at', b)
            if name in ('move', 'forward', 'as_const') and n[4] and self.P.q(n[2]).startswith('std::'):
                return self.key(n[4][0], env)
            f = self.P.fn.get(n[2])
            pure = 'c' in inf[4] or 's' in inf[4] or n[3] is None and self.P.q(n[2]).startswith('mx::')
            if name in ('operator[]', 'at', 'front', 'back', 'begin', 'end', 'cbegin', 'cend', 'size', 'find', 'rbegin'):
                pure = True
            if not pure:
                return None
            ks = []
            for x in ([n[3]] if n[3] is not None else []) + (n[4] or []):
                y = self.key(x, env)
                if y is None:
                    return None
                ks.append(y)
            if name in ('cbegin', 'cend'):
                name = name[1:]
            return ('c', name if n[3] is not None and self.P.q(n[2]).startswith('std::') else n[2], *ks)
        if k == 'b' and n[2] in ('+', '-', '*'):
            a, b = self.key(n[3], env), self.key(n[4], env)
            return None if a is None or b is None else ('b', n[2], a, b)
        if k == 'sub':
            a, b = self.key(n[2], env), self.key(n[3], env)
            return None if a is None or b is None else ('sub', a, b)
        return None

    # ---- conditions
    def cond(self, n, env, depth=0):
        """(facts when true, facts when false)"""
        n = uncast(n)
        E = frozenset()
        if not n or depth > 12:
            return E, E
        k = n[0]
        if k == 'bo':
            return (E, frozenset([('never',)])) if n[2] else (frozenset([('never',)]), E)
        if k == 'u' and n[2] == '!':
            t, f = self.cond(n[3], env, depth + 1)
            return f, t
        if k == 'b' and n[2] in ('&&', '||'):
            a, b = self.cond(n[3], env, depth + 1), self.cond(n[4], env, depth + 1)
            if n[2] == '&&':
                return a[0] | b[0], a[1] & b[1] if ('never',) not in a[1] | b[1] else (a[1] if ('never',) in b[1] else b[1])
            return a[0] & b[0], a[1] | b[1]
        if k == 'v' and ('cond', n[2]) in env:
            return env[('cond', n[2])]
        if k == 'v' and bare(self.vt.get(n[2], '')) == 'bool':
            return frozenset([('yes', ('v', n[2]))]), E
        if k == 'b' and n[2] in NEG:
            return self.found(self.compare(n[2], n[3], n[4], env), env)
        if k == 'c':
            inf = self.P.info.get(n[2])
            if inf is None:
                return E, E
            q = self.P.q(n[2])
            name = q.rsplit('::', 1)[-1]
            args = ([n[3]] if n[3] is not None else []) + (n[4] or [])
            if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=') and len(args) == 2 and not q.startswith('mx::'):
                return self.found(self.compare(name[8:], args[0], args[1], env), env)
            if name == 'operator!' and len(args) == 1:
                t, f = self.cond(args[0], env, depth + 1)
                return f, t
            x = self.key(args[0], env) if args else None
            if x is not None and name == 'empty' and len(args) == 1:
                return E, frozenset([('some', x)])
            if x is not None and name == 'size' and len(args) == 1:
                return frozenset([('some', x)]), E
            if x is not None and name in ('count', 'contains') and len(args) == 2:
                return frozenset([('some', x)]), E
            if x is not None and name in ('has_value', 'operator bool') and len(args) == 1:
                return frozenset([('val', x)]), E
            f = self.P.fn.get(n[2])
            e = single(f)
            if e is not None and depth < 4:
                en = self.bind(f, n, env)
                if en is not None:
                    return self.cond(e, en, depth + 1)
            if f is not None and f.ret == 'bool':
                r = self.summary(f)
                return self.carry(r[0], f, n, env), self.carry(r[1], f, n, env)
            return E, E
        x = self.key(n, env)
        if x is not None:
            return frozenset([('val', x), ('nz', x)]), E
        return E, E

    def found(self, facts, env):
        """what an iterator that a search with a condition has returned points to satisfies the condition"""
        return tuple(fs | {y for x in fs if x[0] == 'in' and len(x) == 2 and x[1][0] == 'v' for y in env.get(('found', x[1][1]), ())} for fs in facts)

    def carry(self, facts, f, call, env):
        """facts about a callee's parameters and object, as facts about the arguments"""
        if not facts:
            return frozenset()
        m = {}
        if call[3] is not None:
            m[('this',)] = self.key(call[3], env)
        elif f.cls and 's' not in f.flags:
            m[('this',)] = env.get('this', ('this',))
        for p, a in zip(f.params, call[4] or []):
            m[('v', p[0])] = self.key(a, env)

        def sub(x):
            if x in m:
                return m[x]
            if not isinstance(x, tuple):
                return x
            if x[:1] == ('v',) or x == ('this',):
                return None
            r = tuple(sub(y) if isinstance(y, tuple) else y for y in x)
            return None if any(y is None and isinstance(z, tuple) for y, z in zip(r, x)) else r
        out = set()
        gone = {x[1] for x in facts if x[0] == 'mod'}
        for x in facts:
            if x[0] in ('mod', 'never') or any(mentions(x, ('v', g)) for g in gone):
                continue
            r = sub(x)
            if r is not None:
                out.add(r)
        return frozenset(out)

    def bind(self, f, call, env):
        en = {}
        if call[3] is not None:
            b = self.key(call[3], env)
            if b is None:
                return None
            en['this'] = b
        elif 'this' in env:
            en['this'] = env['this']
        for p, a in zip(f.params, call[4] or []):
            y = self.key(a, env)
            if y is not None:
                en[('ref', p[0])] = y
        return en

    def number(self, n, env=None):
        n = uncast(n)
        if n and n[0] == 'n':
            return n[2]
        if n and n[0] == 'fl':
            try:
                return float(n[2])
            except (TypeError, ValueError):
                return None
        if n and n[0] == 'u' and n[2] == '-':
            v = self.number(n[3])
            return None if v is None else -v
        if n and n[0] == 'bo':
            return int(n[2])
        if n and n[0] in ('zero', 'null'):
            return 0
        if n and n[0] == 'v' and env is not None and ('num', n[2]) in env:
            return env[('num', n[2])]
        if n and n[0] == 'g':
            g = self.P.globals.get(n[2])
            return self.number(g['init']) if g and g['init'] and 'const' in str(g.get('t', g)) else None
        if n and n[0] == 'c':
            q = self.P.info[n[2]][0] if n[2] in self.P.info else ''
            if q.startswith('std::numeric_limits'):
                r = TYPES.get(bare(self.P.info[n[2]][2]))
                m = q.rsplit('::', 1)[-1]
                return None if r is None or m not in ('max', 'min', 'lowest') else r[1] if m == 'max' else r[0]
        if n and n[0] == 'b' and n[2] in ('+', '-'):
            a, b = self.number(n[3], env), self.number(n[4], env)
            return None if a is None or b is None else a + b if n[2] == '+' else a - b
        return None

    # ---- pointers
    def nullable(self, n, env):
        """the expression may be a null pointer"""
        n = uncast(n)
        if not n:
            return False
        if n[0] == 'null':
            return True
        if n[0] == 'v':
            return ('nullable', n[2]) in env
        if n[0] == 'k':
            return (not n[4] or len(n[4]) == 1 and uncast(n[4][0]) and uncast(n[4][0])[0] == 'null') and ('shared_ptr' in n[2] or 'unique_ptr' in n[2])
        if n[0] == 'cond':
            return self.nullable(n[3], env) or self.nullable(n[4], env)
        if n[0] == 'm' and n[2] and uncast(n[2]) and uncast(n[2])[0] == 'this' and isinstance(n[4], str):
            return n[3] in self.nullfields(n[4])
        if n[0] == 'cast' and 'Dynamic' in n[2]:
            return True
        if n[0] == 'c':
            q = self.P.q(n[2])
            if q.endswith('dynamic_pointer_cast'):
                return True
            if q.endswith('::getRoot') and n[3] is not None and ('loaded', self.key(n[3], env)) in env:
                return False        # the parser reports a document without a root as an error
            return self.may_null(n[2])
        return False

    def may_null(self, fid, depth=0):
        r = self.nullmemo.get(fid)
        if r is not None:
            return r
        self.nullmemo[fid] = False
        inf = self.P.info.get(fid)
        if inf is None or not (inf[2].endswith('*') or 'shared_ptr<' in inf[2][:18] or 'unique_ptr<' in inf[2][:18]) or not self.P.q(fid).startswith(('mx::', 'ezxml::')):
            return False
        f = self.P.fn.get(fid)
        hit = [False]
        if f is not None and f.body is not None:
            def look(n):
                if n[0] == 'ret' and n[2]:
                    e = uncast(n[2])
                    if e and (e[0] in ('null', 'k', 'cond', 'cast') or e[0] == 'c') and self.nullable(e, {}):
                        hit[0] = True
                if n[0] == 'lam':
                    return False
            walk(f.body, look)
        for o in self.P.overriders.get(fid, ()):
            if depth < 6 and self.may_null(o, depth + 1):
                hit[0] = True
        self.nullmemo[fid] = hit[0]
        return hit[0]

    def nullfields(self, cls):
        """pointer members that a constructor leaves null or that a method sets to null"""
        r = self.nfmemo.get(cls)
        if r is not None:
            return r
        out = set()
        self.nfmemo[cls] = out
        if not cls.startswith(('mx::impl', 'mx::api', 'ezxml', 'mx::utility')):
            return out
        ptr = {f[0]: f for f in (self.P.rec.get(cls) or {'f': []})['f'] if f[1].endswith('*') or 'shared_ptr<' in f[1][:24] or 'unique_ptr<' in f[1][:24]}
        ptr = {k: f for k, f in ptr.items() if not f[1].endswith('&')}
        if not ptr:
            return out
        name = cls.rsplit('::', 1)[-1]
        for f in self.P.by_cls.get(cls, ()):
            if f.body is None:
                continue
            if f.name == name and 'i' not in self.P.info[f.id][4]:
                given = {}
                for i in f.inits or []:
                    given[i[0]] = i[1]
                if None in given or '' in given:
                    pass
                always = self.summary(f)[2]
                for k, fd in ptr.items():
                    if ('val', ('m', ('this',), k)) in always:
                        continue
                    e = given.get(k, fd[2])
                    if isinstance(e, list) and e and not self.nullable(e, {}):
                        continue
                    if any(x not in ptr and x == name for x in given):      # delegates
                        continue
                    out.add(k)

            def look(n):
                t = None
                if n[0] == 'b' and n[2] == '=':
                    t, v = n[3], n[4]
                elif n[0] == 'c' and n[3] is not None and self.P.q(n[2]).endswith('::operator=') and n[4]:
                    t, v = n[3], n[4][0]
                t = uncast(t) if t else None
                if t and t[0] == 'm' and t[3] in ptr and (uncast(v) or [''])[0] in ('null', 'k') and self.nullable(v, {}):
                    out.add(t[3])
            walk(f.body, look)
        return out

    def sized(self, n, env):
        """the container whose size n is"""
        n = uncast(n)
        if n and n[0] == 'c' and n[3] is not None and not n[4] and self.P.q(n[2]).rsplit('::', 1)[-1] in ('size', 'length'):
            return self.key(n[3], env)
        if n and n[0] == 'v' and ('size', n[2]) in env:
            return env[('size', n[2])]
        return None

    def place(self, n, env):
        """('begin'|'end', container)"""
        n = uncast(n)
        if n and n[0] == 'c':
            name = self.P.q(n[2]).rsplit('::', 1)[-1]
            o = n[3] if n[3] is not None else (n[4] or [None])[0]
            if name in ('begin', 'cbegin', 'rbegin', 'crbegin', 'end', 'cend', 'rend', 'crend') and o is not None:
                return ('end' if 'end' in name else 'begin'), self.key(o, env)
        if n and n[0] == 'v' and ('place', n[2]) in env:
            return env[('place', n[2])]
        return None

    def compare(self, op, a, b, env):
        t, f = self.relate(op, a, b, env)
        t, f = set(t), set(f)
        for x, y, o in ((a, b, op), (b, a, SWAP[op])):
            k = self.key(x, env)
            if k is None or k[0] == 'k':
                continue
            r = self.interval(y, frozenset(), env)
            if not isinstance(r, tuple):
                continue
            for w, o2 in ((t, o), (f, NEG[o])):
                if o2 in ('<', '<=', '==') and r[1] < INF:
                    w.add(('ub', k, r[1], o2 == '<' or r[3]))
                if o2 in ('>', '>=', '==') and r[0] > -INF:
                    w.add(('lb', k, r[0], o2 == '>' or r[2]))
        return frozenset(t), frozenset(f)

    def relate(self, op, a, b, env):
        E = frozenset()
        for x, y, o in ((a, b, op), (b, a, SWAP[op])):
            t, f = set(), set()
            v = self.number(y, env)
            c = self.sized(x, env)
            if c is not None and v is not None:
                if o == '>' and v >= 0 or o == '>=' and v >= 1 or o == '==' and v >= 1 or o == '!=' and v == 0:
                    t.add(('some', c))
                if o == '<=' and v >= 0 or o == '<' and v >= 1 or o == '!=' and v >= 1 or o == '==' and v == 0:
                    f.add(('some', c))
                for w in (t, f):
                    o2 = o if w is t else NEG[o]
                    m = v + 1 if o2 == '>' else v if o2 in ('>=', '==') else None
                    if m is not None:
                        w.add(('atleast', c, m))
                    if o2 == '!=':
                        w.add(('not', c, v))
                return frozenset(t), frozenset(f)
            if c is not None and o in ('>', '<='):
                i = self.key(y, env)
                if i is not None:
                    (t if o == '>' else f).update([('below', i, c), ('some', c)])
                return frozenset(t), frozenset(f)
            c2 = self.sized(y, env)
            if c is not None and c2 is not None and o in ('==', '!='):
                (t if o == '==' else f).add(('same', c, c2))
                return frozenset(t), frozenset(f)
            if c is not None and o in ('==', '!='):
                i = self.key(y, env)
                if i is not None:
                    (f if o == '==' else t).add(('below?', i, c))
            p = self.place(y, env)
            if p is not None and p[0] == 'end':
                q = self.place(x, env)
                k = self.key(x, env)
                w = t if o == '!=' else f if o == '==' else t if o == '<' else None
                if w is not None:
                    if q is not None and q[0] == 'begin' and q[1] is not None:
                        w.add(('some', q[1]))
                    if k is not None:
                        w.add(('in', k))
                    return frozenset(t), frozenset(f)
            k = self.key(x, env)
            y0 = uncast(y)
            if k is not None and (y0 and y0[0] == 'null' or y0 and y0[0] == 'c' and False):
                (t if o == '!=' else f if o == '==' else set()).add(('val', k))
                return frozenset(t), frozenset(f)
            if k is not None and v is not None:
                if o in ('>', '>=') and (v > 0 or o == '>' and v >= 0) or o == '!=' and v == 0 or o == '==' and v != 0 or o in ('<', '<=') and (v < 0 or o == '<' and v <= 0):
                    t.add(('nz', k))
                n2 = NEG[o]
                if n2 in ('>', '>=') and (v > 0 or n2 == '>' and v >= 0) or n2 == '!=' and v == 0 or n2 == '==' and v != 0 or n2 in ('<', '<=') and (v < 0 or n2 == '<' and v <= 0):
                    f.add(('nz', k))
                return frozenset(t), frozenset(f)
            if is_iter_key(self, x) and is_iter_key(self, y) and k is not None and o in ('!=', '=='):
                (t if o == '!=' else f).add(('in', k))
                k2 = self.key(y, env)
                if k2 is not None:
                    (t if o == '!=' else f).add(('in', k2))
                return frozenset(t), frozenset(f)
        return E, E


    ROUND = ('std::ceil', 'std::floor', 'std::round', 'std::trunc', 'std::nearbyint', 'std::rint', 'ceil', 'floor', 'round', 'trunc', 'ceill', 'floorl')

    def interval(self, n, S, env, depth=0):
        """(low, high, low excluded, high excluded) of a number, 'skip' when computed in a way that is not followed"""
        if depth > 12:
            return 'skip'
        while n and n[0] == 'k' and len(n[4] or []) == 1:
            n = n[4][0]
        if not n:
            return 'skip'
        if n[0] == 'cast':
            if 'ToFloating' in n[2] or n[2].endswith('IntegralCast'):
                r = self.interval(n[-1], S, env, depth + 1)
                w = TYPES.get(bare(n[4]))
                if w is None or r == 'skip':
                    return r
                if not isinstance(r, tuple):
                    r = (-INF, INF, False, False)
                return (max(r[0], w[0]), min(r[1], w[1]), False, False)
            if 'FloatingToIntegral' in n[2]:
                w = TYPES.get(bare(n[3]))
                if w is None or self.interval(n[-1], S, env, depth + 1) == 'skip':
                    return 'skip'
                return w + (False, False)
            return self.interval(n[-1], S, env, depth + 1)
        v = self.number(n, env)
        if v is not None:
            return (v, v, False, False)
        k = self.key(n, env)
        lo, hi = (-INF, False), (INF, False)
        if k is not None:
            for x in S:
                if x[0] == 'ub' and x[1] == k and (x[2], not x[3]) < (hi[0], not hi[1]):
                    hi = (x[2], x[3])
                if x[0] == 'lb' and x[1] == k and (x[2], x[3]) > lo:
                    lo = (x[2], x[3])
        r = None
        if n[0] == 'v':
            i = env.get(('def', n[2]))
            if i is not None:
                r = self.interval(i, S, env, depth + 1)
            w = TYPES.get(bare(self.vt.get(n[2], '')))
            if w and r is None:
                r = w + (False, False)
        elif n[0] == 'm' and isinstance(n[4], str):
            w = TYPES.get(bare(self.P.field_type(n[4], n[3]) or ''))
            r = w + (False, False) if w else None
        elif n[0] == 'u' and n[2] == '-':
            r = self.interval(n[3], S, env, depth + 1)
            if isinstance(r, tuple):
                r = (-r[1], -r[0], r[3], r[2])
        elif n[0] == 'b' and n[2] in ('+', '-'):
            a, b = self.interval(n[3], S, env, depth + 1), self.interval(n[4], S, env, depth + 1)
            if a == 'skip' or b == 'skip':
                return 'skip'
            if isinstance(a, tuple) and isinstance(b, tuple):
                if n[2] == '-':
                    b = (-b[1], -b[0], b[3], b[2])
                r = (a[0] + b[0], a[1] + b[1], a[2] or b[2], a[3] or b[3])
        elif n[0] == 'b' and n[2] == '*':
            a, b = self.interval(n[3], S, env, depth + 1), self.interval(n[4], S, env, depth + 1)
            if a == 'skip' or b == 'skip':
                return 'skip'
        elif n[0] == 'cond':
            t, f = self.cond(n[2], env)
            a, b = self.interval(n[3], S | t, env, depth + 1), self.interval(n[4], S | f, env, depth + 1)
            if isinstance(a, tuple) and isinstance(b, tuple):
                r = (min(a[0], b[0]), max(a[1], b[1]), a[2] and b[2], a[3] and b[3])
        elif n[0] == 'c':
            q = self.P.q(n[2])
            a = [self.interval(x, S, env, depth + 1) for x in n[4] or []]
            if q in self.ROUND and a:
                r = a[0]
                if isinstance(r, tuple):
                    dn, up = q not in ('std::ceil', 'ceil', 'ceill'), q not in ('std::floor', 'floor', 'floorl')
                    import math
                    r = (r[0] if r[0] == -INF else math.floor(r[0]) if dn else math.ceil(r[0]), r[1] if r[1] == INF else math.ceil(r[1]) if up else math.floor(r[1]), False, False)
                elif r == 'skip':
                    return r
            elif q in ('std::min', 'std::max') and len(a) >= 2:
                w = [x for x in a[:2] if isinstance(x, tuple)]
                if q == 'std::min' and w:
                    r = (-INF if len(w) < 2 else min(x[0] for x in w), min(x[1] for x in w), False, False)
                elif w:
                    r = (max(x[0] for x in w), INF if len(w) < 2 else max(x[1] for x in w), False, False)
            elif q == 'std::clamp' and len(a) >= 3 and isinstance(a[1], tuple) and isinstance(a[2], tuple):
                r = (a[1][0], a[2][1], False, False)
            elif q in ('std::pow', 'pow', 'powl'):
                return 'skip'
            elif q in ('std::abs', 'std::fabs') and a:
                r = a[0] if isinstance(a[0], tuple) and a[0][0] >= 0 else (0, max(-a[0][0], a[0][1]), False, False) if isinstance(a[0], tuple) else (0, INF, False, False)
            else:
                w = TYPES.get(bare(self.P.info[n[2]][2])) if n[2] in self.P.info else None
                f = self.P.fn.get(n[2])
                e = single(f)
                if e is not None and depth < 6:
                    en = self.bind(f, n, env)
                    if en is not None:
                        for p, x in zip(f.params, n[4] or []):
                            en[('def', p[0])] = x if self.number(x, env) is not None else None
                        r = self.interval(e, frozenset(), {a: b for a, b in en.items() if b is not None}, depth + 1)
                if w and not isinstance(r, tuple):
                    r = w + (False, False)
        if isinstance(r, tuple):
            if (r[0], r[2]) > lo:
                lo = (r[0], r[2])
            if (r[1], not r[3]) < (hi[0], not hi[1]):
                hi = (r[1], r[3])
        if r == 'skip' and (lo[0] == -INF or hi[0] == INF):
            return 'skip'
        if lo[0] == -INF and hi[0] == INF:
            return None
        return (lo[0], hi[0], lo[1], hi[1])


def is_iter_key(G, n):
    n = uncast(n)
    if not n:
        return False
    if n[0] == 'm':
        t = G.P.field_type(n[4], n[3]) if isinstance(n[4], str) else ''
        return 'iterator' in (t or '')
    if n[0] == 'v':
        return 'iterator' in G.vt.get(n[2], '')
    return False


def single(f):
    if f is None or f.body is None or not f.qn.startswith(('mx::', 'ezxml::')):
        return None
    b = f.body
    if b[0] == '{' and len(b[2]) == 1 and b[2][0][0] == 'ret':
        return b[2][0][2]
    return None


def lambda_result(l):
    """what a lambda of one parameter returns, when that is all it does"""
    while l and l[0] == 'k' and len(l[4] or []) == 1:
        l = uncast(l[4][0])
    if not l or l[0] != 'lam' or len(l[2]) != 1:
        return None
    b = l[3]
    if b and b[0] == '{' and len(b[2]) == 1 and b[2][0][0] == 'ret':
        return b[2][0][2]
    return None


def mentions(fact, k):
    if fact == k:
        return True
    return isinstance(fact, tuple) and any(mentions(x, k) for x in fact if isinstance(x, tuple))


class Pass:
    """one function"""

    def __init__(self, G, f, report):
        self.G, self.P, self.f, self.report = G, G.P, f, report
        self.env = {}
        self.params = {p[0]: i for i, p in enumerate(f.params)}
        G.vt = {p[0]: p[2] for p in f.params}

        def types(n):
            if n[0] == 'd':
                for d in n[2]:
                    G.vt[d[0]] = d[2]
            elif n[0] == 'rf':
                G.vt[n[2]] = n[4]
            elif n[0] == 'lam':
                for p in n[2]:
                    G.vt[p[0]] = p[2]
        self.written = set()

        def writes(n):
            t = None
            if n[0] == 'b' and n[2].endswith('=') and n[2] not in NEG:
                t = n[3]
                if n[2] == '=' and G.nullable(n[4], {}):
                    w = uncast(t)
                    if w and w[0] == 'v':
                        self.env[('nullable', w[2])] = True
            elif n[0] == 'u' and ('++' in n[2] or '--' in n[2] or n[2] == '&'):
                t = n[3]
            elif n[0] == 'c':
                inf = self.P.info.get(n[2])
                if inf:
                    if n[3] is not None and 'c' not in inf[4]:
                        w = uncast(n[3])
                        w and w[0] == 'v' and self.written.add(w[2])
                        if self.P.q(n[2]).endswith('::operator=') and n[4] and w and w[0] == 'v' and G.nullable(n[4][0], {}):
                            self.env[('nullable', w[2])] = True
                    for ty, a in zip(inf[3], n[4] or []):
                        if ty.endswith('&') and not ty.startswith('const ') and not ty.endswith('&&'):
                            w = uncast(a)
                            w and w[0] == 'v' and self.written.add(w[2])
            t = uncast(t) if t else None
            if t and t[0] == 'v':
                self.written.add(t[2])
        if f.body:
            walk(f.body, types)
            walk(f.body, writes)
        self.vt = G.vt
        self.need = {}
        self.over = {}
        self.loops = []
        self.quiet = 0
        self.moving = 0
        self.exits = []

    def run(self):
        S = frozenset()
        if self.f.inits:
            for i in self.f.inits:
                if i[1]:
                    S = self.expr(i[1], S)
                    if i[0] in self.P.fields(self.f.cls or ''):
                        S |= self.facts(i[1], ('m', ('this',), i[0]), S)
        S = self.stmt(self.f.body, S)
        if S is not None:
            self.exits.append((None, S))
        return S

    # ---- obligations
    def ask(self, kind, n, S, line, what):
        """kind: some (container holds something), in (iterator), val (optional), nz (number)"""
        G = self.G
        if self.quiet or ('never',) in S:
            return
        if kind.startswith('fit '):
            return self.fits(kind, n, S, line, what)
        n = uncast(n)
        if kind == 'in' and self.computed(n):
            return self.report(self.f, kind, line, what, n, None, None)
        k = G.key(n, self.env)
        ok = False
        if k is not None:
            ok = (kind, k) in S
            if kind == 'some':
                ok = ok or self.floor(n) or any(x[0] == 'atleast' and x[1] == k and x[2] > 0 for x in S)
            if kind == 'in' and not ok:
                p = self.at(n, k, S)
                ok = p
        if not ok and kind == 'in':
            p = G.place(n, self.env)
            if p and p[0] == 'begin' and p[1] is not None:
                inner = n[3] if n[0] == 'c' and n[3] is not None else (n[4] or [None])[0] if n[0] == 'c' else None
                if ('some', p[1]) in S or inner is not None and self.floor(inner):
                    ok = True
                elif inner is not None:
                    return self.ask('some', inner, S, line, what)
        if not ok and kind == 'nz':
            v = G.number(n)
            if v is not None:
                ok = v != 0
            elif n[0] == 'fl':
                ok = True
            elif n[0] == 'b' and n[2] == '+' and (G.number(n[4]) or G.number(n[3])):
                ok = False
        if not ok and n and n[0] == 'v' and n[2] in self.params and ('mod', n[2]) not in S:
            self.need.setdefault((kind, self.params[n[2]]), (self.f.file, line, what))
            return
        if not ok and kind == 'val' and n and n[0] == 'm' and n[2] and uncast(n[2]) and uncast(n[2])[0] == 'this' and k is not None and ('mod', n[3]) not in S \
                and self.f.cls and 'z' in self.f.flags:
            self.need.setdefault((kind, ('f', n[3], n[4])), (self.f.file, line, what))
            return
        if not ok and kind == 'val' and k is None:
            ok = None
        self.report(self.f, kind, line, what, n, k, ok)

    def computed(self, n):
        """an iterator reached by arithmetic or chosen between two: where it stands is not known here"""
        for i in range(6):
            if not n:
                return False
            if n[0] == 'cond' or n[0] == 'c' and self.P.q(n[2]).rsplit('::', 1)[-1] in ('operator+', 'operator-', 'next', 'prev') or n[0] == 'b':
                return True
            if n[0] == 'v' and ('def', n[2]) in self.env:
                n = uncast(self.env[('def', n[2])])
                continue
            return False
        return False

    def fits(self, kind, n, S, line, what):
        G = self.G
        lo, hi = TYPES[kind[4:]]
        r = G.interval(n, S, self.env)
        ok = None if r == 'skip' else bool(isinstance(r, tuple) and (r[0] > lo - 1 or r[0] == lo - 1 and r[2]) and (r[1] < hi + 1 or r[1] == hi + 1 and r[3]))
        if ok is False:
            leaf = set()

            def look(x):
                if x[0] == 'v':
                    leaf.add(x[2])
            walk(n, look)
            if len(leaf) == 1 and next(iter(leaf)) in self.params and ('mod', next(iter(leaf))) not in S:
                v = next(iter(leaf))
                if 'z' in self.f.flags or self.f.cls in ('', None) and self.P.info[self.f.id][0].find('(anonymous') >= 0:
                    self.need.setdefault((kind, self.params[v]), (self.f.file, line, what))
                    return
        self.report(self.f, kind, line, what, n, G.key(n, self.env), ok)

    def at(self, n, k, S):
        """an iterator that still stands at the beginning of a container that is not empty"""
        for x in S:
            if x[0] == 'nth' and x[1] == k:
                c, i = x[2], x[3]
                if i == 0 and (('some', c) in S or ('floor', c) in S) or any(y[0] == 'atleast' and y[1] == c and y[2] > i for y in S):
                    return True
                no = {y[2] for y in S if y[0] == 'not' and y[1] == c}
                if all(j in no for j in range(i + 1)):
                    return True
        c = self.over.get(k)
        if c is not None:
            for x in S:
                if x[0] == 'in' and x[1] in self.over and ({('same', c, self.over[x[1]]), ('same', self.over[x[1]], c)} & S):
                    return True
        return False

    def floor(self, n):
        """a collection that is never empty by construction"""
        n = uncast(n)
        if not n:
            return False
        if n[0] == 'v' and ('init', n[2]) in self.env:
            return self.floor(self.env[('init', n[2])])
        if n[0] == 'c' and n[3] is not None:
            f = self.P.fn.get(n[2])
            e = single(f)
            if e is not None:
                e = uncast(e)
                if e and e[0] == 'm' and e[2] and e[2][0] == 'this':
                    return (f.cls, e[3]) in self.G.floor
        if n[0] == 'm' and isinstance(n[4], str):
            return (n[4], n[3]) in self.G.floor
        return False

    # ---- effects
    def kill(self, S, k, value=True):
        if k is None:
            return S
        S = frozenset(x for x in S if not mentions(x, k))
        if k[0] == 'v' and k[1] in self.params:
            S |= {('mod', k[1])}
        return S

    def expr(self, n, S):
        if not isinstance(n, list) or not n:
            return S
        if not isinstance(n[0], str):
            for x in n:
                S = self.expr(x, S)
            return S
        G, P = self.G, self.P
        k = n[0]
        if k == 'b' and n[2] in ('&&', '||'):
            S1 = self.expr(n[3], S)
            t, f = G.cond(n[3], self.env)
            S2 = self.expr(n[4], S1 | (t if n[2] == '&&' else f))
            return S1 & S2 if S2 is not None else S1
        if k == 'cond':
            S1 = self.expr(n[2], S)
            t, f = G.cond(n[2], self.env)
            a, b = self.expr(n[3], grant(S1, t)), self.expr(n[4], grant(S1, f))
            return a & b
        if k == 'lam':
            q = P  # a function object may run later: no facts of this point
            e, self.exits = self.exits, []
            self.stmt(n[3] if isinstance(n[3], list) else None, frozenset(x for x in S if x[0] != 'mod'))
            self.exits = e
            return S
        if k == 'b' and n[2] == '=':
            S = self.expr(n[4], S)
            S = self.expr(n[3], S)
            return self.store(n[3], n[4], S)
        if k == 'b' and n[2].endswith('=') and n[2] not in NEG:
            S = self.expr(n[4], self.expr(n[3], S))
            if n[2] in ('/=', '%='):
                self.divide(n[4], intlike(n[5] if len(n) > 5 else ''), S, n[1])
            return self.scale(n, S)
        if k == 'b':
            S = self.expr(n[4], self.expr(n[3], S))
            if n[2] in ('/', '%'):
                self.divide(n[4], intlike(n[5] if len(n) > 5 else ''), S, n[1])
            return S
        if k == 'u':
            S = self.expr(n[3], S)
            if '++' in n[2] or '--' in n[2]:
                return self.step(G.key(n[3], self.env), '++' in n[2], S)
            return S
        if k == 'c':
            return self.call(n, S)
        if k == 'cast' and 'FloatingToIntegral' in n[2] and bare(n[3]) in TYPES:
            S = self.expr(n[-1], S)
            self.ask('fit ' + bare(n[3]), n[-1], S, n[1], 'conversion of a floating point number')
            return S
        if k == 'throw':
            self.expr(n[2], S)
            return S | {('never',)}
        for x in n[1:]:
            if isinstance(x, list):
                S = self.expr(x, S)
        return S

    def divide(self, n, whole, S, line):
        if not whole:
            if not self.f.file.startswith('Sourcecode/private') and '/private/' not in self.f.file:
                return
            r = self.G.interval(n, S, self.env)
            if r == 'skip':
                return self.quiet or self.report(self.f, 'nz', line, 'division', n, None, None)
            if isinstance(r, tuple) and (r[0] > 0 or r[1] < 0 or r[0] == 0 and r[2] or r[1] == 0 and r[3]):
                return self.quiet or self.report(self.f, 'nz', line, 'division', n, None, True)
        for i in range(4):
            n = uncast(n)
            if n and n[0] == 'v' and ('def', n[2]) in self.env and ('nz', ('v', n[2])) not in S:
                d = uncast(self.env[('def', n[2])])
                if d and d[0] in ('v', 'm'):
                    n = d
                    continue
            break
        self.ask('nz', n, S, line, 'division')

    def scale(self, n, S):
        k = self.G.key(n[3], self.env)
        T = self.kill(S, k)
        v = self.G.number(n[4]) if n[2] == '*=' else None
        if v and ('nz', k) in S:
            T |= {('nz', k)}
        if v:
            T |= {(x[0] if v > 0 else 'lb' if x[0] == 'ub' else 'ub', k, x[2] * v, x[3]) for x in S if x[0] in ('ub', 'lb') and x[1] == k}
        return T

    def store(self, lhs, rhs, S):
        G = self.G
        k = G.key(lhs, self.env)
        if k is None:
            return S
        new = self.facts(rhs, k, S) | self.flag(rhs, k, S)
        return self.kill(S, k) | new

    def flag(self, rhs, k, S):
        """what is known whenever a flag that receives the value of an expression is set"""
        if k[0] != 'v' or len(k) != 2 or bare(self.G.vt.get(k[1], '')) != 'bool':
            return set()
        r = uncast(rhs)
        if r and r[0] == 'bo' and not r[2]:
            return {('no', k)}
        t = set() if r and r[0] == 'bo' else self.G.cond(rhs, self.env)[0]
        return {('imp', k, x) for x in S | t if x[0] in ('some', 'in', 'val', 'nz', 'ub', 'lb', 'nth', 'atleast', 'below') and not mentions(x, k)}

    def facts(self, rhs, k, S):
        """what is known about a place that receives the value of an expression"""
        G = self.G
        out = set()
        r = uncast(rhs)
        if not r:
            return out
        rk = G.key(r, self.env)
        if rk is not None and rk != k:
            for x in S:
                if len(x) == 2 and x[1] == rk:
                    out.add((x[0], k))
                if x[0] in ('nth', 'atleast', 'below') and x[1] == rk:
                    out.add((x[0], k) + x[2:])
        p = G.place(r, self.env)
        if p is not None and p[0] == 'begin' and p[1] is not None:
            out.add(('nth', k, p[1], 0))
            self.over[k] = p[1]
            inner = r[3] if r[0] == 'c' and r[3] is not None else (r[4] or [None])[0] if r[0] == 'c' else None
            if inner is not None and self.floor(inner):
                out.add(('floor', p[1]))
        v = G.number(r, self.env)
        if v:
            out.add(('nz', k))
        if v is not None:
            out.update([('ub', k, v, False), ('lb', k, v, False)])
        if not G.nullable(r, self.env) and r[0] in ('c', 'v', 'm', 'u', 'k'):
            out.add(('val', k))
        if r[0] == 'c' and self.P.q(r[2]).rsplit('::', 1)[-1] in ('make_shared', 'make_unique') or r[0] == 'new':
            out.add(('val', k))
        if r[0] == 'il' and r[-1] and isinstance(r[-1], list):
            out.add(('some', k))
        return out

    def step(self, k, up, S):
        if k is None:
            return S
        new = {('nth', k, x[2], x[3] + (1 if up else -1)) for x in S if x[0] == 'nth' and x[1] == k and 0 <= x[3] + (1 if up else -1) < 8} if not self.moving else set()
        return self.kill(S, k) | new

    def index(self, cont, i, S, line):
        """an index is below the size"""
        G = self.G
        if self.quiet or ('never',) in S:
            return
        c, k, v = G.key(cont, self.env), G.key(i, self.env), G.number(i, self.env)
        ok = ('below', k, c) in S if k is not None and c is not None else None
        if v is not None and c is not None:
            ok = any(x[0] == 'atleast' and x[1] == c and x[2] > v for x in S) or v == 0 and (('some', c) in S or self.floor(cont))
        if not ok and (uncast(i)[0] != 'v' or c is None or self.vt.get(uncast(i)[2]) is None or ('def', uncast(i)[2]) in self.env and not ok) and v is None:
            ok = None
        self.report(self.f, 'below', line, 'indexing', cont, c, ok)

    def itertype(self, n, inf):
        return bool(inf[3]) and 'iterator' in inf[3][0]

    GROW = ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'insert', 'emplace')

    def call(self, n, S):
        G, P = self.G, self.P
        inf = P.info.get(n[2])
        q = P.q(n[2]) if inf is not None else ''
        name = q.rsplit('::', 1)[-1]
        if n[3] is not None:
            S = self.expr(n[3], S)
        for a in n[4] or []:
            S = self.expr(a, S)
        if inf is None:
            return S
        cls = inf[1] or ''
        std = q.startswith(('std::', '__gnu_cxx::'))
        line = n[1]
        if std and n[3] is not None:
            if is_iter(cls) and name in ('operator*', 'operator->'):
                self.ask('in', n[3], S, line, 'use of what an iterator points to')
            elif name in ('front', 'back', 'pop_back', 'pop_front') and cls.startswith(SEQ):
                self.ask('some', n[3], S, line, name + '()')
            elif cls.startswith('std::optional') and name in ('operator*', 'operator->', 'value'):
                self.ask('val', n[3], S, line, 'value of an optional')
            elif name in ('operator*', 'operator->') and '_ptr' in cls and G.nullable(n[3], self.env):
                self.ask('val', n[3], S, line, 'what a pointer points to')
            elif name == 'operator[]' and cls.startswith(('std::vector', 'std::deque', 'std::array')) and n[4]:
                self.index(n[3], n[4][0], S, line)
            elif name == 'erase' and len(n[4] or []) == 1 and cls.startswith(SEQ) and self.itertype(n, inf):
                self.ask('in', n[4][0], S, line, 'erase()')
        if n[3] is not None and name in ('loadStream', 'loadFile', 'loadString') and G.key(n[3], self.env) is not None:
            self.env[('loaded', G.key(n[3], self.env))] = True
        # demands of the callee
        f = P.fn.get(n[2])
        if f is not None and f.body is not None and G.mine(f):
            for (kind, i), (file, l2, what) in sorted(G.demand(f).items()):
                if isinstance(i, tuple):
                    o = uncast(n[3]) if n[3] is not None else None
                    if o and o[0] == 'this':
                        self.ask(kind, ['m', line, ['this', line], i[1], i[2], 1], S, line, '%s in %s' % (what, f.qn.split('::', 2)[-1]))
                    continue
                if i < len(n[4] or []):
                    self.ask(kind, n[4][i], S, line, '%s in %s' % (what, f.qn.split('::', 2)[-1]))
        if f is not None and f.body is not None and not std and G.mine(f):
            S1 = self.effect_of(n, S, inf, q, name, std, f)
            return S1 | G.carry(G.summary(f)[2], f, n, self.env)
        return self.effect_of(n, S, inf, q, name, std, f)

    def effect_of(self, n, S, inf, q, name, std, f):
        G = self.G
        if n[3] is not None and name in ('operator=', 'operator+=', 'operator++', 'operator--', 'operator-='):
            k = G.key(n[3], self.env)
            if name in ('operator++', 'operator--'):
                return self.step(k, name == 'operator++', S)
            if name == 'operator=' and n[4] and k is not None:
                return self.store(n[3], n[4][0], S)
            return self.kill(S, k)
        if n[3] is not None and 'c' not in inf[4] and not is_const_like(name):
            k = G.key(n[3], self.env)
            if std and name in self.GROW and k is not None:
                S = frozenset(x for x in S if not (mentions(x, k) and x[0] in ('nth', 'in')))
                S |= {('some', k)}
            elif std and name in ('operator->', 'operator*', 'get', 'operator[]', 'at', 'front', 'back', 'begin', 'end', 'find', 'reserve', 'data', 'value', 'rbegin', 'rend'):
                pass
            elif std and name == 'emplace' and k is not None:
                S = self.kill(S, k) | {('val', k)}
            elif f is not None and not std:
                S = self.effects(f, k, S)
                if k is not None and len(n[4] or []) == 1 and not G.nullable(n[4][0], self.env):
                    S |= {('some', ('c', g, k)) for g in G.adds_to(f)}
            else:
                S = self.kill(S, k)
        for t, a in zip(inf[3], n[4] or []):
            if t.endswith('&') and not t.startswith('const ') and not t.endswith('&&') or t.endswith('&&') and name not in ('forward', 'emplace_back', 'emplace', 'make_shared', 'make_pair'):
                if name == 'move':
                    continue
                S = self.kill(S, G.key(a, self.env))
        return S

    def effects(self, f, k, S):
        """a non-const method was called on k"""
        if k is None:
            return frozenset(x for x in S if not any(mentions(x, y) for y in [('this',)]))
        mods = self.G.modifies(f)
        if mods is None:
            return self.kill_below(S, k)
        for m in mods:
            if m[0] == '*':
                t = ('m', k, m[1:])
                S = frozenset(x for x in S if not mentions(x, t) or x[0] == 'val' and x[1] == t)
            else:
                S = self.kill(S, ('m', k, m))
        # values computed by methods of the object may have changed
        if mods:
            S = frozenset(x for x in S if not (mentions_call(x, k)))
        return S

    def kill_below(self, S, k):
        return frozenset(x for x in S if not mentions(x, k))

    # ---- statements
    def stmt(self, n, S):
        """facts after the statement, None when it does not complete"""
        if not n or S is None:
            return S
        if not isinstance(n[0], str):
            for x in n:
                S = self.stmt(x, S)
                if S is None:
                    return None
            return S
        G = self.G
        k = n[0]
        if k == '{':
            for x in n[2]:
                S = self.stmt(x, S)
                if S is None:
                    return None
            return S
        if k == 'd':
            for d in n[2]:
                S = self.decl(d, S)
            return S
        if k == 'if':
            if n[2]:
                S = self.stmt(n[2], S)
            S = self.expr(n[3], S)
            t, f = G.cond(n[3], self.env)
            a = self.stmt(n[4], grant(S, t))
            b = self.stmt(n[5], grant(S, f)) if n[5] else grant(S, f)
            return join(a, b)
        if k in ('while', 'for'):
            init, c, inc, body = (None, n[2], None, n[3]) if k == 'while' else (n[2], n[3], n[4], n[5])
            if init:
                S = self.stmt(init, S)
            H = self.without(S, [c, inc, staying(body)])
            H = self.expr(c, H) if c else H
            t, f = G.cond(c, self.env) if c else (frozenset(), frozenset([('never',)]))
            self.loops.append([])
            B = self.stmt(body, grant(H, t))
            brk = self.loops.pop()
            cont = [x[1] for x in brk if x[0] == 'cnt']
            for x in cont:
                B = join(B, x)
            if inc and B is not None:
                self.expr(inc, B)
            out = grant(H, f)
            for x in brk:
                if x[0] == 'brk':
                    out = join(out, x[1])
            return out
        if k == 'do':
            H = self.without(S, [staying(n[2]), n[3]])
            self.loops.append([])
            B = self.stmt(n[2], H)
            brk = self.loops.pop()
            for x in brk:
                if x[0] == 'cnt':
                    B = join(B, x[1])
            out = None
            if B is not None:
                B = self.expr(n[3], B)
                out = B | G.cond(n[3], self.env)[1]
            for x in brk:
                if x[0] == 'brk':
                    out = join(out, x[1])
            return out
        if k == 'rf':
            S = self.expr(n[5], S)
            H = self.without(S, [staying(n[6])])
            rk = G.key(n[5], self.env)
            body = H
            if rk is not None:
                body = body | {('some', rk)}
            self.loops.append([])
            self.stmt(n[6], body)
            for x in self.loops.pop():
                if x[0] == 'brk':
                    H = join(H, x[1])
            return H
        if k == 'sw':
            for x in n[2:-1]:
                if isinstance(x, list):
                    S = self.expr(x, S)
            self.loops.append([])
            out = None
            body = n[-1]
            cur = None
            seen_default = False
            for x in (body[2] if body and body[0] == '{' else [body]):
                if x and x[0] in ('case', 'dflt'):
                    seen_default |= x[0] == 'dflt'
                    cur = join(cur, S)
                    y = x
                    while y and y[0] in ('case', 'dflt'):
                        seen_default |= y[0] == 'dflt'
                        y = y[-1]
                    cur = self.stmt(y, cur)
                elif cur is not None:
                    cur = self.stmt(x, cur)
            out = cur
            for x in self.loops.pop():
                if x[0] == 'brk':
                    out = join(out, x[1])
                elif self.loops:
                    self.loops[-1].append(x)
            return join(out, None if seen_default else S)
        if k in ('case', 'dflt'):
            return self.stmt(n[-1], S)
        if k == 'ret':
            if n[2]:
                S = self.expr(n[2], S)
            if not self.quiet:
                self.exits.append((n[2], S))
            return None
        if k in ('brk', 'cnt'):
            if self.loops:
                self.loops[-1].append((k, S))
            return None
        if k == 'try':
            body = n[2]
            self.stmt(body, S)
            out = self.without(S, [body])
            for x in n[3:]:
                if isinstance(x, list):
                    for y in x:
                        if isinstance(y, list) and y:
                            self.stmt(y[-1] if isinstance(y[-1], list) else y, out)
            return out
        S = self.expr(n, S)
        if ('never',) in S:
            return None
        if n[0] == 'c' and 'n' in (self.P.info.get(n[2]) or [0, 0, 0, 0, ''])[4]:
            return None
        return S

    def decl(self, d, S):
        G = self.G
        vid, name, ty, init = d[0], d[1], d[2], d[3]
        if ('shared_ptr<' in ty[:24] or 'unique_ptr<' in ty[:24] or ty.endswith('*')) and (not init or G.nullable(init, self.env)):
            self.env[('nullable', vid)] = True
        if not init:
            return S
        if vid not in self.written and not ty.endswith('&'):
            self.env[('def', vid)] = init
            if 'const' in ty.split() and G.number(init, self.env) is not None:
                self.env[('num', vid)] = G.number(init, self.env)
        S = self.expr(init, S)
        k = ('v', vid)
        r = uncast(init)
        if ty.endswith('&') or ty.endswith('*const') or ty.endswith('*'):
            rk = G.key(init, self.env)
            if rk is not None:
                self.env[('ref', vid)] = rk
                self.env[('init', vid)] = init
                return S
        S = frozenset(x for x in S if not mentions(x, k)) | self.facts(init, k, S) | self.flag(init, k, S)
        if ty.replace('const ', '') == 'bool' and vid not in self.written:
            self.env[('cond', vid)] = G.cond(init, self.env)
        if r and r[0] == 'c' and vid not in self.written and P_FIND.match(self.P.q(r[2])) and len(r[4] or []) == 3:
            l = uncast(r[4][2])
            if l and l[0] == 'v' and ('def', l[2]) in self.env:
                l = uncast(self.env[('def', l[2])])
            e = lambda_result(l)
            if e is not None:
                self.env[('found', vid)] = G.cond(e, {**self.env, ('ref', l[2][0][0]): ('at', k)})[0]
        c = G.sized(init, self.env)
        if c is not None:
            self.env[('size', vid)] = c
        p = G.place(init, self.env)
        if p is not None and p[0] == 'end':
            self.env[('place', vid)] = p
        return S

    def without(self, S, parts):
        """facts that survive whatever the parts do"""
        self.quiet += 1
        self.moving += 1
        e0 = dict(self.env)
        T = S
        for i in range(2):
            self.loops.append([])
            for x in parts:
                if x is None:
                    continue
                R = self.flow(x, T)
                T = T & R
            self.loops.pop()
        self.env = e0
        self.quiet -= 1
        self.moving -= 1
        return T

    def flow(self, n, S):
        """facts that survive each single effect below a node, whatever the order"""
        out = [S]

        def look(x):
            if x[0] == 'b' and x[2].endswith('=') and x[2] not in NEG:
                out[0] = self.scale(x, out[0])
            elif x[0] == 'u' and ('++' in x[2] or '--' in x[2]):
                out[0] = self.kill(out[0], self.G.key(x[3], self.env))
            elif x[0] == 'c':
                keep = out[0]
                try:
                    out[0] = keep & self.call_effect(x, keep)
                except RecursionError:
                    pass
            elif x[0] == 'd':
                for d in x[2]:
                    if d[3] and d[2].endswith('&'):
                        rk = self.G.key(d[3], self.env)
                        if rk is not None:
                            self.env[('ref', d[0])] = rk
        walk(n, look)
        return out[0]

    def call_effect(self, n, S):
        e, self.expr = self.expr, lambda x, s: s
        try:
            return self.call(n, S)
        finally:
            self.expr = e


def grant(S, t):
    """facts after a condition that tells these"""
    S = S | t
    on = {x[1] for x in t if x[0] == 'yes'}
    if on:
        S |= {x[2] for x in S if x[0] == 'imp' and x[1] in on}
        if any(('no', k) in S for k in on):
            S |= {('never',)}
        S = frozenset(x for x in S if x[0] != 'yes')
    return S


def staying(n, inner=False):
    """a loop body without the blocks that leave the loop for good"""
    if not isinstance(n, list) or not n or not isinstance(n[0], str):
        return n
    if n[0] == 'lam':
        return n
    if n[0] in ('ret', 'throw') or n[0] == 'brk' and not inner:
        return [n[0], n[1], None]
    if n[0] == '{' and isinstance(n[2], list):
        last = n[2][-1] if n[2] else None
        if last and (last[0] in ('ret', 'throw') or last[0] == 'brk' and not inner) and not any(jumps(x) for x in n[2][:-1]):
            return ['{', n[1], []]
        return ['{', n[1], [staying(x, inner) for x in n[2]]]
    if n[0] == 'if':
        return n[:4] + [staying(n[4], inner), staying(n[5], inner) if n[5] else n[5]]
    if n[0] in ('for', 'while', 'do', 'sw', 'rf'):
        i = {'for': 5, 'while': 3, 'do': 2, 'sw': len(n) - 1, 'rf': 6}[n[0]]
        return n[:i] + [staying(n[i], True)] + n[i + 1:]
    if n[0] in ('case', 'dflt'):
        return n[:-1] + [staying(n[-1], inner)]
    return n


def jumps(n):
    hit = [False]

    def look(x):
        if x[0] in ('cnt', 'case', 'dflt', 'goto', 'label'):
            hit[0] = True
        if x[0] == 'lam':
            return False
    walk(n, look)
    return hit[0]


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if ('never',) in a:
        return b
    if ('never',) in b:
        return a
    m = {x for x in a | b if x[0] == 'mod'}
    for x in a ^ b:
        if x[0] == 'imp':
            o = b if x in a else a
            if ('no', x[1]) in o or x[2] in o:
                m.add(x)
    for x in a:
        if x[0] in ('ub', 'lb') and x not in b:
            for y in b:
                if y[:2] == x[:2]:
                    m.add((max if x[0] == 'ub' else min)((x, y), key=lambda z: (z[2], not z[3] if x[0] == 'ub' else z[3])))
    return (a & b) | m


def intlike(t):
    t = t.replace('const ', '')
    return t not in ('double', 'float', 'long double', '') and '::' not in t


def is_const_like(name):
    return False


def mentions_call(fact, k):
    if not isinstance(fact, tuple):
        return False
    if fact and fact[0] == 'c' and len(fact) > 2 and fact[2] == k and not isinstance(fact[1], str):
        return True
    return any(mentions_call(x, k) for x in fact)


class Analysis(Guard):
    def __init__(self, P, mine):
        Guard.__init__(self, P)
        self.mine = mine
        self.vt = {}
        self.sites = []
        self.summ = {}
        self.adders = {}
        self.never_empty()

    def never_empty(self):
        """collections that a constructor fills and that their owner refills when it empties them"""
        P = self.P
        for cls, fs in P.by_cls.items():
            if not cls.startswith('mx::core::'):
                continue
            ctors = [f for f in fs if f.name == cls.rsplit('::', 1)[-1] and f.body is not None and 'i' not in P.info[f.id][4]]
            got = None
            for f in ctors:
                mine = set()

                def look(n):
                    if n[0] == 'c' and n[3] is not None and P.q(n[2]).rsplit('::', 1)[-1] in ('push_back', 'emplace_back'):
                        m = uncast(n[3])
                        if m and m[0] == 'm' and m[2] and m[2][0] == 'this':
                            mine.add(m[3])
                walk(f.body, look)
                got = mine if got is None else got & mine
            for x in got or ():
                self.floor[cls, x] = True

    def adds_to(self, f):
        """getters of a collection that is not empty after this method has been given something"""
        r = self.adders.get(f.id)
        if r is not None:
            return r
        r = self.adders[f.id] = []
        if f.body is None or len(f.params) != 1 or '_ptr' not in f.params[0][2]:
            return r
        v, P, got = f.params[0][0], self.P, set()

        def about(c, m):
            """a condition that holds for any pointer, or fails only where there are members already"""
            c = uncast(c)
            if c[0] == 'b' and c[2] == '&&':
                return about(c[3], m) and about(c[4], m)
            xs = []
            walk(c, lambda x: xs.append(x) if x[0] in ('v', 'm') else None)
            return bool(xs) and all(x[0] == 'v' and x[2] == v or x[0] == 'm' and x[3] == m for x in xs) and not any(x[0] == 'm' for x in xs if x[0] != 'm')

        def look(n, conds):
            n = uncast(n)
            if not isinstance(n, list) or not n:
                return
            if n[0] == '{':
                for x in n[2]:
                    look(x, conds)
            elif n[0] == 'if' and n[5] is None:
                look(n[4], conds + [n[3]])
            elif n[0] == 'c' and n[3] is not None and P.q(n[2]).startswith('std::') and P.q(n[2]).rsplit('::', 1)[-1] in ('push_back', 'emplace_back'):
                m = uncast(n[3])
                if m and m[0] == 'm' and m[2] and m[2][0] == 'this' and all(about(c, m[3]) for c in conds):
                    got.add(m[3])
        look(f.body, [])
        for g in P.by_cls.get(f.cls, ()) if got else ():
            e = single(g) if not g.params else None
            e = uncast(e) if e is not None else None
            if e and e[0] == 'm' and e[2] and e[2][0] == 'this' and e[3] in got:
                r.append(g.id)
        return r

    def modifies(self, f, seen=()):
        """fields of its object a method may change, None when unknown"""
        if f.id in self.modmemo:
            return self.modmemo[f.id]
        if f.id in seen:
            return set()
        out = set()
        if f.body is None:
            return None
        P = self.P

        def base(n):
            n = uncast(n)
            deep = ''
            while n:
                if n[0] == 'm':
                    if n[2] and uncast(n[2]) and uncast(n[2])[0] == 'this':
                        return deep + n[3]
                    n = uncast(n[2])
                elif n[0] == 'c' and n[3] is not None:
                    if P.q(n[2]).rsplit('::', 1)[-1] in ('operator->', 'operator*', 'get'):
                        deep = '*'
                    n = uncast(n[3])
                elif n[0] == 'u':
                    if n[2] == '*':
                        deep = '*'
                    n = uncast(n[3])
                elif n[0] == 'sub':
                    n = uncast(n[2])
                else:
                    return None
            return None

        def look(n):
            if out is None:
                return
            if n[0] == 'b' and n[2].endswith('=') and n[2] not in NEG:
                b = base(n[3])
                b and out.add(b)
            elif n[0] == 'u' and ('++' in n[2] or '--' in n[2]):
                b = base(n[3])
                b and out.add(b)
            elif n[0] == 'c':
                inf = self.P.info.get(n[2])
                if inf is None:
                    return
                if n[3] is not None and 'c' not in inf[4]:
                    o = uncast(n[3])
                    if o and o[0] == 'this':
                        g = self.P.fn.get(n[2])
                        r = self.modifies(g, seen + (f.id,)) if g is not None else None
                        if r is None:
                            out.add('**')
                        else:
                            out.update(r)
                    else:
                        b = base(n[3])
                        b and out.add(b)
                for t, a in zip(inf[3], n[4] or []):
                    if t.endswith('&') and not t.startswith('const '):
                        b = base(a)
                        b and out.add(b)
            elif n[0] == 'd':
                for d in n[2]:
                    if d[2].endswith('&') and not d[2].startswith('const ') and d[3]:
                        b = base(d[3])
                        b and out.add(b)
        walk(f.body, look)
        r = None if '**' in out else out
        if not seen:
            self.modmemo[f.id] = r
        return r

    def demand(self, f):
        if f.id in self.needs:
            return self.needs[f.id]
        if f.id in self.busy:
            return {}
        self.busy.add(f.id)
        vt = self.vt
        p = Pass(self, f, lambda *a: None)
        p.run()
        self.vt = vt
        self.busy.discard(f.id)
        self.needs[f.id] = p.need
        return p.need

    def summary(self, f):
        """(facts when it returns true, when it returns false, whenever it returns)"""
        r = self.summ.get(f.id)
        if r is not None:
            return r
        E = frozenset()
        self.summ[f.id] = (E, E, E)
        if f.body is None or not self.mine(f) or f.inst:
            return self.summ[f.id]
        vt = self.vt
        p = Pass(self, f, lambda *a: None)
        p.run()
        t, fl, al = None, None, None
        for e, S in p.exits:
            if ('never',) in S:
                continue
            al = S if al is None else join(al, S)
            if f.ret == 'bool' and e:
                a, b = self.cond(e, p.env)
                t, fl = join(t, S | a), join(fl, S | b)
        self.vt = vt
        self.summ[f.id] = (t or E, fl or E, al or E)
        return self.summ[f.id]

    def judge(self, f, report):
        vt = self.vt
        p = Pass(self, f, report)
        p.run()
        self.vt = vt
        return p
