"""What object an expression refers into, and whether that object is still there."""
import re
from .prog import bare, walk, is_cont

MODIFY = {'push_back', 'emplace_back', 'insert', 'emplace', 'erase', 'clear', 'resize', 'pop_back', 'assign', 'swap', 'push_front', 'pop_front',
          'emplace_front', 'reserve', 'shrink_to_fit', 'operator=', 'append', 'replace', 'insert_or_assign', 'try_emplace', 'merge', 'extract', 'reset', 'operator+='}
NODE = ('std::map<', 'std::set<', 'std::list<', 'std::multimap<', 'std::multiset<', 'std::unordered_map<', 'std::unordered_set<', 'std::forward_list<')
NODE_SAFE = {'push_back', 'emplace_back', 'insert', 'emplace', 'push_front', 'emplace_front', 'insert_or_assign', 'try_emplace', 'reserve'}
FACTORY = re.compile(r'(^|::)(make[A-Z_]\w*|make_shared|make_unique|clone)$')


def refty(t):
    return t.endswith('&')


def rawptr(t):
    return t.replace('*const', '*').replace('* const', '*').rstrip().endswith('*')


def smart(t):
    t = t.replace('const ', '')
    return t.startswith(('std::shared_ptr<', 'std::unique_ptr<'))


def iterty(t):
    t = t.replace('const ', '')
    return t.startswith(('__gnu_cxx::__normal_iterator<', 'std::_Rb_tree_', 'std::_List_', 'std::__detail::_Node', 'std::basic_string_view<', 'std::reference_wrapper<', 'std::reverse_iterator<', 'std::istreambuf')) or 'iterator' in t.split('<')[0]


def pointy(t):
    return rawptr(t) or smart(t) or iterty(t)


def strip(n):
    while n and n[0] == 'cast':
        n = n[-1]
    return n


def braced(n):
    """the one thing in the braces"""
    n = strip(n)
    while n and n[0] == 'il' and isinstance(n[-1], list) and len(n[-1]) == 1:
        n = strip(n[-1][0])
    return n


class Life:
    def __init__(self, P):
        self.P = P
        self.summ = {}
        self.mods = {}
        self.rets = {}

    # ---- what functions return and change
    def returned(self, fid):
        """where what a function returns (by reference, pointer or iterator) lives: set of 'this', parameter numbers, 'static', 'local', 'fresh'; None: not known"""
        if fid in self.rets:
            return self.rets[fid]
        self.rets[fid] = None
        f = self.P.fn.get(fid)
        if f is None or f.body is None:
            return None
        out = set()
        S = Scope(self, f)
        for e, sc in S.returns:
            r = S.into(e) if refty(f.ret) else S.pointee(e) if pointy(f.ret) else None
            if r is None:
                out = None
                break
            out |= r
        self.rets[fid] = out
        return out

    def field_of(self, fid, depth=0):
        """the field that a getter hands out, or None"""
        f = self.P.fn.get(fid)
        if f is None or f.body is None or depth > 4:
            return None
        fs = set()

        def look(n):
            if n[0] == 'ret' and n[2]:
                e = strip(n[2])
                while e and e[0] == 'k' and len(e[4]) == 1 and ('copy' in e[5] or smart(e[2])):
                    e = strip(e[4][0])
                if e and e[0] == 'm' and strip(e[2]) and strip(e[2])[0] == 'this':
                    fs.add(e[3])
                elif e and e[0] == 'c' and (e[3] is None or strip(e[3])[0] == 'this'):
                    fs.add(self.field_of(e[2], depth + 1))
                else:
                    fs.add(None)
            if n[0] == 'lam':
                return False
        walk(f.body, look)
        return next(iter(fs)) if len(fs) == 1 else None

    def modifies(self, fid, depth=0):
        """{field: operation} of the object whose collections a function changes"""
        if fid in self.mods:
            return self.mods[fid]
        self.mods[fid] = {}
        f = self.P.fn.get(fid)
        out = {}
        if f is None or f.body is None or depth > 5 or 'c' in f.flags:
            return out

        def look(n):
            if n[0] == 'c' and n[2] in self.P.info:
                q = self.P.q(n[2])
                name = q.rsplit('::', 1)[-1]
                o = strip(n[3]) if n[3] is not None else None
                if o and o[0] == 'm' and strip(o[2]) and strip(o[2])[0] == 'this' and name in MODIFY and q.startswith('std::'):
                    out[o[3]] = name
                elif o and o[0] == 'this':
                    out.update(self.modifies(n[2], depth + 1))
            if n[0] == 'b' and n[2] == '=':
                o = strip(n[3])
                if o and o[0] == 'm' and strip(o[2]) and strip(o[2])[0] == 'this':
                    out[o[3]] = 'operator='
        walk(f.body, look)
        self.mods[fid] = out
        return out


class Scope:
    """one function body"""

    def __init__(self, L, f):
        self.L, self.P, self.f = L, L.P, f
        self.decl = {}
        self.params = {p[0]: (i, f.ptypes[i] if i < len(f.ptypes) else p[2]) for i, p in enumerate(f.params)}
        self.returns = []
        self.static = set()
        self.assigned = set()
        self.uses = None

        def look(n):
            if n[0] == 'd':
                for d in n[2]:
                    self.decl[d[0]] = (d[1], d[2], d[3], n[1])
                    if len(d) > 4 and 's' in str(d[4]):
                        self.static.add(d[0])
            elif n[0] == 'rf':
                self.decl[n[2]] = (n[3], n[4], ('elem', n[5]), n[1])
            elif n[0] == 'ret' and n[2]:
                self.returns.append((n[2], None))
            elif n[0] == 'b' and n[2] == '=':
                t = strip(n[3])
                if t and t[0] == 'v':
                    self.assigned.add(t[2])
            elif n[0] == 'c' and n[3] is not None and n[2] in self.P.info and self.P.q(n[2]).endswith('::operator='):
                t = strip(n[3])
                if t and t[0] == 'v':
                    self.assigned.add(t[2])
            elif n[0] == 'lam':
                return False
        if f.body:
            walk(f.body, look)

    def alone(self, v):
        """nothing but this smart pointer gets hold of the object"""
        if self.uses is None:
            self.uses = {}

            def look(n):
                if n[0] == 'c' and n[3] is not None and self.P.q(n[2]).rsplit('::', 1)[-1] in ('operator*', 'operator->'):
                    t = strip(n[3])
                    if t and t[0] == 'v':
                        for a in n[4] or []:
                            walk(a, look)
                        return False
                if n[0] == 'v':
                    self.uses[n[2]] = self.uses.get(n[2], 0) + 1
            walk(self.f.body, look)
        return not self.uses.get(v)

    def type_of(self, n):
        n = strip(n)
        if not n:
            return ''
        if n[0] == 'v':
            if n[2] in self.params:
                return self.params[n[2]][1]
            return self.decl[n[2]][1] if n[2] in self.decl else ''
        if n[0] == 'm':
            return self.P.field_type(n[4], n[3]) or '' if isinstance(n[4], str) else ''
        if n[0] == 'c':
            return (self.P.info.get(n[2]) or ['', '', ''])[2]
        if n[0] == 'k':
            return n[2]
        return ''

    def into(self, n, depth=0):
        """the objects a glvalue lies in: 'this', number of a parameter, 'static', ('v', local), 'temp'; None: not known"""
        n = strip(n)
        if not n or depth > 30:
            return None
        k = n[0]
        if k == 'this':
            return {'this'}
        if k in ('s', 'g', 'e', 'fn'):
            return {'static'}
        if k == 'v':
            if n[2] in self.params:
                i, t = self.params[n[2]]
                return {i} if refty(t) else {('v', n[2])}
            d = self.decl.get(n[2])
            if d is None:
                return None
            if n[2] in self.static:
                return {'static'}
            if refty(d[1]):
                if isinstance(d[2], tuple):
                    return self.range(d[2][1], depth + 1)
                if d[2] is None:
                    return None
                r = self.into(d[2], depth + 1)
                return {('v', n[2]) if x == 'temp' and self.extends(d[2]) else x for x in r} if r else r
            return {('v', n[2])}
        if k == 'm' and refty(self.type_of(n)):
            b = strip(n[2])
            return {'far'} if b and b[0] == 'this' else None
        if k == 'm':
            return self.pointee(n[2], depth + 1) if n[5] and rawptr(self.type_of(n[2])) else self.into(n[2], depth + 1)
        if k == 'sub':
            return self.into(n[2], depth + 1) if 'arr' in str(self.type_of(n[2])) else None
        if k == 'u' and n[2] == '*':
            return self.pointee(n[3], depth + 1)
        if k == 'u' and n[2] in ('++', '--', 'pre++', 'pre--'):
            return self.into(n[3], depth + 1)
        if k == 'cond':
            a, b = self.into(n[3], depth + 1), self.into(n[4], depth + 1)
            return None if a is None or b is None else a | b
        if k == 'b' and n[2].endswith('='):
            return self.into(n[3], depth + 1)
        if k == 'c':
            inf = self.P.info.get(n[2])
            if inf is None:
                return None
            q = self.P.q(n[2])
            name = q.rsplit('::', 1)[-1]
            args = n[4] or []
            if name in ('operator*', 'operator->', 'get', 'value') and n[3] is not None and (pointy(inf[1]) or pointy(self.type_of(n[3])) or inf[1].startswith(('std::shared_ptr', 'std::__shared_ptr', 'std::unique_ptr'))):
                return self.pointee(n[3], depth + 1)
            if not refty(inf[2]):
                return {'temp'}
            if q.startswith(('std::', '__gnu')):
                if n[3] is not None:
                    return self.into(n[3], depth + 1)
                if name in ('move', 'forward', 'get', 'as_const') and args:
                    return self.into(args[0], depth + 1)
                if name in ('min', 'max', 'clamp'):
                    out = set()
                    for a in args:
                        r = self.into(a, depth + 1)
                        if r is None:
                            return None
                        out |= r
                    return out
                if name.startswith('operator') and args:
                    return self.into(args[0], depth + 1)
                return None
            return self.via(n, self.L.returned(n[2]), depth)
        if k in ('k', 'n', 'fl', 'bo', 'ch', 'b', 'u', 'il', 'zero', 'lam', 'null'):
            return {'temp'}
        return None

    def via(self, n, r, depth):
        if r is None:
            inf = self.P.info.get(n[2])
            f = self.P.fn.get(n[2])
            if n[3] is not None and (f is None or f.body is None) and inf and refty(inf[2]):
                return None
            return None
        out = set()
        for x in r:
            if x == 'this':
                y = self.into(n[3], depth + 1) if n[3] is not None else {'this'}
            elif isinstance(x, int):
                y = self.arg(n, x, depth + 1)
            elif x == 'static':
                y = {'static'}
            elif x == 'far' or isinstance(x, tuple) and x[0] == 'held':
                y = None
            elif x == 'temp' or isinstance(x, tuple):
                y = {'temp'} if x == 'temp' else {'gone'}
            else:
                y = {x}
            if y is None:
                return None
            out |= y
        return out

    def arg(self, n, i, depth):
        a = n[4] or []
        if i >= len(a):
            return {'temp'}
        t = (self.P.info.get(n[2]) or [0, 0, 0, []])[3]
        if i < len(t) and refty(t[i]):
            return self.into(a[i], depth)
        return self.pointee(a[i], depth)

    def range(self, n, depth=0):
        """what the elements of a range live in"""
        return self.into(n, depth)

    def extends(self, n):
        """binding a reference to this extends the life of the temporary"""
        n = strip(n)
        while n and n[0] == 'm' and not n[5]:
            n = strip(n[2])
        if not n:
            return False
        if n[0] == 'c':
            inf = self.P.info.get(n[2])
            return bool(inf) and not refty(inf[2])
        if n[0] == 'cond':
            return self.extends(n[3]) or self.extends(n[4])
        if n[0] == 'u' and n[2] in ('*', '++', '--'):
            return False
        return n[0] in ('k', 'n', 'fl', 'bo', 'ch', 'b', 'u', 'il', 'zero', 'lam')

    def pointee(self, n, depth=0):
        """the objects that the target of a pointer, smart pointer or iterator lies in"""
        n = strip(n)
        if not n or depth > 30:
            return None
        k = n[0]
        if k == 'this':
            return {'this'}
        if k in ('null',):
            return set()
        if k == 's':
            return {'static'}
        if k == 'u' and n[2] == '&':
            return self.into(n[3], depth + 1)
        if k == 'u' and n[2] in ('++', '--'):
            return self.pointee(n[3], depth + 1)
        if k == 'b' and n[2] in ('+', '-'):
            return self.pointee(n[3], depth + 1)
        if k == 'cond':
            a, b = self.pointee(n[3], depth + 1), self.pointee(n[4], depth + 1)
            return None if a is None or b is None else a | b
        if k == 'v':
            if n[2] in self.params:
                i, t = self.params[n[2]]
                return {i}
            d = self.decl.get(n[2])
            if d is None:
                return None
            if n[2] in self.static:
                return {'static'}
            if isinstance(d[2], tuple):
                if smart(bare(d[1])) or smart(d[1]):
                    return self.into(d[2][1], depth + 1)
                return None
            if n[2] in self.assigned:
                return {('held', n[2])} if smart(d[1]) else None
            if d[2] is None or strip(d[2])[0] == 'null':
                return {('held', n[2])} if smart(d[1]) else None
            r = self.pointee(d[2], depth + 1)
            if smart(d[1]) and r == {'temp'} and self.alone(n[2]):
                return {('v', n[2])}
            if smart(d[1]) and (r is None or 'temp' in r):
                return {('held', n[2])}     # kept alive by the pointer itself
            return r
        if k == 'm':
            t = self.type_of(n)
            if smart(t):
                return self.into(n[2], depth + 1) if not (n[5] and rawptr(self.type_of(n[2]))) else self.pointee(n[2], depth + 1)
            return None
        if k == 'k':
            if len(n[4]) == 1 and (smart(n[2]) or pointy(n[2])):
                return self.pointee(n[4][0], depth + 1)
            return None
        if k == 'new':
            return {'temp'} if False else None
        if k == 'c':
            inf = self.P.info.get(n[2])
            if inf is None:
                return None
            q = self.P.q(n[2])
            name = q.rsplit('::', 1)[-1]
            args = n[4] or []
            if refty(inf[2]) and smart(inf[2].replace('&', '').strip()):
                return self.into(n, depth + 1)
            if FACTORY.search(q) and smart(inf[2]):
                return {'temp'}
            if q.startswith(('std::', '__gnu')):
                if name in ('move', 'forward', 'next', 'prev', 'static_pointer_cast', 'dynamic_pointer_cast', 'const_pointer_cast', 'addressof') and args:
                    return self.into(args[0], depth + 1) if name == 'addressof' else self.pointee(args[0], depth + 1)
                if name in ('begin', 'end', 'cbegin', 'cend', 'data') and n[3] is None and args:
                    return self.into(args[0], depth + 1)
                if name in ('find', 'find_if', 'lower_bound', 'remove_if', 'max_element', 'min_element') and n[3] is None and args:
                    return self.pointee(args[0], depth + 1)
                if name in ('operator+', 'operator-', 'operator++', 'operator--'):
                    return self.pointee(n[3] if n[3] is not None else args[0], depth + 1)
                if name in ('get', 'operator->') and n[3] is not None and smart(self.type_of(n[3])):
                    return self.pointee(n[3], depth + 1)
                if n[3] is not None and pointy(inf[2]) and name in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound', 'insert', 'erase', 'emplace', 'data', 'c_str'):
                    return self.into(n[3], depth + 1)
                if name in ('lock', 'shared_from_this'):
                    return None
                return None
            fld = self.L.field_of(n[2])
            if fld is not None and smart(inf[2]):
                return self.into(n[3], depth + 1) if n[3] is not None else {'this'}
            return self.via(n, self.L.returned(n[2]), depth)
        return None

    # ---- naming a collection, so that its changes can be recognised
    def key(self, n, depth=0):
        n = strip(n)
        if not n or depth > 20:
            return None
        k = n[0]
        if k == 'this':
            return ('this',)
        if k == 'v':
            d = self.decl.get(n[2])
            if d is not None and d[2] is not None and not isinstance(d[2], tuple) and n[2] not in self.assigned:
                if refty(d[1]) or rawptr(d[1]) or smart(d[1]):
                    x = self.key(d[2], depth + 1)
                    if x is not None:
                        return x
            return ('v', n[2])
        if k == 'm':
            b = self.key(n[2], depth + 1)
            return None if b is None else b + (n[3],)
        if k == 'u' and n[2] in ('*', '&'):
            return self.key(n[3], depth + 1)
        if k == 'k' and len(n[4]) == 1 and smart(n[2]):
            return self.key(n[4][0], depth + 1)
        if k == 'c':
            q = self.P.q(n[2])
            name = q.rsplit('::', 1)[-1]
            if name in ('operator*', 'operator->', 'get') and n[3] is not None and q.startswith('std::'):
                return self.key(n[3], depth + 1)
            if not q.startswith('std::') and not n[4]:
                fld = self.L.field_of(n[2])
                b = self.key(n[3], depth + 1) if n[3] is not None else ('this',)
                if fld is not None and b is not None:
                    return b + (fld,)
        return None


CONTAINER = ('std::vector<', 'std::basic_string<', 'std::deque<') + NODE


def container(t):
    return bare(t).startswith(CONTAINER)


class Flow:
    """follows references and iterators into collections until the collection changes"""

    def __init__(self, L, f, report):
        self.S = Scope(L, f)
        self.L, self.P, self.f, self.report = L, L.P, f, report
        self.into = {}          # variable -> (key of the collection, its type)
        self.breaks = []
        self.count = 0
        self.origin = {}        # variable -> iterator it was made from

    def run(self):
        self.stmt(self.f.body, frozenset())

    def coll(self, n):
        """(key, type) of a collection expression"""
        n = strip(n)
        t = self.S.type_of(n)
        if not container(t):
            return None
        if n[0] == 'c' and not refty(t):
            return None
        k = self.S.key(n)
        return (k, bare(t)) if k is not None else None

    def within(self, n, depth=0):
        """the collection whose element (or a part of it) a glvalue is"""
        n = strip(n)
        if not n or depth > 12:
            return None
        if n[0] == 'm' and not n[5]:
            return self.within(n[2], depth + 1)
        if n[0] == 'm' and n[5]:
            return None
        if n[0] == 'v':
            d = self.S.decl.get(n[2])
            return self.into.get(n[2]) if d is not None and refty(d[1]) else None
        if n[0] == 'u' and n[2] == '*':
            return self.at(n[3], depth + 1)
        if n[0] == 'c':
            name = self.P.q(n[2]).rsplit('::', 1)[-1]
            if not self.P.q(n[2]).startswith(('std::', '__gnu')) or n[3] is None:
                return None
            if name in ('operator[]', 'at', 'front', 'back', 'emplace_back', 'emplace_front'):
                return self.coll(n[3])
            if name in ('operator*', 'operator->') and iterty(self.S.type_of(n[3])):
                return self.at(n[3], depth + 1)
        return None

    def at(self, n, depth=0):
        """the collection that an iterator or a pointer to an element points into"""
        n = strip(n)
        if not n or depth > 12:
            return None
        while n and n[0] == 'k' and len(n[4]) == 1:
            n = strip(n[4][0])
        if n[0] == 'v':
            return self.into.get(n[2])
        if n[0] == 'u' and n[2] == '&':
            return self.within(n[3], depth + 1)
        if n[0] == 'u':
            return self.at(n[3], depth + 1)
        if n[0] == 'c':
            q = self.P.q(n[2])
            name = q.rsplit('::', 1)[-1]
            if q.startswith(('std::', '__gnu')):
                if n[3] is not None and name in ('begin', 'end', 'cbegin', 'cend', 'find', 'lower_bound', 'upper_bound', 'data', 'c_str', 'insert', 'erase', 'emplace'):
                    return self.coll(n[3])
                if name in ('next', 'prev', 'find_if', 'find', 'operator+', 'operator-', 'operator++', 'operator--', 'remove_if', 'max_element', 'min_element'):
                    a = n[3] if n[3] is not None else (n[4] or [None])[0]
                    return self.at(a, depth + 1) if a else None
                if name in ('begin', 'end', 'cbegin', 'cend') and n[4]:
                    return self.coll(n[4][0])
        return None

    def source(self, n):
        """the iterator variable that is dereferenced"""
        n = strip(n)
        while n:
            if n[0] == 'm' and not n[5] or n[0] == 'u':
                n = strip(n[2] if n[0] == 'm' else n[3])
            elif n[0] == 'm':
                n = strip(n[2])
            elif n[0] == 'c' and n[3] is not None and self.P.q(n[2]).rsplit('::', 1)[-1] in ('operator*', 'operator->'):
                n = strip(n[3])
            elif n[0] == 'v':
                return n[2] if n[2] in self.into else None
            else:
                return None
        return None

    # ---- what has been moved away
    def path(self, n):
        """a variable or a part of one"""
        n = strip(n)
        if not n:
            return None
        if n[0] == 'v':
            return ('v', n[2])
        if n[0] == 'm':
            b = strip(n[2])
            if b and b[0] == 'this':
                return ('this', n[3])
            b = self.path(n[2]) if not n[5] else None
            return None if b is None else b + (n[3],)
        return None

    def moved(self, n, S):
        """reports the use of what was moved away"""
        p = self.path(n)
        if p is None:
            return
        for x in S:
            if x[0] == 'mv' and p[:len(x[1])] == x[1]:
                self.report(self.f, n[1], self.name(n), 'its content is moved', x[2], False, 'moved')

    def name(self, n):
        n = strip(n)
        if n[0] == 'm':
            return n[3]
        d = self.S.decl.get(n[2])
        return d[0] if d else next((p[1] for p in self.f.params if p[0] == n[2]), '?')

    def filled(self, n, S):
        """a new value for a variable or a part of one"""
        p = self.path(n)
        if p is None:
            return S
        return frozenset(x for x in S if not (x[0] == 'mv' and x[1][:len(p)] == p))

    # ---- effects
    def uses(self, n, S, skip=None):
        """report uses of what is gone"""
        for x in S:
            if x[0] != 'v':
                continue

            def look(y):
                if y[0] == 'v' and y[2] == x[1] and y is not skip:
                    self.report(self.f, y[1] or x[2], self.S.decl[x[1]][0], x[3], x[2], False)
                if y[0] == 'lam':
                    return False
            walk(n, look)

    def hit(self, k, t, name, n, S, line):
        """a collection changes"""
        out = set(S)
        node = t.startswith(NODE)
        arg = strip((n[4] or [None])[0]) if n[0] == 'c' and n[4] else None
        while arg and arg[0] == 'k' and len(arg[4]) == 1:
            arg = strip(arg[4][0])
        for v, (kk, tt) in self.into.items():
            if kk != k and not (len(k) < len(kk) and kk[:len(k)] == k):
                continue
            d = self.S.decl.get(v)
            tag = 'rf' if isinstance(v, tuple) else 'v'
            if kk == k:
                if node and name in NODE_SAFE:
                    continue
                if name == 'erase' or name in ('pop_back', 'pop_front', 'extract'):
                    if tag == 'v' and not (arg and arg[0] == 'v' and arg[2] in (v, self.origin.get(v))):
                        continue
                    if tag == 'rf' and node and not True:
                        continue
                if name == 'reset':
                    continue
            elif name not in ('operator=', 'clear', 'swap', 'assign', 'erase', 'reset'):
                if node or name not in MODIFY:
                    continue
            out.add((tag, v, line, name))
        return frozenset(out)

    def expr(self, n, S):
        if not isinstance(n, list) or not n:
            return S
        if not isinstance(n[0], str):
            for x in n:
                S = self.expr(x, S)
            return S
        if n[0] == 'lam':
            return S
        if n[0] == 'b' and n[2] == '=':
            S = self.filled(n[3], self.expr(n[4], S))
            t = strip(n[3])
            if t and t[0] == 'v':
                S = frozenset(x for x in S if x[1] != t[2])
                self.retarget(t[2], n[4])
                return S
            S = self.expr(n[3], S)
            c = self.coll(n[3])
            if c:
                S = self.hit(c[0], c[1], 'operator=', n, S, n[1])
            return S
        if n[0] == 'c' and n[2] in self.P.info:
            q = self.P.q(n[2])
            name = q.rsplit('::', 1)[-1]
            o = strip(n[3]) if n[3] is not None else None
            if q == 'std::move' and n[4] and len(n[4]) == 1:
                S = self.expr(n[4], S)
                p = self.path(n[4][0])
                if p is not None and not refty(self.S.type_of(n[4][0])[:-1]) and not rawptr(self.S.type_of(n[4][0])):
                    self.report(self.f, n[1], self.name(n[4][0]), '', 0, True, 'moved')
                    S = S | {('mv', p, n[1], '')}
                return S
            if name in ('operator=', 'clear', 'assign', 'reset', 'resize') and o is not None and self.path(o) is not None and any(x[0] == 'mv' for x in S):
                S = self.filled(o, self.expr(n[4], S))
                n = n[:4] + [[]] + n[5:]
            if name == 'operator=' and o is not None and o[0] == 'v':
                S = self.expr(n[4], S)
                S = frozenset(x for x in S if x[1] != o[2] or x[0] != 'v')
                if n[4]:
                    self.retarget(o[2], n[4][0])
                c = self.coll(n[3])
                return self.hit(c[0], c[1], name, n, S, n[1]) if c else S
            for x in ([n[3]] if n[3] is not None else []) + (n[4] or []):
                S = self.expr(x, S)
            if o is not None and name in MODIFY and q.startswith(('std::', '__gnu')):
                c = self.coll(n[3])
                if c:
                    S = self.hit(c[0], c[1], name, n, S, n[1])
                return S
            if not q.startswith('std::'):
                m = self.L.modifies(n[2])
                if m:
                    b = self.S.key(n[3]) if n[3] is not None else ('this',)
                    if b is not None:
                        for fld, op in m.items():
                            t = ''
                            f = self.P.fn.get(n[2])
                            if f is not None and f.cls:
                                t = self.P.field_type(f.cls, fld) or ''
                            S = self.hit(b + (fld,), bare(t), op, ['x', n[1]], S, n[1])
            return S
        if n[0] == 'v':
            self.moved(n, S)
            for x in S:
                if x[0] == 'v' and x[1] == n[2]:
                    self.report(self.f, n[1], self.S.decl[n[2]][0], x[3], x[2], False)
            return S
        if n[0] == 'm':
            self.moved(n, S)
        for x in n[1:]:
            if isinstance(x, list):
                S = self.expr(x, S)
        return S

    def retarget(self, v, e):
        d = self.S.decl.get(v)
        if d is None or not (rawptr(d[1]) or iterty(d[1])):
            return
        c = self.at(e)
        if c:
            self.into[v] = c
        else:
            self.into.pop(v, None)

    # ---- statements: state after, None when it does not complete
    def stmt(self, n, S):
        if not n or S is None:
            return S
        if not isinstance(n[0], str):
            for x in n:
                S = self.stmt(x, S)
            return S
        k = n[0]
        if k == '{':
            for x in n[2]:
                S = self.stmt(x, S)
                if S is None:
                    return None
            return S
        if k == 'd':
            for d in n[2]:
                if d[3]:
                    S = self.expr(d[3], S)
                S = frozenset(x for x in S if x[1] != d[0] and not (x[0] == 'mv' and x[1][:2] == ('v', d[0])))
                self.into.pop(d[0], None)
                if d[3]:
                    c = self.within(d[3]) if refty(d[2]) else self.at(d[3]) if rawptr(d[2]) or iterty(d[2]) else None
                    if c:
                        self.into[d[0]] = c
                        self.origin[d[0]] = self.source(d[3])
                        self.count += 1
                        self.report(self.f, n[1], d[1], '', 0, True)
            return S
        if k == 'if':
            if n[2]:
                S = self.stmt(n[2], S)
            S = self.expr(n[3], S)
            a = self.stmt(n[4], S)
            b = self.stmt(n[5], S) if n[5] else S
            return b if a is None else a if b is None else a | b
        if k in ('for', 'while', 'do', 'rf'):
            init, c, inc, body = {'for': lambda: n[2:6], 'while': lambda: (None, n[2], None, n[3]), 'do': lambda: (None, n[3], None, n[2]), 'rf': lambda: (None, None, None, n[6])}[k]()
            tag = None
            if init:
                S = self.stmt(init, S)
            if k == 'rf':
                S = self.expr(n[5], S)
                c0 = self.coll(n[5])
                if c0:
                    tag = ('rf', n[1], n[2])
                    self.into[tag] = c0
                    self.report(self.f, n[1], n[3], '', 0, True)
                    if refty(n[4]):
                        self.into[n[2]] = c0
            out = S
            for i in range(2):
                H = out
                if c and k != 'do':
                    H = self.expr(c, H)
                if tag:
                    H = frozenset(x for x in H if x[1] != tag and x[1] != n[2])
                if k == 'rf':
                    H = frozenset(x for x in H if not (x[0] == 'mv' and x[1][:2] == ('v', n[2])))
                self.breaks.append([])
                B = self.stmt(body, H)
                br = self.breaks.pop()
                for x in br:
                    if x[0] == 'cnt':
                        B = x[1] if B is None else B | x[1]
                if B is not None:
                    if tag:
                        for x in B:
                            if x[0] == 'rf' and x[1] == tag:
                                self.report(self.f, x[2], n[3], x[3], x[2], False)
                    if k == 'do':
                        B = self.expr(c, B)
                    if inc:
                        B = self.expr(inc, B)
                    out = out | B
                for x in br:
                    if x[0] == 'brk':
                        out = out | x[1]
            if tag:
                self.into.pop(tag, None)
                self.into.pop(n[2], None)
                out = frozenset(x for x in out if x[1] != tag and x[1] != n[2])
            return out
        if k == 'sw':
            for x in n[2:-1]:
                if isinstance(x, list):
                    S = self.expr(x, S)
            self.breaks.append([])
            body = n[-1]
            cur, dflt = None, False
            for x in (body[2] if body and body[0] == '{' else [body]):
                if x and x[0] in ('case', 'dflt'):
                    cur = S if cur is None else cur | S
                    y = x
                    while y and y[0] in ('case', 'dflt'):
                        dflt |= y[0] == 'dflt'
                        y = y[-1]
                    cur = self.stmt(y, cur)
                elif cur is not None:
                    cur = self.stmt(x, cur)
            out = cur
            for x in self.breaks.pop():
                if x[0] == 'brk':
                    out = x[1] if out is None else out | x[1]
                elif self.breaks:
                    self.breaks[-1].append(x)
            if not dflt:
                out = S if out is None else out | S
            return out
        if k in ('case', 'dflt'):
            return self.stmt(n[-1], S)
        if k == 'ret':
            if n[2]:
                self.expr(n[2], S)
            return None
        if k == 'throw':
            return None
        if k in ('brk', 'cnt'):
            if self.breaks:
                self.breaks[-1].append((k, S))
            return None
        if k == 'try':
            a = self.stmt(n[2], S)
            out = S if a is None else S | a
            for x in n[3:]:
                if isinstance(x, list):
                    for y in x:
                        if isinstance(y, list) and y:
                            self.stmt(y[-1] if isinstance(y[-1], list) else y, out)
            return out
        S = self.expr(n, S)
        if n[0] == 'c' and 'n' in (self.P.info.get(n[2]) or [0, 0, 0, 0, ''])[4]:
            return None
        return S
