"""P08: all text written into the document is escaped."""
from ..core import *

NEED = {'text': '<&>', 'attribute': '<&"'}
NUMBERS = ('int', 'short', 'long', 'unsigned', 'float', 'double', 'bool', 'size_t', 'uint', 'int8', 'int16', 'int32', 'int64')


def run(rep, P):
    rep.rule('escaped', 'no piece of text that is written can contain a character that is special at that place', 300)
    rep.rule('parsed-back', 'where the text that was written is read back or stored, markup is recognised and escaped', 1)
    M = Model(P)
    T_ = Taint(P, M)
    for c in M.elements + M.attrs:
        for n in ('streamContents', 'streamName', 'toStream', 'streamAttributes'):
            f = M.method(c, n)
            if f is None or f.cls != c:
                continue
            root(rep, P, M, T_, f, c)
    for c in sorted(P.rec):
        if c.startswith('mx::core::') and not is_element(P, c) and not is_attrs(P, c):
            for f in P.by_cls.get(c, ()):
                if f.body is not None and 'r' in f.flags and f.name in ('toStream', 'stream', 'streamContents') and any('ostream' in t for t in f.ptypes) and not is_text(P, c):
                    root(rep, P, M, T_, f, c)
    flags(rep, P)


def is_text(P, c):
    """a type that is a piece of text: looked at where it is written"""
    return any('basic_string' in f[1] for f in P.fields(c).values())


class Taint:
    def __init__(self, P, M):
        self.P, self.M = P, M
        self._ret = {}

    def inline(self, f, obj, ts):
        if f.name.startswith(('fromX', 'import')) or not f.qn.startswith('mx::'):
            return False
        if is_element(self.P, f.cls) or f.cls == EI or f.cls == AI:
            return False
        return True

    def opaque(self, f, obj):
        return f.cls in (EI, AI)

    def raw(self, t):
        """'raw': text of the caller, None: cannot be, '?': not understood.  Yields the pieces: (char or string term)"""
        k = t[0]
        if k in ('s', 'ch', 'n', 'fl', 'bo', 'e', 'fnref', 'written', 'nil'):
            return []
        if k == 'ite':
            return self.raw(t[2]) + self.raw(t[3])
        if k == 'cat':
            return [r for x in t[1:] for r in self.raw(x)]
        if k == 'val' and len(t[2]) == 1 and 'basic_string' in t[1]:
            return self.raw(t[2][0])
        if k in ('elem', 'at'):
            return [(t, 'char')] if self.raw(t[1]) or self.strty(t[1]) and t[1][0] != 's' and not self.clean(t[1]) else []
        if k == 'c':
            n = t[1].rsplit('::', 1)[-1]
            if t[1] in ('std::to_string', 'std::setw', 'std::setfill', 'std::setprecision'):
                return []
            if n in ('str', 'c_str', 'substr', 'data', 'operator+', 'move') and (t[2] is not None or t[3]):
                return [r for x in ([t[2]] if t[2] is not None else []) + list(t[3]) for r in self.raw(x)]
            if self.strty(t):
                return [(t, '?' if not t[1].startswith('mx::') else 'string')] if not self.clean(t) else []
            return []
        if k in ('f', 'arg', 'lv', 'g'):
            if k == 'g':
                return []
            if self.strty(t):
                return [(t, '?' if k == 'lv' else 'string')]
            if bare(type_of(t)) == 'char':
                return [(t, 'char')]
            return []
        return [] if not self.strty(t) else [(t, '?')]

    def strty(self, t):
        ty = type_of(t) or ''
        return 'basic_string<char' in ty or 'std::string' in ty or bare(ty) in ('const char *', 'char *') or ty.endswith('StringType') or 'StringType' in ty

    def clean(self, t):
        """a function of the repository that returns only text of its own"""
        if t[0] != 'c':
            return False
        key = t[1], len(t[3])
        if key not in self._ret:
            self._ret[key] = False
            fs = [f for f in self.P.by_qn.get(t[1], ()) if f.body is not None]
            ok = bool(fs)
            for f in fs:
                w = Walker(inline=self.inline, opaque_fn=self.opaque)
                w.run(f, this=('this', f.cls) if f.cls else None)
                for e in w.events:
                    if e.kind == 'ret' and e.a and isinstance(e.a[0], tuple) and e.fn is f and self.raw(e.a[0]):
                        ok = False
            self._ret[key] = ok
        return self._ret[key]


def pieces(w, T_, p, pc, seen=()):
    for t, kind in T_.raw(p):
        if t in w.lvcell and kind == '?':
            # text put together in a loop: what it was, and everything that was added
            cell, old = w.lvcell[t][:2]
            if cell in seen:
                continue
            if not any(e.kind == 'append' and e.a[0] == cell for e in w.events):
                yield t, kind, pc
                continue
            yield from pieces(w, T_, old, pc, seen + (cell,))
            for e in w.events:
                if e.kind == 'append' and e.a[0] == cell:
                    yield from pieces(w, T_, e.a[1], e.pc, seen + (cell,))
        else:
            yield t, kind, pc


def possible(pc, t, c):
    """can the conditions hold when the character t is c"""
    def atom(x):
        if x[0] == 'eq' and t in x[1:]:
            o = x[2] if x[1] == t else x[1]
            if o[0] in ('ch', 'n'):
                return o[1] == ord(c)
        if x[0] == 'lt' and t in x[1:]:
            a, b = (ord(c) if y == t else y[1] if y[0] in ('ch', 'n') else None for y in x[1:])
            if a is not None and b is not None:
                return a < b
        return None
    rs = [evalf(l, atom) for l in pc]
    if any(r is False for r in rs):
        return False
    # a condition on the character that is not understood, such as a lookup in a table
    return None if any(r is None and any(x == t for x in subterms(l)) for r, l in zip(rs, pc)) else True


def root(rep, P, M, T_, f, cls):
    w = Walker(inline=T_.inline, opaque_fn=T_.opaque)
    w.run(f, this=('this', cls))
    rep.saw(f)
    where = {}           # stream -> lexer state
    short = cls.rsplit('::', 1)[-1]
    done = set()
    for e in w.events:
        if e.kind != 'out':
            continue
        o, v = e.a[0], e.a[1]
        st = where.setdefault(o, ['text'])
        parts = v[1:] if v[0] == 'cat' else (v,)
        for p in parts:
            if p[0] in ('s', 'ch'):
                lex(st, p[1] if p[0] == 's' else chr(p[1]))
                continue
            if st[0] == 'pi':
                continue
            need = NEED['attribute' if st[0] == 'attr' else 'text']
            for t, kind, pc in pieces(w, T_, p, e.pc):
                if kind == '?':
                    rep.skip('escaped', '%s.%s' % (short, f.name), 'text of unknown origin: ' + t[0])
                    continue
                pos = {c: kind == 'string' or possible(pc, t, c) for c in need}
                badc = [c for c in need if pos[c]]
                if not badc and None in pos.values():
                    rep.skip('escaped', '%s.%s' % (short, f.name), 'condition not understood')
                    continue
                key = '%s.%s:%s' % (short, f.name, 'attribute' if st[0] == 'attr' else 'text')
                if key in done and not badc:
                    continue
                done.add(key)
                rep.ob(not badc, 'escaped', key, e.where, '%s::%s writes %s %s without escaping %s' % (short, f.name, show(t)[:60], 'in an attribute value' if st[0] == 'attr' else 'as text', ' '.join(badc)), key)
    if not done:
        rep.ok('escaped', '%s.%s writes no text of the caller' % (short, f.name))


def lex(st, s):
    i = 0
    while i < len(s):
        if st[0] == 'pi':
            j = s.find('?>', i)
            if j < 0:
                return
            st[0], i = 'text', j + 2
        elif s.startswith('<?', i):
            st[0], i = 'pi', i + 2
        else:
            if s[i] == '"':
                st[0] = 'text' if st[0] == 'attr' else 'attr'
            i += 1


PARSE_ESCAPES, NO_ESCAPES = 0x0010, 0x0004        # pugi::parse_escapes, pugi::format_no_escapes


def flags(rep, P):
    """the options given to the XML library"""
    for f in sorted(P.fn.values(), key=lambda f: (f.file, f.line)):
        if 'r' not in f.flags or f.body is None or '/pugixml' in f.file or 'ezxml' not in f.file:
            continue
        w = None
        if not any(P.info[c][0].startswith('pugi::') and P.info[c][0].rsplit('::', 1)[-1].startswith(('load', 'save')) for c in calls(f.body) if c in P.info):
            continue
        w = Walker(inline=lambda g, *a: g.cls == f.cls)
        w.run(f, this=('this', f.cls) if f.cls else None)
        rep.saw(f)
        for e in w.events:
            if e.kind != 'call' or not e.a[0].startswith('pugi::'):
                continue
            n = e.a[0].rsplit('::', 1)[-1]
            inf = P.info.get(e.a[1])
            if not n.startswith(('load', 'save')) or inf is None:
                continue
            for i, (t, a) in enumerate(zip(inf[3], e.a[3])):
                if t != 'unsigned int':
                    continue
                vs = values(P, a)
                if vs is None:
                    rep.skip('parsed-back', f.qn, 'options not understood')
                for v in vs or ():
                    ok = v & PARSE_ESCAPES if n.startswith('load') else not v & NO_ESCAPES
                    rep.ob(bool(ok), 'parsed-back', '%s:%s' % (f.qn.split('::', 1)[-1], n), e.where, '%s %s' % (f.qn, 'loads a document with options 0x%x, which leave escaped characters as they are' % v if n.startswith('load') else 'saves a document with options 0x%x, which write special characters as they are' % v), '%s: options 0x%x' % (f.qn, v))


def values(P, t, depth=0):
    k = t[0]
    if k == 'n':
        return [t[1]]
    if k == 'ite':
        a, b = values(P, t[2], depth), values(P, t[3], depth)
        return None if a is None or b is None else a + b
    if k == 'op' and len(t) == 4 and t[1] in '|&':
        a, b = values(P, t[2], depth), values(P, t[3], depth)
        if a is None or b is None:
            return None
        return [x | y if t[1] == '|' else x & y for x in a for y in b]
    if k == 'g':
        g = P.globals.get(t[1])
        v = fold(P, g['init']) if g and g['init'] is not None and 'c' in g['fl'] else None
        return None if v is None else [v]
    return None


def fold(P, e, depth=0):
    """a constant expression of the syntax tree"""
    k = e[0]
    if depth > 20:
        return None
    if k == 'n':
        return e[2]
    if k == 'cast':
        return fold(P, e[-1], depth + 1)
    if k == 'b' and e[2] in '|&':
        a, b = fold(P, e[3], depth + 1), fold(P, e[4], depth + 1)
        return None if a is None or b is None else a | b if e[2] == '|' else a & b
    if k == 'u' and e[2] == '~':
        a = fold(P, e[3], depth + 1)
        return None if a is None else ~a
    if k == 'g':
        g = P.globals.get(e[2])
        return fold(P, g['init'], depth + 1) if g and g['init'] is not None and 'c' in g['fl'] else None
    return None


def calls(b):
    out = []
    st = [b]
    while st:
        n = st.pop()
        if isinstance(n, list):
            if n and n[0] == 'c' and len(n) > 2 and isinstance(n[2], int):
                out.append(n[2])
            st.extend(n)
    return out
