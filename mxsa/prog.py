"""Program view over the fact database: functions, classes, overriding, types."""
import re
from . import db as _db


def strip_targs(q):
    out, d, i = [], 0, 0
    while i < len(q):
        c = q[i]
        if q.startswith('operator', i) and (i == 0 or not (q[i - 1].isalnum() or q[i - 1] == '_')):
            m = re.match(r'operator\s*(<=>|<<=|>>=|->\*|<<|>>|<=|>=|->|<|>|\(\)|\[\]|[^\s\w]+)?', q[i:])
            if d == 0:
                out.append(m.group(0))
            i += len(m.group(0))
            continue
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


_ALIAS = [('std::__shared_ptr_access::', 'std::shared_ptr::'), ('std::__shared_ptr::', 'std::shared_ptr::'),
          ('std::__cxx11::', 'std::'), ('__gnu_cxx::__normal_iterator::', 'std::iterator::'),
          ('std::_Rb_tree_const_iterator::', 'std::iterator::'), ('std::_Rb_tree_iterator::', 'std::iterator::'),
          ('std::_List_iterator::', 'std::iterator::'), ('std::_List_const_iterator::', 'std::iterator::'),
          ('std::reverse_iterator::', 'std::iterator::'), ('std::basic_string::', 'std::string::'),
          ('__gnu_cxx::operator', 'std::operator')]


def norm(q):
    if not (q.startswith('std::') or q.startswith('__gnu_cxx')):
        return strip_targs(q) if '<' in q else q
    s = strip_targs(q)
    for a, b in _ALIAS:
        if s.startswith(a):
            return b + s[len(a):]
    return s


def targs(t):
    """template arguments of a type string"""
    i = t.find('<')
    if i < 0:
        return []
    out, d, cur = [], 0, ''
    for c in t[i + 1:]:
        if c == '<':
            d += 1
        if c == '>':
            if d == 0:
                break
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def bare(t):
    """type without references and top-level const"""
    t = t.strip()
    while True:
        o = t
        if t.endswith('&'):
            t = t.rstrip('&').strip()
        if t.startswith('const '):
            t = t[6:]
        if t.endswith(' const'):
            t = t[:-6]
        if t == o:
            return t


def pointee(t):
    """class behind a (smart) pointer or reference"""
    t = bare(t)
    while True:
        if t.endswith('*'):
            t = bare(t[:-1])
        elif t.startswith(('std::shared_ptr<', 'std::unique_ptr<', 'std::weak_ptr<', 'std::__shared_ptr<', 'std::__shared_ptr_access<', 'std::optional<')):
            t = bare(targs(t)[0])
        else:
            return t


CONT = ('std::vector<', 'std::list<', 'std::set<', 'std::deque<', 'std::initializer_list<', 'std::array<', 'std::multiset<', 'std::unordered_set<')
MAPS = ('std::map<', 'std::multimap<', 'std::unordered_map<')


def is_cont(t):
    t = bare(t)
    return t.startswith(CONT + MAPS)


def value_type(t):
    t = bare(t)
    if t.startswith(CONT):
        return targs(t)[0]
    if t.startswith(MAPS):
        a = targs(t)
        return 'std::pair<const %s, %s>' % (a[0], a[1])
    if t.startswith('std::basic_string<'):
        return 'char'
    m = re.match(r'(.*)\[\d*\]$', t)
    if m:
        return m.group(1).strip()
    return ''


class Fn:
    __slots__ = ('id', 'qn', 'cls', 'ret', 'ptypes', 'flags', 'file', 'line', 'end', 'params', 'body', 'inits', 'acc', 'ov', 'inst', 'loc')

    def __repr__(self):
        return '<%s %s:%d>' % (self.qn, self.file, self.line)

    @property
    def name(self):
        return self.qn.rsplit('::', 1)[-1]

    @property
    def where(self):
        return '%s:%d' % (self.file, self.line)


class Prog:
    def __init__(self):
        d = _db.load()
        self.d = d
        self.info = {}
        for k, v in d['fns'].items():
            self.info[k] = v
        self.normq = {}
        self.fn = {}
        self.by_qn = {}
        self.by_cls = {}
        for i, f in d['functions'].items():
            inf = d['fns'][i]
            x = Fn()
            x.id, x.qn, x.cls, x.ret, x.ptypes, x.flags = i, inf[0], inf[1], inf[2], inf[3], inf[4]
            x.file, x.line, x.end = f['file'], f['l'], f['le']
            x.params, x.body, x.inits, x.acc = f['p'], f['b'], f.get('in'), f['acc']
            x.ov, x.inst, x.loc = f.get('ov', []), f.get('inst', 0), f.get('loc', 0)
            self.fn[i] = x
            self.by_qn.setdefault(norm(x.qn), []).append(x)
            if x.cls:
                self.by_cls.setdefault(x.cls, []).append(x)
        self.rec = d['records']
        # one name may stand for several definitions, each seen in translation units of its own
        self.enums, self.enum_defs = {}, {}
        for k in sorted(d['enums']):
            e = d['enums'][k]
            self.enums.setdefault(e['n'], e)
            self.enum_defs.setdefault(e['n'], []).append(e)
        self.subs = {}
        for n, r in self.rec.items():
            for b in r['bases']:
                self.subs.setdefault(b, set()).add(n)
        self.overriders = {}
        for f in self.fn.values():
            for o in f.ov:
                self.overriders.setdefault(o, set()).add(f.id)
        self.globals = {}
        for g in d['globals'].values():
            if g['init'] is not None or g['n'] not in self.globals:
                self.globals[g['n']] = g
        self._fields = {}

    def q(self, fid):
        r = self.normq.get(fid)
        if r is None:
            r = self.normq[fid] = norm(self.info[fid][0])
        return r

    def fields(self, cls, inherited=True):
        """name -> [name, type, init, flags, line] including base classes"""
        r = self._fields.get(cls)
        if r is None:
            r = {}
            rec = self.rec.get(cls)
            if rec:
                for b in rec['bases']:
                    r.update(self.fields(b))
                for f in rec['f']:
                    r[f[0]] = f
            self._fields[cls] = r
        return r

    def field_type(self, owner, name):
        f = self.fields(owner).get(name)
        return f[1] if f else ''

    def bases(self, cls):
        out = []
        rec = self.rec.get(cls)
        if rec:
            for b in rec['bases']:
                out.append(b)
                out += self.bases(b)
        return out

    def derives(self, cls, base):
        return cls == base or base in self.bases(cls)

    def methods(self, cls, name=None):
        """methods with a body declared in cls"""
        return [f for f in self.by_cls.get(cls, ()) if name is None or f.name == name]

    def find_method(self, cls, name):
        for c in [cls] + self.bases(cls):
            m = self.methods(c, name)
            if m:
                return m
        return []

    def devirt(self, fid, cls):
        """the body that a call of fid on an object of static class cls runs, or None when it cannot be told"""
        inf = self.info[fid]
        f = self.fn.get(fid)
        if 'v' not in inf[4]:
            return f
        if not self.overriders.get(fid):
            return f
        seen, todo, cands = set(), [fid], []
        while todo:
            x = todo.pop()
            for o in self.overriders.get(x, ()):
                if o not in seen:
                    seen.add(o)
                    todo.append(o)
        chain = [cls] + self.bases(cls)
        best = None
        for c in chain:
            for o in seen | {fid}:
                if self.info[o][1] == c:
                    best = o
                    break
            if best is not None:
                break
        if best is None:
            return None
        # a subclass of cls could override again
        below, todo = set(), [cls]
        while todo:
            x = todo.pop()
            for s in self.subs.get(x, ()):
                if s not in below:
                    below.add(s)
                    todo.append(s)
        if any(self.info[o][1] in below for o in seen):
            return None
        return self.fn.get(best)

    def all(self, pred=None):
        return [f for f in self.fn.values() if pred is None or pred(f)]


_P = None


def prog():
    global _P
    if _P is None:
        _P = Prog()
    return _P


def walk(n, f):
    """calls f(node) on every AST list node; f returns False to stop descending"""
    if isinstance(n, list):
        if n and isinstance(n[0], str):
            if f(n) is False:
                return
        for c in n:
            if isinstance(c, list):
                walk(c, f)
