"""Guarded-event walker: a flow-sensitive, gated normalisation of one function with its repo helpers
inlined.  It yields the ordered list of effects (field assignments, opaque calls, stream output, throws)
each with the condition under which the syntax reaches it.  Nothing is executed and no path is handed
to a solver: conditions are kept as boolean terms over fields, parameters and opaque values."""
from .prog import prog, bare, pointee, value_type, is_cont, walk, targs
from .db import DEEP

TYPES = {}


def T(term, t):
    TYPES.setdefault(term, t)
    return term


TRUE = ('bo', True)
FALSE = ('bo', False)


def neg(a):
    if a[0] == 'not':
        return a[1]
    if a == TRUE:
        return FALSE
    if a == FALSE:
        return TRUE
    return ('not', a)


def conj(xs):
    out = []
    for x in xs:
        if x == TRUE:
            continue
        if x == FALSE:
            return FALSE
        if x[0] == 'and':
            for y in x[1:]:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    s = set(out)
    for x in out:
        if neg(x) in s:
            return FALSE
    if any(x[0] == 'or' for x in out):
        new = []
        for x in out:
            if x[0] == 'or':
                if any(y in s for y in x[1:]):
                    continue
                ys = [y for y in x[1:] if neg(y) not in s]
                if len(ys) != len(x) - 1:
                    if not ys:
                        return FALSE
                    x = ys[0] if len(ys) == 1 else ('or',) + tuple(ys)
            new.append(x)
        if new != out:
            return conj(new)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ('and',) + tuple(out)


def disj(xs):
    out = []
    for x in xs:
        if x == FALSE:
            continue
        if x == TRUE:
            return TRUE
        if x[0] == 'or':
            for y in x[1:]:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    s = set(out)
    for x in out:
        if neg(x) in s:
            return TRUE
    if any(x[0] == 'and' for x in out):
        new = []
        for x in out:
            if x[0] == 'and':
                if any(y in s for y in x[1:]):
                    continue
                ys = [y for y in x[1:] if neg(y) not in s]
                if len(ys) != len(x) - 1:
                    if not ys:
                        return TRUE
                    x = ys[0] if len(ys) == 1 else ('and',) + tuple(ys)
            new.append(x)
        if new != out:
            return disj(new)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return ('or',) + tuple(out)


def ite(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    if is_bool(a) and is_bool(b):
        return disj([conj([c, a]), conj([neg(c), b])])
    if a == TRUE:
        return disj([c, b])
    if a == FALSE:
        return conj([neg(c), b])
    if b == TRUE:
        return disj([neg(c), a])
    if b == FALSE:
        return conj([c, a])
    if c[0] == 'not':
        return ('ite', c[1], b, a)
    return ('ite', c, a, b)


def is_bool(t):
    return t[0] in ('bo', 'not', 'and', 'or', 'eq', 'lt', 'empty', 'isnull')


def size(t, lim=400):
    """number of nodes, cut off"""
    n, st = 0, [t]
    while st:
        x = st.pop()
        n += 1
        if n > lim:
            return n
        for c in x:
            if isinstance(c, tuple):
                st.append(c)
    return n


CONSTS = ('s', 'n', 'fl', 'ch', 'bo', 'null', 'e')


def mk_eq(a, b):
    if a[0] in CONSTS and b[0] not in CONSTS:
        a, b = b, a
    if b == ('null',):
        return ('isnull', a)
    if a == ('null',):
        return ('isnull', b)
    if b == TRUE:
        return a
    if b == FALSE:
        return neg(a)
    if a[0] == 'size' and b == ('n', 0):
        return ('empty', a[1])
    if a[0] == 'len' and b == ('n', 0):
        return ('eq', a[1], ('s', ''))
    if b == ('s', '') and a[0] == 's':
        return ('bo', a[1] == '')
    if a[0] == b[0] and a[0] in CONSTS:
        return ('bo', a == b)
    if a == b and a[0] in ('f', 'arg', 'this', 'elem'):
        return TRUE
    if a[0] == 'ite' and b[0] in CONSTS:
        return ite(a[1], mk_eq(a[2], b), mk_eq(a[3], b))
    if b[0] not in CONSTS and repr(a) > repr(b):
        a, b = b, a
    return ('eq', a, b)


def mk_lt(a, b):
    """a < b"""
    if a[0] == 'n' and b[0] == 'n':
        return ('bo', a[1] < b[1])
    if a[0] == 'n' and isinstance(a[1], int):
        # c < x  ==  not (x < c+1)   (integers)
        if b[0] == 'size' and a[1] == 0:
            return neg(('empty', b[1]))
        if b[0] not in ('fl',) and not is_float(b):
            return neg(mk_lt(b, ('n', a[1] + 1)))
        return ('lt', a, b)
    if a[0] == 'size' and b == ('n', 1):
        return ('empty', a[1])
    return ('lt', a, b)


def is_float(t):
    ty = type_of(t)
    return bare(ty) in ('double', 'float', 'long double')


def type_of(t):
    k = t[0]
    if k == 'this':
        return t[1]
    if k == 'f':
        return prog().field_type(t[3], t[2])
    if k in ('new', 'val'):
        return t[1]
    if k in ('elem', 'at'):
        vt = value_type(type_of(t[1]))
        return vt or TYPES.get(t, '')
    if k == 'it':
        return TYPES.get(t, '')
    if k == 's':
        return 'std::string'
    if k == 'n':
        return 'int'
    if k == 'e':
        return t[1].rsplit('::', 1)[0]
    if k == 'ite':
        return type_of(t[2])
    return TYPES.get(t, '')


class Ev:
    __slots__ = ('kind', 'pc', 'loops', 'line', 'fn', 'a', 'stack', 'seq')

    def __init__(self, kind, pc, loops, line, fn, stack, a, seq):
        self.kind, self.pc, self.loops, self.line, self.fn, self.a, self.stack, self.seq = kind, pc, loops, line, fn, a, stack, seq

    @property
    def where(self):
        return '%s:%d' % (self.fn.file, self.line)

    def __repr__(self):
        return '%s@%s %s  IF %s  L%d' % (self.kind, self.where, ' | '.join(map(show, self.a)), ' & '.join(map(show, self.pc)), len(self.loops))


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    k = t[0]
    if not isinstance(k, str):
        return '[' + ', '.join(map(show, t)) + ']'
    if k == 'this':
        return 'this'
    if k == 'f':
        return show(t[1]) + '.' + t[2]
    if k in ('s', 'ch', 'fl'):
        return repr(t[1])
    if k in ('n', 'bo', 'g'):
        return str(t[1])
    if k == 'e':
        return t[1].split('::', 2)[-1]
    if k == 'not':
        return '!' + show(t[1])
    if k in ('and', 'or'):
        return '(' + (' %s ' % ('&&' if k == 'and' else '||')).join(map(show, t[1:])) + ')'
    if k == 'eq':
        return '%s==%s' % (show(t[1]), show(t[2]))
    if k == 'lt':
        return '%s<%s' % (show(t[1]), show(t[2]))
    if k == 'elem':
        return 'each(%s)' % show(t[1])
    if k == 'it':
        return 'it(%s)' % show(t[1])
    if k == 'arg':
        return t[2]
    if k == 'lv':
        return t[2] + '~'
    if k == 'new':
        return 'new %s' % t[1].rsplit('::', 1)[-1]
    if k == 'val':
        return '%s{%s}' % (t[1].rsplit('::', 1)[-1], ','.join(map(show, t[2])))
    if k == 'c':
        return '%s%s(%s)' % (show(t[2]) + '.' if t[2] else '', t[1].rsplit('::', 1)[-1], ','.join(map(show, t[3])))
    return k + '(' + ','.join(map(show, t[1:])) + ')'


class Frame:
    n = 0

    def __init__(self, fn, this, parent=None):
        Frame.n += 1
        self.id = Frame.n
        self.fn = fn
        self.this = this
        self.vars = {}      # var id -> ('cell', key) | ('lval', term)
        self.vtypes = {}
        self.parent = parent
        self.rets = []      # (pc, value, env)

    def lookup(self, v):
        f = self
        while f is not None:
            if v in f.vars:
                return f.vars[v]
            f = f.parent
        return None


DEREF = ('std::shared_ptr::operator->', 'std::shared_ptr::operator*', 'std::shared_ptr::get', 'std::unique_ptr::operator->',
         'std::unique_ptr::operator*', 'std::unique_ptr::get', 'std::weak_ptr::lock', 'std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const',
         'std::static_pointer_cast', 'std::dynamic_pointer_cast', 'std::const_pointer_cast', 'std::string::c_str', 'std::string::data')
OPT_DEREF = ('std::optional::operator->', 'std::optional::operator*', 'std::optional::value')
BEGIN = ('begin', 'cbegin', 'rbegin', 'crbegin')
END = ('end', 'cend', 'rend', 'crend')


class Stop(Exception):
    pass


class Walker:
    """walks one entry function"""

    def __init__(self, inline=None, max_depth=14, max_events=20000, opaque=(), ctor_inline=None, opaque_fn=None):
        self.opaque_fn = opaque_fn
        self.P = prog()
        self.inline = inline or (lambda f, obj, args: True)
        self.max_depth = max_depth
        self.max_events = max_events
        self.opaque = set(opaque)
        self.ctor_inline = ctor_inline
        self.events = []
        self.env = {}
        self.pc = ()
        self.alive = True
        self.loops = ()
        self.stack = []
        self.frames = []
        self.uid = 0
        self.unknown = 0
        self.brk = []
        self.cur_line = 0
        self.imprecise = 0
        self.inlined = set()
        self.names = {}
        self.base_this = None
        self.lvcell = {}          # value in or after a loop -> variable, value before, (in or out, loop)
        self.nan = False          # keep a >= b apart from not a < b
        self.preset = None        # term of a field -> its value, where known

    # ------------------------------------------------------------------ plumbing
    def fresh(self):
        self.uid += 1
        return self.uid

    def ev(self, kind, line, *a):
        if not self.alive:
            return
        if len(self.events) > self.max_events:
            raise Stop('too many events')
        self.events.append(Ev(kind, self.pc, self.loops, line, self.stack[-1], tuple(f.qn for f in self.stack), a, len(self.events)))

    def run(self, fn, this=None, args=None):
        fr = Frame(fn, this if this is not None else ('this', fn.cls))
        for i, (vid, name, ty) in enumerate(fn.params):
            t = args[i] if args and i < len(args) and args[i] is not None else T(('arg', i, name, fn.qn), ty)
            key = (fr.id, vid)
            fr.vars[vid] = ('cell', key)
            fr.vtypes[vid] = ty
            self.env[key] = t
        self.stack.append(fn)
        self.frames.append(fr)
        self.inlined.add(fn.id)
        if fn.inits:
            for f, e, w in fn.inits:
                v = self.init_value(f, e, fr.this) if e else None
                if not f.startswith('<'):
                    own = fn.cls
                    self.ev('assign', e[1] if e else fn.line, ('f', fr.this, f, own), v or ('undef',), 'init')
        self.s(fn.body)
        if self.alive:
            fr.rets.append((self.pc, ('void',), self.env))
        self.frames.pop()
        self.stack.pop()
        self.rets = fr.rets
        self.frame = fr
        return self

    def returns(self):
        return [(pc, v) for pc, v, _ in self.rets]

    @property
    def fr(self):
        return self.frames[-1]

    # ------------------------------------------------------------------ path conditions
    def merge_pc(self, orig, pcs):
        n = len(orig)
        rems = []
        for p in pcs:
            if p[:n] == orig:
                rems.append(tuple(p[n:]))
            else:
                rems.append(tuple(x for x in p if x not in orig))
        if any(not r for r in rems):
            return orig
        changed = True
        while changed:
            changed = False
            rems = list(dict.fromkeys(rems))
            if any(not r for r in rems):
                return orig
            for i in range(len(rems)):
                for j in range(i + 1, len(rems)):
                    a, b = rems[i], rems[j]
                    if len(a) == len(b) and a[:-1] == b[:-1] and neg(a[-1]) == b[-1]:
                        rems = [r for k, r in enumerate(rems) if k not in (i, j)] + [a[:-1]]
                        changed = True
                        break
                    if a == b[:len(a)]:
                        rems.pop(j)
                        changed = True
                        break
                    if b == a[:len(b)]:
                        rems.pop(i)
                        changed = True
                        break
                if changed:
                    break
        if len(rems) == 1:
            return orig + rems[0]
        if len(rems) > 64 * DEEP:
            self.imprecise += 1
            return orig
        d = disj([conj(r) for r in rems])
        if size(d) > 800 * DEEP:
            self.imprecise += 1
            return orig
        return self.add(orig, d)

    def add(self, pc, lit):
        if lit == TRUE:
            return pc
        if lit[0] == 'and':
            for x in lit[1:]:
                pc = self.add(pc, x)
            return pc
        if lit[0] == 'not' and lit[1][0] == 'or':
            for x in lit[1][1:]:
                pc = self.add(pc, neg(x))
            return pc
        if lit in pc:
            return pc
        return pc + (lit,)

    def merge_env(self, outs):
        """outs: [(cond literal list relative, env)]; later ones are the else side"""
        if len(outs) == 1:
            return outs[0][1]
        keys = set()
        for _, e in outs:
            keys |= e.keys()
        res = {}
        for k in keys:
            vals = [(c, e.get(k)) for c, e in outs]
            first = vals[0][1]
            if all(v == first for _, v in vals):
                res[k] = first
                continue
            vals = [(c, v) for c, v in vals if v is not None]
            if not vals:
                continue
            its = [v for _, v in vals if v[0] == 'it']
            if len(its) == len(vals) and len({v[1] for v in its}) == 1:
                r = ('it', its[0][1], ('m', self.fresh()))
                TYPES.setdefault(r, TYPES.get(its[0], ''))
                res[k] = r
                continue
            v = vals[-1][1]
            for c, w in reversed(vals[:-1]):
                v = ite(c, w, v)
            if size(v) > 600 * DEEP:
                self.imprecise += 1
                nv = ('lv', self.fresh(), 'merged')
                TYPES.setdefault(nv, type_of(vals[0][1]))
                v = nv
            res[k] = v
        return res

    # ------------------------------------------------------------------ statements
    def s(self, n):
        if n is None or not self.alive:
            return
        k = n[0]
        m = getattr(self, 's_' + {'{': 'block', 'if': 'if', 'while': 'while', 'do': 'do', 'for': 'for', 'rf': 'rf', 'sw': 'sw',
                                  'case': 'label', 'dflt': 'label', 'ret': 'ret', 'brk': 'brk', 'cnt': 'cnt', 'try': 'try', 'd': 'decl',
                                  'xs': 'xs'}.get(k, 'expr'))
        m(n)

    def s_block(self, n):
        for c in n[2]:
            if not self.alive:
                return
            self.s(c)

    def s_expr(self, n):
        self.x(n)

    def s_xs(self, n):
        self.unknown += 1
        for c in n[3]:
            if c:
                self.s(c)

    def s_label(self, n):
        self.s(n[-1])

    def s_decl(self, n):
        for vid, name, ty, init, fl in n[2]:
            key = (self.fr.id, vid)
            self.fr.vtypes[vid] = ty
            self.names[vid] = name
            if init is None:
                t = T(('lv', self.fresh(), name), ty)
                self.fr.vars[vid] = ('cell', key)
                self.env[key] = t
                continue
            if ty.endswith('&') and not ty.startswith('const '):
                lv = self.lv(init)
                if lv is not None:
                    self.fr.vars[vid] = lv
                    continue
            t = self.x(init)
            if t[0] == 'val' and not ty.startswith('const ') and pointee(ty) == bare(ty) and self.P.rec.get(bare(ty)):
                t = ('new', bare(ty), ('local', self.stack[-1].qn, n[1], name, self.fr.id if len(self.stack) > 1 else 0), t[2])
            self.fr.vars[vid] = ('cell', key)
            self.env[key] = t
            if t[0] in ('new', 'c', 'lv', 'val', 'it'):
                TYPES.setdefault(t, ty)
            self.ev('decl', n[1], name, t)

    def branch(self, cond_lit, body, orig_env):
        self.env = dict(orig_env)
        self.alive = cond_lit != FALSE
        if self.alive:
            self.pc = self.add(self.pc, cond_lit)
            if cond_lit == FALSE:
                self.alive = False
            if body is not None:
                if callable(body):
                    body()
                else:
                    self.s(body)
        return self.alive, self.pc, self.env

    def s_if(self, n):
        _, line, init, cond, then, els = n
        if init is not None:
            self.s(init)
        c = self.cond(cond)
        if not self.alive:
            return
        opc, oenv = self.pc, self.env
        a1, p1, e1 = self.branch(c, then, oenv)
        self.pc = opc
        a2, p2, e2 = self.branch(neg(c), els, oenv)
        self.join(opc, [(a1, p1, e1, c), (a2, p2, e2, neg(c))])

    def join(self, opc, outs):
        live = [(p, e, c) for a, p, e, c in outs if a]
        if not live:
            self.alive = False
            self.pc = opc
            return
        self.alive = True
        self.env = self.merge_env([(c, e) for p, e, c in live])
        self.pc = self.merge_pc(opc, [p for p, e, c in live])

    def s_ret(self, n):
        v = self.x(n[2]) if n[2] is not None else ('void',)
        if not self.alive:
            return
        self.ev('ret', n[1], v)
        self.fr.rets.append((self.pc, v, self.env))
        self.alive = False

    def s_brk(self, n):
        if self.brk:
            self.brk[-1].append((self.pc, self.env))
        self.alive = False

    def s_cnt(self, n):
        self.ev('continue', n[1])
        self.alive = False

    def s_try(self, n):
        opc, oenv = self.pc, dict(self.env)
        self.s(n[2])
        a1, p1, e1 = self.alive, self.pc, self.env
        outs = [(a1, p1, e1, ('lv', self.fresh(), 'nothrow'))]
        for vid, ty, body in n[3]:
            self.pc, self.env, self.alive = opc, dict(oenv), True
            # cells assigned in the try block are unknown here
            ass = self.assigned(n[2])
            self.havoc(ass)
            lit = ('caught', n[1], ty, self.fresh())
            self.pc = self.pc + (lit,)
            if vid is not None:
                key = (self.fr.id, vid)
                self.fr.vars[vid] = ('cell', key)
                self.fr.vtypes[vid] = ty
                self.env[key] = T(('lv', self.fresh(), 'exception'), ty)
            self.s(body)
            outs.append((self.alive, self.pc, self.env, lit))
        live = [o for o in outs if o[0]]
        if not live:
            self.alive = False
            self.pc = opc
            return
        self.alive = True
        self.env = self.merge_env([(c, e) for a, p, e, c in live])
        self.pc = p1 if len(live) == 1 and live[0] is outs[0] else opc

    def s_sw(self, n):
        _, line, cond, body = n
        v = self.x(cond)
        if not self.alive:
            return
        items = body[2] if body and body[0] == '{' else [body]
        # flatten: list of (labels, stmt)
        flat = []
        alllabs = []
        for it in items:
            labs = []
            while it is not None and it[0] in ('case', 'dflt'):
                if it[0] == 'case':
                    lab = mk_eq(v, self.x(it[2]))
                    labs.append(lab)
                    alllabs.append(lab)
                    it = it[3]
                else:
                    labs.append('default')
                    it = it[2]
            flat.append((labs, it))
        opc, oenv = self.pc, dict(self.env)
        dflt = conj([neg(x) for x in alllabs]) if not alllabs or len(alllabs) < 400 else TRUE
        self.brk.append([])
        self.alive = False
        entries = [(opc, oenv)]
        has_default = False
        pend = []
        for labs, st in flat:
            if labs:
                lits = []
                for l in labs:
                    if l == 'default':
                        has_default = True
                        lits.append(dflt)
                    else:
                        lits.append(l)
                lit = disj(lits)
                npc = self.add(opc, lit)
                if self.alive:
                    self.join(opc, [(True, self.pc, self.env, conj(self.pc[len(opc):])), (True, npc, dict(oenv), lit)])
                elif lit != FALSE:
                    self.pc, self.env, self.alive = npc, dict(oenv), True
            if st is not None and self.alive:
                self.s(st)
        outs = [(True, p, e, conj(p[len(opc):])) for p, e in self.brk.pop()]
        if self.alive:
            outs.append((True, self.pc, self.env, conj(self.pc[len(opc):])))
        if not has_default:
            outs.append((dflt != FALSE, self.add(opc, dflt), oenv, dflt))
        self.pc = opc
        self.join(opc, outs)

    # ---- loops
    def assigned(self, *nodes):
        """variable ids that the syntax below may assign"""
        out = set()

        def root(e):
            while e and e[0] in ('m', 'sub', 'cast'):
                e = e[2] if e[0] in ('m', 'sub') else e[5]
            if e and e[0] == 'v':
                return e[2]
            return None

        def f(n):
            k = n[0]
            if k == 'b' and n[2].endswith('=') and n[2] not in ('==', '!=', '<=', '>='):
                r = root(n[3])
                if r is not None:
                    out.add(r)
            elif k == 'u' and n[2] in ('++', '--', '++post', '--post', '&'):
                r = root(n[3])
                if r is not None:
                    out.add(r)
            elif k == 'c':
                inf = self.P.info.get(n[2])
                if inf:
                    for a, t in zip(n[4], inf[3]):
                        if t.endswith('&') and not t.startswith('const ') and 'const &' not in t and not t.endswith('&&') and 'basic_ostream' not in t and 'ezxml::XElement ' not in t:
                            if a and a[0] == 'v':
                                out.add(a[2])
                    nm = inf[0].rsplit('::', 1)[-1]
                    if n[3] is not None and 'c' not in inf[4] and n[3][0] == 'v' and (nm.startswith('operator') and nm not in ('operator->', 'operator*', 'operator[]', 'operator bool') or nm in ('append', 'push_back', 'clear', 'assign', 'erase', 'insert', 'emplace_back', 'replace', 'reset', 'pop_back', 'swap')):
                        out.add(n[3][2])
        for n in nodes:
            if n is not None:
                walk(n, f)
        return out

    def havoc(self, ids, tag=None):
        for v in ids:
            loc = self.fr.lookup(v)
            if loc and loc[0] == 'cell':
                old = self.env.get(loc[1])
                if old is not None:
                    if old[0] == 'it':
                        r = ('it', old[1], ('m', self.fresh()))
                        TYPES.setdefault(r, TYPES.get(old, ''))
                        self.env[loc[1]] = r
                    elif old[0] == 'endit':
                        pass        # an end position passed along by reference stays the end position
                    else:
                        r = T(('lv', self.fresh(), self.vname(v)), type_of(old))
                        self.env[loc[1]] = r
                        self.lvcell[r] = loc[1], old, tag

    def loop_body(self, line, kind, cont, cond, inc, body, ids, cond_first=True, pre=None):
        oloops, opc = self.loops, self.pc
        lid = (kind, line, self.stack[-1].qn, cont, self.fresh())
        self.loops = self.loops + (lid,)
        self.havoc(ids, ('in', lid))
        if pre:
            pre(lid)
        self.brk.append([])
        henv = dict(self.env)
        if cond is not None and cond_first:
            c = self.cond(cond)
            if not (c[0] == 'itcmp' or self.iter_cond(c)):
                self.pc = self.add(self.pc, c)
        self.s(body)
        if inc is not None and True:
            self.alive = True
            save = self.env
            self.x(inc)
        self.brk.pop()
        self.loops, self.pc = oloops, opc
        self.alive = True
        # after the loop: everything assigned inside is unknown
        base = dict(henv)
        base.update({k: v for k, v in self.env.items() if k not in base})
        self.env = base
        self.havoc(ids, ('out', lid))
        return lid

    def vname(self, v):
        f = self.fr
        while f is not None:
            for vid, name, ty in f.fn.params:
                if vid == v:
                    return name
            f = f.parent
        return self.names.get(v, 'loopvar')

    def iter_cond(self, c):
        """loop conditions that only say 'not at the end yet'"""
        if c[0] == 'not' and c[1][0] == 'eq':
            return c[1][1][0] in ('it', 'endit') or c[1][2][0] in ('it', 'endit')
        if c[0] == 'lt' and c[2][0] == 'size':
            return True
        return False

    def s_rf(self, n):
        _, line, vid, name, ty, rng, body = n[:7]
        cont = self.x(rng)
        if not self.alive:
            return
        ids = self.assigned(body)
        fr = self.fr

        def pre(lid):
            e = ('elem', cont, lid[4])
            TYPES.setdefault(e, value_type(type_of(cont)) or ty)
            key = (fr.id, vid)
            if ty.endswith('&'):
                fr.vars[vid] = ('lval', e)
            else:
                fr.vars[vid] = ('cell', key)
                self.env[key] = e
            fr.vtypes[vid] = ty
            if len(n) > 7:
                for i, (bid, bname) in enumerate(n[7]):
                    fr.vars[bid] = ('lval', ('f', e, ('first', 'second')[i] if i < 2 else str(i), 'std::pair'))
        self.loop_body(line, 'for', cont, None, None, body, ids, pre=pre)

    def s_for(self, n):
        _, line, init, cond, inc, body = n
        if init is not None:
            self.s(init)
        ids = self.assigned(cond, inc, body)
        cont = None
        fr = self.fr
        idx = None
        for v in ids:
            loc = fr.lookup(v)
            if loc and loc[0] == 'cell' and self.env.get(loc[1], ('?',))[0] == 'it' and self._in_inc(inc, v, body):
                cont = (v, self.env[loc[1]][1])
                break
        if cont is None and cond is not None:
            # index loop  i < X.size()
            save_ev, self.events = self.events, []
            try:
                c = self.x(cond)
            finally:
                self.events = save_ev
            for v in ids:
                loc = fr.lookup(v)
                if loc and loc[0] == 'cell' and c[0] == 'lt' and c[2][0] == 'size' and c[1] == self.env.get(loc[1]):
                    idx = (v, c[2][1])

        def pre(lid):
            if cont is not None:
                loc = fr.lookup(cont[0])
                old = self.env[loc[1]]
                r = ('it', cont[1], lid[4])
                TYPES.setdefault(r, TYPES.get(old, ''))
                self.env[loc[1]] = r
            elif idx is not None:
                loc = fr.lookup(idx[0])
                self.env[loc[1]] = T(('idx', idx[1], lid[4]), 'int')
        self.loop_body(line, 'for', cont[1] if cont else idx[1] if idx else None, cond, inc, body, ids, pre=pre)

    def _in_inc(self, inc, v, body):
        hit = []

        def f(n):
            if n[0] == 'v' and n[2] == v:
                hit.append(1)
        if inc is not None:
            walk(inc, f)
            return bool(hit)
        return True

    def s_while(self, n):
        self.s_for(['for', n[1], None, n[2], None, n[3]])

    def s_do(self, n):
        ids = self.assigned(n[2], n[3])
        self.loop_body(n[1], 'do', None, n[3], None, n[2], ids, cond_first=False)

    # ------------------------------------------------------------------ expressions
    def cond(self, e):
        return self.x(e)

    def lv(self, e):
        """lvalue location of an expression: ('cell', key) or ('lval', term)"""
        k = e[0]
        if k == 'v':
            r = self.fr.lookup(e[2])
            return r
        if k == 'm':
            return ('lval', self.x(e))
        if k == 'cast':
            return self.lv(e[5])
        if k == 'u' and e[2] == '*':
            return ('lval', self.x(e))
        if k == 'c':
            q = self.P.q(e[2])
            if q in DEREF:
                return self.lv(e[3] if e[3] is not None else e[4][0])
            t = self.x(e)
            return ('lval', t)
        if k in ('sub', 'cond', 'g', 'x', 'tm'):
            return ('lval', self.x(e))
        return None

    def load(self, loc):
        if loc[0] == 'cell':
            v = self.env.get(loc[1])
            if v is None:
                v = ('lv', self.fresh(), 'unset')
                self.env[loc[1]] = v
            return v
        if self.preset and loc[1] in self.preset:
            return self.preset[loc[1]]
        return loc[1]

    def store(self, loc, v, line, op='='):
        if loc is None:
            return
        if loc[0] == 'cell':
            if loc[1][0] == 'static':
                self.ev('assign', line, ('g', str(loc[1])), v, op)
            old = self.env.get(loc[1])
            if old is not None and old[0] == 'lv' and old not in TYPES:
                TYPES[old] = ''
            self.env[loc[1]] = v
            self.ev('set', line, loc[1], v)
        else:
            self.ev('assign', line, loc[1], v, op)

    def x(self, e):
        if e is None:
            return ('none',)
        return getattr(self, 'x_' + e[0].replace('{', 'block'), self.x_other)(e)

    def x_other(self, e):
        self.unknown += 1
        return ('lv', self.fresh(), 'unknown:' + e[0])

    def x_x(self, e):
        if e[2] == 'PredefinedExpr':
            return ('s', '__func__')
        ts = [self.x(c) for c in e[3] if c and c[0] != 'xs']
        if len(ts) == 1:
            return ts[0]
        if e[2] not in ('CXXTypeidExpr', 'OpaqueValueExpr'):
            self.unknown += 1
        return ('lv', self.fresh(), 'unknown:' + e[2])

    def x_s(self, e):
        return ('s', e[2])

    def x_n(self, e):
        return ('n', e[2])

    def x_fl(self, e):
        return ('fl', e[2])

    def x_ch(self, e):
        return ('ch', e[2])

    def x_bo(self, e):
        return ('bo', e[2])

    def x_null(self, e):
        return ('null',)

    def x_zero(self, e):
        t = bare(e[2])
        if t == 'bool':
            return FALSE
        if t.endswith('*') or t == 'std::nullptr_t':
            return ('null',)
        return ('n', 0)

    def x_e(self, e):
        return ('e', e[2])

    def x_fn(self, e):
        return ('fnref', e[2])

    def x_mf(self, e):
        return ('fnref', e[2])

    def x_this(self, e):
        f = self.fr
        while f is not None and f.this is None:
            f = f.parent
        return f.this if f else ('this', '?')

    def x_g(self, e):
        g = self.P.globals.get(e[2])
        if g and g['init'] is not None and ('c' in g['fl'] or 'x' in g['fl']):
            i = g['init']
            while i and i[0] in ('cast', 'il') and (i[0] == 'cast' or len(i[3]) == 1):
                i = i[5] if i[0] == 'cast' else i[3][0]
            if i[0] in ('n', 's', 'ch', 'bo', 'e', 'fl'):
                return self.x(i)
            if i[0] == 'k' and len(i[4]) >= 1 and i[4][0][0] == 's':
                return self.x(i[4][0])
            if i[0] == 'u' and i[2] == '-' and i[3][0] == 'n':
                return ('n', -i[3][2])
        return T(('g', e[2]), g['t'] if g else '')

    def x_v(self, e):
        loc = self.fr.lookup(e[2])
        if loc is None:
            # static local or a variable of an enclosing function that was not walked
            t = ('lv', 'x%s' % e[2], e[3])
            return t
        return self.load(loc)

    def x_m(self, e):
        b = self.x(e[2])
        return self.field(b, e[3], e[4])

    def field(self, b, name, owner):
        if b[0] == 'it':
            b = self.deref_it(b)
        if b[0] == 'ite' and size(b) < 40 * DEEP:
            return ite(b[1], self.field(b[2], name, owner), self.field(b[3], name, owner))
        t = ('f', b, name, owner)
        return self.preset.get(t, t) if self.preset else t

    def deref_it(self, it):
        e = ('elem', it[1], it[2])
        return e

    def x_cast(self, e):
        kind, to, frm = e[2], e[3], e[4]
        v = self.x(e[5])
        k = kind[2:]
        if k in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            return self.truth(v, frm)
        if k == 'ToVoid':
            return ('void',)
        if bare(to) == 'bool' and not is_bool(v) and k not in ('NoOp', 'LValueToRValue', 'IntegralCast', 'ConstructorConversion', 'UserDefinedConversion'):
            return self.truth(v, frm)
        if k in ('FloatingToIntegral',):
            self.ev('f2i', e[1], v, to, frm)
            return T(('f2i', v, to), to)
        return v

    def truth(self, v, frm=''):
        if is_bool(v):
            return v
        if v[0] == 'n':
            return ('bo', v[1] != 0)
        if v[0] == 'null':
            return FALSE
        t = bare(frm)
        if t.endswith('*'):
            return neg(('isnull', v)) if v[0] not in ('new', 's') else TRUE
        if t == 'bool' or bare(type_of(v)) == 'bool':
            return v
        if v[0] == 'size':
            return neg(('empty', v[1]))
        return neg(mk_eq(v, ('n', 0)))

    def x_b(self, e):
        _, line, op, l, r, ty = e
        if op in ('&&', '||'):
            a = self.x(l)
            if not self.alive:
                return a
            opc, oenv = self.pc, self.env
            n0 = len(self.events)
            lit = a if op == '&&' else neg(a)
            self.env = dict(oenv)
            self.pc = self.add(opc, lit)
            b = self.x(r)
            alive2 = self.alive
            env2 = self.env
            self.alive = True
            self.pc = opc
            if env2 != oenv:
                self.env = self.merge_env([(lit, env2), (neg(lit), oenv)])
            else:
                self.env = oenv
            return conj([a, b]) if op == '&&' else disj([a, b])
        if op == '=':
            v = self.x(r)
            loc = self.lv(l)
            self.store(loc, v, line)
            return v
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            v = self.x(r)
            loc = self.lv(l)
            if loc is None:
                return ('lv', self.fresh(), 'u')
            old = self.load(loc)
            if op == '&=':
                nv = conj([old, v]) if (is_bool(v) or is_bool(old) or bare(ty) == 'bool') else ('op', '&', old, v)
            elif op == '|=':
                nv = disj([old, v]) if (is_bool(v) or is_bool(old) or bare(ty) == 'bool') else ('op', '|', old, v)
            else:
                nv = self.arith(op[:-1], old, v, line)
            self.store(loc, nv, line, op)
            return nv
        if op == ',':
            self.x(l)
            return self.x(r)
        a, b = self.x(l), self.x(r)
        return self.binop(op, a, b, line)

    def binop(self, op, a, b, line=0):
        if op == '==':
            return mk_eq(a, b)
        if op == '!=':
            return neg(mk_eq(a, b))
        # without the rewriting that holds for whole numbers, and for numbers, only
        lt = mk_lt if not self.nan else lambda a, b: ('bo', a[1] < b[1]) if a[0] == 'n' == b[0] else ('lt', a, b)
        if op == '<':
            return lt(a, b)
        if op == '>':
            return lt(b, a)
        if op == '<=':
            return disj([lt(a, b), mk_eq(a, b)]) if self.nan else neg(mk_lt(b, a))
        if op == '>=':
            return disj([lt(b, a), mk_eq(a, b)]) if self.nan else neg(mk_lt(a, b))
        return self.arith(op, a, b, line)

    def arith(self, op, a, b, line=0):
        if a[0] == 'n' and b[0] == 'n':
            try:
                if op == '+':
                    return ('n', a[1] + b[1])
                if op == '-':
                    return ('n', a[1] - b[1])
                if op == '*':
                    return ('n', a[1] * b[1])
            except TypeError:
                pass
        if op in ('/', '%'):
            self.ev('div', line, a, b, op)
        def bl(x):
            return is_bool(x) or bare(type_of(x)) == 'bool'
        if op == '&' and bl(a) and bl(b):
            return conj([a, b])
        if op == '|' and bl(a) and bl(b):
            return disj([a, b])
        t = type_of(a) or type_of(b)
        if op == '+' and a[0] == 'it' or op == '-' and a[0] == 'it' and b[0] != 'it':
            return self.it_move(a)
        if is_float(a) or is_float(b) or a[0] == 'fl' or b[0] == 'fl':
            t = 'long double'
        return T(('op', op, a, b), t)

    def it_move(self, a):
        r = ('it', a[1], ('m', self.fresh()))
        TYPES.setdefault(r, TYPES.get(a, ''))
        return r

    def x_u(self, e):
        _, line, op, sub = e
        if op == '!':
            return neg(self.truth(self.x(sub), ''))
        if op in ('++', '--', '++post', '--post'):
            loc = self.lv(sub)
            if loc is None:
                return ('lv', self.fresh(), 'u')
            old = self.load(loc)
            if old[0] == 'it':
                nv = self.it_move(old)
                self.ev('advance', line, old, nv, op)
            else:
                nv = self.arith('+' if op[0] == '+' else '-', old, ('n', 1))
            self.store(loc, nv, line, op)
            return old if op.endswith('post') else nv
        if op == '*':
            v = self.x(sub)
            if v[0] == 'it':
                return self.deref_it(v)
            return v
        if op == '&':
            loc = self.lv(sub)
            return self.x(sub)
        if op == '-':
            v = self.x(sub)
            if v[0] == 'n':
                return ('n', -v[1])
            return T(('op', 'neg', v, v), type_of(v))
        return self.x(sub)

    def x_cond(self, e):
        c = self.x(e[2])
        if not self.alive:
            return c
        opc, oenv = self.pc, self.env
        self.env = dict(oenv)
        self.pc = self.add(opc, c)
        a = self.x(e[3])
        al1, e1 = self.alive, self.env
        self.pc = self.add(opc, neg(c))
        self.env = dict(oenv)
        self.alive = True
        b = self.x(e[4])
        al2, e2 = self.alive, self.env
        self.pc = opc
        self.alive = al1 or al2
        if al1 and al2:
            self.env = oenv if e1 == oenv and e2 == oenv else self.merge_env([(c, e1), (neg(c), e2)])
            return ite(c, a, b)
        if al1:
            self.pc = self.add(opc, c)
            self.env = e1
            return a
        self.pc = self.add(opc, neg(c))
        self.env = e2
        return b

    def x_throw(self, e):
        v = self.x(e[2]) if e[2] is not None else ('rethrow',)
        self.ev('throw', e[1], v, e[3])
        self.alive = False
        return ('void',)

    def x_il(self, e):
        ts = [self.x(c) for c in e[3] if c is not None]
        if len(ts) == 1 and not is_cont(e[2]) and not self.P.rec.get(bare(e[2])) and '[' not in e[2]:
            return ts[0]
        if not ts and bare(e[2]) in ('int', 'long', 'unsigned long', 'size_t', 'unsigned int', 'short', 'double', 'long double'):
            return ('n', 0)
        if not ts and bare(e[2]) == 'bool':
            return FALSE
        return T(('val', bare(e[2]), tuple(ts)), e[2])

    def x_new(self, e):
        args = ()
        if e[3] is not None:
            v = self.x(e[3])
            args = v[3] if v[0] == 'new' and len(v) > 3 else v[2] if v[0] == 'val' else (v,)
        return T(('new', bare(e[2]), ('new', self.stack[-1].qn, e[1], self.fresh()), args), e[2] + ' *')

    def x_del(self, e):
        v = self.x(e[2])
        self.ev('delete', e[1], v)
        return ('void',)

    def x_sub(self, e):
        b, i = self.x(e[2]), self.x(e[3])
        self.ev('index', e[1], b, i)
        if i[0] == 'idx' and i[1] == b:
            return ('elem', b, i[2])
        return ('at', b, i)

    def x_lam(self, e):
        return ('lam', Lam(self.fr, e, self.stack[-1]))

    def x_k(self, e):
        _, line, cls, fid, args, fl = e
        base, self.base_this = self.base_this, None
        c = bare(cls)
        if ('copy' in fl or 'move' in fl) and len(args) == 1:
            return self.x(args[0])
        ts = [self.x(a) for a in args if a is not None]
        ts = [t for t in ts if t != ('none',)]
        if c.startswith('std::basic_string<'):
            strs = [t for t in ts if not (t[0] == 'val' and t[1].startswith('std::allocator'))]
            if not strs:
                return ('s', '')
            if len(strs) == 1:
                return strs[0]
            return T(('val', c, tuple(strs)), c)
        if c.startswith(('std::shared_ptr<', 'std::unique_ptr<', 'std::weak_ptr<')):
            if not ts:
                return ('null',)
            return ts[0]
        if c.startswith(('std::iterator', '__gnu_cxx::__normal_iterator', 'std::_Rb', 'std::_List')) and len(ts) == 1:
            return ts[0]
        if c.startswith('std::optional<'):
            if not ts or ts[0] == ('g', 'std::nullopt'):
                return T(('val', c, ()), c)
            if len(ts) == 1 and type_of(ts[0]).startswith('std::optional<'):
                return ts[0]
            return T(('val', c, tuple(ts)), c)
        if c.startswith(('std::basic_stringstream<', 'std::basic_ostringstream<')):
            b = T(('sb', self.fresh()), c)
            strs = [t for t in ts if t[0] != 'e' and t[0] != 'n']
            self.env[b] = strs[0] if strs else ('s', '')
            return b
        if not c.startswith('std::allocator'):
            self.ev('ctor', line, c, tuple(ts), fid)
        f = self.P.fn.get(fid)
        if f is not None and self.ctor_inline and self.ctor_inline(f) and len(self.stack) < self.max_depth:
            if base is not None:
                obj = base
            else:
                obj = ('new', c, ('ctor', self.stack[-1].qn, line, self.fresh()), tuple(ts))
            self.enter_ctor(f, obj, ts, args)
            return obj
        return T(('val', c, tuple(ts)), c)

    def init_value(self, fld, e, obj):
        """value of a member initialiser; a base or delegated constructor builds the same object"""
        if fld.startswith('<') and e[0] == 'k':
            self.base_this = obj
        return self.x(e)

    def enter_ctor(self, f, obj, ts, argexprs):
        fr = Frame(f, obj)
        for i, (vid, name, ty) in enumerate(f.params):
            key = (fr.id, vid)
            fr.vars[vid] = ('cell', key)
            self.env[key] = ts[i] if i < len(ts) else T(('lv', self.fresh(), name), ty)
        self.stack.append(f)
        self.frames.append(fr)
        for fld, e, w in f.inits or ():
            v = self.init_value(fld, e, obj) if e else ('undef',)
            if not fld.startswith('<'):
                self.ev('assign', e[1] if e else f.line, ('f', obj, fld, f.cls), v, 'init')
        ob, self.brk = self.brk, []
        self.s(f.body)
        self.brk = ob
        self.alive = True
        self.frames.pop()
        self.stack.pop()

    def x_tm(self, e):
        return e[2]

    def x_ci(self, e):
        callee = self.x(e[2])
        if callee[0] == 'op' and callee[1] in ('.*', '->*'):
            r = self.member_pointer_call(callee[2], callee[3], e)
            if r is not None:
                return r
        ts = [self.x(a) for a in e[3]]
        if callee[0] == 'fnref':
            fid = callee[1]
            inf = self.P.info.get(fid)
            if inf is not None and 's' in inf[4] or inf is not None and not inf[1]:
                return self.repo_call(['c', e[1], fid, None, e[3]], fid, self.P.q(fid), None, e[3], e[1], inf)
        if callee[0] == 'lam':
            return self.call_lambda(callee[1], ts, e[1])
        self.ev('icall', e[1], callee, tuple(ts))
        return ('c', '<indirect>', callee, tuple(ts))

    def member_pointer_call(self, obj, fn, e):
        if fn[0] == 'ite':
            return None
        if fn[0] == 'fnref':
            inf = self.P.info.get(fn[1])
            if inf is not None:
                return self.repo_call(['c', e[1], fn[1], ['tm', e[1], obj], e[3]], fn[1], self.P.q(fn[1]), ['tm', e[1], obj], e[3], e[1], inf)
        return None

    def x_cl(self, e):
        callee = self.x(e[2])
        if callee[0] == 'lam':
            return self.call_lambda(callee[1], None, e[1], e[3])
        ts = [self.x(a) for a in e[3]]
        self.ev('icall', e[1], callee, tuple(ts))
        return ('c', '<lambda>', callee, tuple(ts))

    def call_lambda(self, lam, ts, line, argexprs=None):
        if len(self.stack) >= self.max_depth:
            self.imprecise += 1
            return ('lv', self.fresh(), 'deep')
        fr = Frame(lam.fn, None, parent=lam.frame)
        binds = []
        for i, (vid, name, ty) in enumerate(lam.node[2]):
            key = (fr.id, vid)
            loc = None
            if argexprs is not None and i < len(argexprs) and ty.endswith('&') and not ty.startswith('const '):
                loc = self.lv(argexprs[i])
            if loc is not None:
                binds.append((vid, loc, None, ty))
            else:
                v = ts[i] if ts is not None and i < len(ts) else self.x(argexprs[i]) if argexprs is not None and i < len(argexprs) else ('lv', self.fresh(), name)
                binds.append((vid, ('cell', key), v, ty))
        for vid, loc, v, ty in binds:
            fr.vars[vid] = loc
            fr.vtypes[vid] = ty
            if v is not None:
                self.env[loc[1]] = v
        return self.enter(fr, lam.fn, lam.node[3])

    def enter(self, fr, fn, body):
        opc, oloops = self.pc, self.loops
        self.stack.append(fn)
        self.frames.append(fr)
        ob, self.brk = self.brk, []
        self.s(body)
        if self.alive:
            fr.rets.append((self.pc, ('void',), self.env))
        self.brk = ob
        self.frames.pop()
        self.stack.pop()
        self.loops = oloops
        if not fr.rets:
            self.alive = False
            self.pc = opc
            return ('void',)
        self.alive = True
        n = len(opc)
        outs = []
        for pc, v, env in fr.rets:
            rel = pc[n:] if pc[:n] == opc else tuple(x for x in pc if x not in opc)
            outs.append((conj(rel), v, env, pc))
        self.env = self.merge_env([(c, e) for c, v, e, p in outs])
        self.pc = self.merge_pc(opc, [p for c, v, e, p in outs])
        v = outs[-1][1]
        for c, w, e, p in reversed(outs[:-1]):
            v = ite(c, w, v)
        if all(is_bool(w) or w == ('void',) for _, w, _, _ in outs) and len(outs) > 1:
            # exact: disjunction of the return paths
            v2 = disj([conj([c, w]) for c, w, e, p in outs])
            if size(v2) <= size(v):
                v = v2
        if size(v) > 900 * DEEP:
            self.imprecise += 1
            nv = ('lv', self.fresh(), 'result')
            TYPES.setdefault(nv, type_of(v))
            v = nv
        return v

    # ------------------------------------------------------------------ calls
    def x_c(self, e):
        _, line, fid, objx, argx = e[:5]
        q = self.P.q(fid)
        # smart pointer and cast-like calls are transparent
        if q in DEREF:
            return self.deref(self.x(objx if objx is not None else argx[0]), q)
        if q == 'std::shared_ptr::operator bool' or q == 'std::unique_ptr::operator bool':
            v = self.x(objx)
            return neg(('isnull', v)) if v[0] != 'new' else TRUE
        if q in OPT_DEREF:
            o = self.x(objx)
            self.ev('optderef', line, o)
            return ('f', o, '*', 'std::optional')
        if q in ('std::optional::operator bool', 'std::optional::has_value'):
            return ('has', self.x(objx))
        inf = self.P.info[fid]
        name = q.rsplit('::', 1)[-1]
        if objx is None and name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=') and 'r' not in inf[4]:
            a, b = self.x(argx[0]), self.x(argx[1])
            return self.binop(name[8:], a, b, line)
        if objx is not None and name in ('operator==', 'operator!=') and len(argx) == 1 and ('r' not in inf[4] or 'Iter' in inf[1]):
            a, b = self.x(objx), self.x(argx[0])
            return self.binop(name[8:], a, b, line)
        # iterators
        if objx is not None and name in BEGIN and not argx:
            o = self.x(objx)
            t = T(('it', o, ('b', self.fresh())), inf[3] and inf[3] or inf[3] == [] and inf[3] or '')
            TYPES[t] = inf[2] if False else inf[3] and '' or ''
            self.ev('begin', line, o, t)
            return t
        if objx is not None and name in END and not argx:
            return ('endit', self.x(objx))
        if objx is not None and q.startswith('std::iterator::') or (objx is not None and inf[1].startswith('ezxml::X') and 'Iterator' in inf[1]):
            r = self.iter_op(name, objx, argx, line, inf)
            if r is not None:
                return r
        if q in ('std::next', 'std::prev') and argx:
            a = self.x(argx[0])
            if a[0] == 'it':
                return self.it_move(a)
        if q in ('std::begin', 'std::cbegin'):
            return ('it', self.x(argx[0]), ('b', self.fresh()))
        if q in ('std::end', 'std::cend'):
            return ('endit', self.x(argx[0]))
        if q == 'std::make_shared' or q == 'std::make_unique':
            cls = pointee(inf[2]) if pointee(inf[2]) else inf[2]
            rt = self.P.info[fid][2]
            ts = tuple(self.x(a) for a in argx)
            r = ('new', bare(targs(rt)[0]) if targs(rt) else cls, ('mk', self.stack[-1].qn, line, self.fresh()), ts)
            self.ev('make', line, r)
            return r
        if q.startswith('std::') or q.startswith('__gnu'):
            r = self.std_call(q, name, fid, objx, argx, line, inf)
            if name == 'operator>>':
                self.extracted(q, argx)
            if r is not None:
                return r
        if name.startswith('operator ') and objx is not None and 'r' not in inf[4]:
            return self.x(objx)
        # calls of this repository
        return self.repo_call(e, fid, q, objx, argx, line, inf)

    def deref(self, v, q):
        if v[0] == 'it':
            return self.deref_it(v)
        return v

    def iter_op(self, name, objx, argx, line, inf):
        if name in ('operator->', 'operator*'):
            v = self.x(objx)
            if v[0] == 'it':
                self.ev('deref', line, v)
                return self.deref_it(v)
            if v[0] == 'endit':
                self.ev('deref', line, v)
            return ('elem', v, 0) if v[0] in ('arg', 'lv') else v
        if name in ('operator++', 'operator--', 'operator+=', 'operator-='):
            loc = self.lv(objx)
            old = self.load(loc) if loc else self.x(objx)
            nv = self.it_move(old) if old[0] == 'it' else ('it', ('after', old), ('m', self.fresh()))
            self.ev('advance', line, old, nv, name[8:])
            self.store(loc, nv, line, name[8:])
            return nv
        if name in ('operator+', 'operator-') and argx:
            v = self.x(objx)
            a = self.x(argx[0])
            if v[0] == 'it' and a[0] not in ('it', 'endit'):
                return self.it_move(v)
            return T(('op', name[8:], v, a), 'long')
        if name == 'operator=':
            v = self.x(argx[0])
            self.store(self.lv(objx), v, line)
            return v
        if name == 'operator[]':
            return None
        return None

    def out(self, line, o, v):
        if o[0] == 'sb' and o in self.env:
            if v[0] != 'fnref':
                self.env[o] = self.cat(self.env[o], v)
            return
        self.ev('out', line, o, v)

    def extracted(self, q, argx):
        """in >> x leaves x unknown"""
        if q.rsplit('::', 1)[-1] == 'operator>>' and 'istream' in q and argx:
            a = argx[-1]
            if a is not None and a[0] == 'v':
                loc = self.fr.lookup(a[2])
                if loc and loc[0] == 'cell':
                    self.env[loc[1]] = T(('lv', self.fresh(), a[3]), a[4] if len(a) > 4 and isinstance(a[4], str) else '')

    def std_call(self, q, name, fid, objx, argx, line, inf):
        if objx is not None:
            if name == 'operator()' and q.startswith('std::function'):
                o = self.x(objx)
                while o[0] == 'val' and len(o[2]) == 1:
                    o = o[2][0]
                if o[0] == 'lam':
                    return self.call_lambda(o[1], [self.x(a) for a in argx], line)
                if o[0] == 'fnref' and self.P.info.get(o[1]) is not None and not self.P.info[o[1]][1]:
                    return self.repo_call(['c', line, o[1], None, argx], o[1], self.P.q(o[1]), None, argx, line, self.P.info[o[1]])
            if name == 'str' and q.startswith('std::basic_'):
                o = self.x(objx)
                if o[0] == 'sb' and o in self.env:
                    if argx:
                        self.env[o] = self.x(argx[0])
                        return ('void',)
                    return self.env[o]
                return T(('c', q, o, tuple(self.x(a) for a in argx)), inf[2])
            if name == 'operator=':
                v = self.x(argx[0])
                self.store(self.lv(objx), v, line)
                return v
            if name == 'operator+=' or name in ('append', 'push_back') and len(argx) == 1 and 'string' in q:
                loc = self.lv(objx)
                v = self.x(argx[0])
                if loc is None:
                    return ('lv', self.fresh(), 'u')
                if loc[0] == 'cell' and 'string' in q and self.loops:
                    self.ev('append', line, loc[1], v)
                nv = self.cat(self.load(loc), v) if 'string' in q else self.arith('+', self.load(loc), v)
                self.store(loc, nv, line, '+=')
                return nv
            o = self.x(objx)
            if name == 'empty':
                if 'string' in q:
                    return mk_eq(o, ('s', ''))
                return ('empty', o)
            if name in ('size', 'length'):
                if 'string' in q:
                    return T(('len', o), 'unsigned long')
                return T(('size', o), 'unsigned long')
            if name in ('at', 'operator[]') and len(argx) == 1:
                i = self.x(argx[0])
                self.ev('index' if name != 'at' else 'at', line, o, i, q)
                if i[0] == 'idx' and i[1] == o:
                    return ('elem', o, i[2])
                return T(('at', o, i), value_type(type_of(o)) or inf[2])
            if name in ('front', 'back'):
                self.ev(name, line, o, q)
                return T(('at', o, (name,)), inf[2])
            if name == 'operator<<':
                v = self.x(argx[0])
                self.out(line, o, v)
                return o
            ts = tuple(self.x(a) for a in argx)
            if name == 'reset' and not ts and ('ptr' in q):
                self.store(self.lv(objx), ('null',), line)
                return ('void',)
            r = T(('c', q, o, ts), inf[2])
            self.ev('call', line, q, fid, o, ts, r)
            if 'c' not in inf[4] and name in ('clear', 'push_back', 'emplace_back', 'replace', 'insert', 'erase', 'pop_back', 'assign', 'resize', 'swap'):
                # a local container or string changes
                if objx[0] == 'v':
                    loc = self.lv(objx)
                    if loc and loc[0] == 'cell' and 'string' in q:
                        self.env[loc[1]] = T(('lv', self.fresh(), objx[3]), type_of(o))
            return r
        if q == 'std::operator<<' and len(argx) == 2:
            o = self.x(argx[0])
            v = self.x(argx[1])
            self.out(line, o, v)
            return o
        if q == 'std::operator+':
            a, b = self.x(argx[0]), self.x(argx[1])
            return self.cat(a, b)
        if q == 'std::to_string':
            return T(('c', q, None, (self.x(argx[0]),)), 'std::string')
        if q in ('std::for_each',) and len(argx) == 3:
            b = self.x(argx[0])
            self.x(argx[1])
            f = self.x(argx[2])
            if b[0] == 'it' and f[0] == 'lam':
                olo, opc = self.loops, self.pc
                lid = ('for', line, self.stack[-1].qn, b[1], self.fresh())
                self.loops = olo + (lid,)
                self.havoc(self.assigned(f[1].node[3]))
                self.call_lambda(f[1], [('elem', b[1], lid[4])], line)
                self.alive = True
                self.havoc(self.assigned(f[1].node[3]))
                self.loops, self.pc = olo, opc
                return f
        if q in ('std::any_of', 'std::all_of', 'std::none_of') and len(argx) == 3:
            # over a list that is written out, this is the disjunction or conjunction of its items
            b, e, f = self.x(argx[0]), self.x(argx[1]), self.x(argx[2])
            if b[0] == 'it' and b[1][0] == 'val' and b[2] == ('b', 1) and e[0] == 'endit' and e[1] == b[1] and f[0] == 'lam' \
                    and isinstance(b[1][2], tuple) and len(b[1][2]) <= 64:
                rs = [self.call_lambda(f[1], [i], line) for i in b[1][2]]
                return conj(rs) if q == 'std::all_of' else disj(rs) if q == 'std::any_of' else neg(disj(rs))
            r = T(('c', q, None, (b, e, f)), inf[2])
            self.ev('call', line, q, fid, None, (b, e, f), r)
            return r
        if q in ('std::find_if', 'std::find'):
            b = self.x(argx[0])
            for a in argx[1:]:
                self.x(a)
            if b[0] == 'it':
                r = ('it', b[1], ('find', self.fresh()))
                self.ev('find', line, r)
                return r
        if q == 'std::swap' and len(argx) == 2:
            la, lb = self.lv(argx[0]), self.lv(argx[1])
            va, vb = self.x(argx[0]), self.x(argx[1])
            self.store(la, vb, line)
            self.store(lb, va, line)
            return ('void',)
        ts = tuple(self.x(a) for a in argx)
        if q in ('std::min', 'std::max') and len(ts) == 2:
            return T((name, ts[0], ts[1]), inf[2])
        r = T(('c', q, None, ts), inf[2])
        self.ev('call', line, q, fid, None, ts, r)
        self.written(ts, r)
        self.clobber(argx, inf)
        return r

    def cat(self, a, b):
        pa = a[1:] if a[0] == 'cat' else (a,)
        pb = b[1:] if b[0] == 'cat' else (b,)
        out = []
        for x in pa + pb:
            if x[0] == 'ch':
                x = ('s', chr(x[1]))
            if x[0] == 's' and out and out[-1][0] == 's':
                out[-1] = ('s', out[-1][1] + x[1])
            elif x != ('s', ''):
                out.append(x)
        if not out:
            return ('s', '')
        if len(out) == 1:
            return out[0]
        return T(('cat',) + tuple(out), 'std::string')

    def written(self, ts, r):
        """a call that is handed a string stream adds text of its own to it"""
        for t in ts:
            if t[0] == 'sb' and t in self.env:
                self.env[t] = self.cat(self.env[t], T(('written', r), 'std::string'))

    def clobber(self, argx, inf):
        """variables passed by mutable reference to something opaque become unknown"""
        for a, t in zip(argx, inf[3]):
            if t.endswith('&') and not t.startswith('const ') and not t.endswith('&&') and a is not None and a[0] == 'v':
                loc = self.fr.lookup(a[2])
                if loc and loc[0] == 'cell':
                    old = self.env.get(loc[1])
                    if old is not None and 'basic_ostream' not in t and 'basic_istream' not in t and 'XElement' != t:
                        if old[0] in ('new',):
                            continue
                        if old[0] == 'it':
                            self.env[loc[1]] = self.it_move(old)
                        elif old[0] in ('arg',) and not self.scalar(t):
                            continue
                        else:
                            self.env[loc[1]] = T(('lv', self.fresh(), a[3]), bare(t))

    def scalar(self, t):
        return bare(t) in ('bool', 'int', 'long', 'double', 'long double', 'unsigned long', 'float', 'std::string') or bare(t).startswith('std::basic_string')

    def repo_call(self, e, fid, q, objx, argx, line, inf):
        P = self.P
        f = P.fn.get(fid)
        obj = None
        objloc = None
        if objx is not None:
            objloc = self.lv(objx)
            obj = self.load(objloc) if objloc is not None and objloc[0] == 'cell' else objloc[1] if objloc else self.x(objx)
            if obj[0] == 'it':
                obj = self.deref_it(obj)
            if 'v' in inf[4] and len(e) < 6:
                cls = bare(pointee(type_of(obj))) if type_of(obj) else inf[1]
                if not P.rec.get(cls) or not P.derives(cls, inf[1]):
                    cls = inf[1]
                g = P.devirt(fid, cls)
                if g is None and obj[0] in ('new',):
                    g = None
                f = g
            if not self.alive:
                return ('void',)
        # operator== / assignment of repo types without a body (implicit)
        name = q.rsplit('::', 1)[-1]
        if f is None and name == 'operator=' and objx is not None and len(argx) == 1:
            v = self.x(argx[0])
            self.store(self.lv(objx), v, line)
            return v
        can = f is not None and q not in self.opaque and f.qn not in self.opaque and not (self.opaque_fn and self.opaque_fn(f, obj)) and len(self.stack) < self.max_depth and sum(1 for s in self.stack if s.id == f.id) < 1
        if can:
            fr = Frame(f, obj if f.cls else None)
            ts, binds = [], []
            for i, (vid, pname, ty) in enumerate(f.params):
                ax = argx[i] if i < len(argx) else None
                key = (fr.id, vid)
                if ax is None:
                    binds.append((vid, ('cell', key), T(('lv', self.fresh(), pname), ty), ty))
                    ts.append(('none',))
                    continue
                loc = None
                if ty.endswith('&') and not ty.endswith('&&') and not ty.startswith('const '):
                    loc = self.lv(ax)
                if loc is not None:
                    ts.append(self.load(loc))
                    binds.append((vid, loc, None, ty))
                else:
                    v = self.x(ax)
                    ts.append(v)
                    binds.append((vid, ('cell', key), v, ty))
            if not self.alive:
                return ('void',)
            if self.inline(f, obj, ts):
                for vid, loc, v, ty in binds:
                    fr.vars[vid] = loc
                    fr.vtypes[vid] = ty
                    if v is not None:
                        self.env[loc[1]] = v
                self.inlined.add(f.id)
                return self.enter(fr, f, f.body)
            ts = tuple(ts)
        else:
            ts = tuple(self.x(a) for a in argx)
        if not self.alive:
            return ('void',)
        pure = 'c' in inf[4] or objx is None
        r = ('c', q, obj, ts)
        if bare(inf[2]) not in ('void',) and not pure and not (f is not None and self.is_getter(f)):
            pass
        T(r, inf[2])
        self.ev('call', line, q, fid, obj, ts, r)
        if 'n' in inf[4]:
            self.alive = False
        self.written(ts, r)
        self.clobber(argx, inf)
        return r

    def is_getter(self, f):
        return f.name.startswith('get')


class Lam:
    def __init__(self, frame, node, fn):
        self.frame, self.node, self.fn = frame, node, fn

    def __repr__(self):
        return 'lambda@%d' % self.node[1]

    def __lt__(self, o):
        return id(self) < id(o)


# ---------------------------------------------------------------------- evaluation of conditions
def evalf(t, asg):
    """three-valued: True / False / None.  asg(term) -> True/False/None for atoms"""
    k = t[0]
    if k == 'bo':
        return t[1]
    if k == 'not':
        r = evalf(t[1], asg)
        return None if r is None else not r
    if k == 'and':
        rs = [evalf(x, asg) for x in t[1:]]
        if any(r is False for r in rs):
            return False
        return True if all(r is True for r in rs) else None
    if k == 'or':
        rs = [evalf(x, asg) for x in t[1:]]
        if any(r is True for r in rs):
            return True
        return False if all(r is False for r in rs) else None
    if k == 'ite':
        c = evalf(t[1], asg)
        if c is True:
            return evalf(t[2], asg)
        if c is False:
            return evalf(t[3], asg)
        a, b = evalf(t[2], asg), evalf(t[3], asg)
        return a if a == b else None
    return asg(t)


def evalpc(pc, asg):
    rs = [evalf(x, asg) for x in pc]
    if any(r is False for r in rs):
        return False
    return True if all(r is True for r in rs) else None


def atoms(t, out=None):
    if out is None:
        out = []
    k = t[0]
    if k in ('not', 'and', 'or'):
        for x in t[1:]:
            atoms(x, out)
    elif k == 'ite':
        for x in t[1:]:
            if is_bool(x) or x[0] in ('f', 'c', 'lv', 'arg', 'has'):
                atoms(x, out)
    elif k != 'bo':
        if t not in out:
            out.append(t)
    return out


def subterms(t):
    """every term inside t (argument tuples are looked into)"""
    st = [t]
    while st:
        x = st.pop()
        if x and isinstance(x[0], str):
            yield x
        for c in x:
            if isinstance(c, tuple):
                st.append(c)


def must(pc):
    """literals that hold on every way of satisfying the condition (cheap under-approximation)"""
    out = set()

    def rec(x):
        if x[0] == 'and':
            for y in x[1:]:
                rec(y)
        elif x[0] == 'not' and x[1][0] == 'or':
            for y in x[1][1:]:
                rec(neg(y))
        elif x[0] == 'or':
            common = None
            for y in x[1:]:
                m = must((y,))
                common = m if common is None else common & m
            out.update(common or ())
            out.add(x)
        else:
            out.add(x)
    for x in pc:
        rec(x)
    return out


def decide(t, asg, limit=10):
    """evalf, but undecided atoms are split over both values: True only if t holds in every case, False only if in none"""
    r = evalf(t, asg)
    if r is not None:
        return r
    free = [a for a in atoms(t) if asg(a) is None]
    if len(free) > limit:
        return None
    seen = set()

    def rec(i, env):
        r = evalf(t, lambda x: env[x] if x in env else asg(x))
        if r is not None or i == len(free):
            seen.add(r)
            return
        for v in (True, False):
            env[free[i]] = v
            rec(i + 1, env)
            if len(seen) > 1:
                break
        del env[free[i]]
    rec(0, {})
    return seen.pop() if len(seen) == 1 else None
