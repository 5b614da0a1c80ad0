"""P09: reading failures are reported, never swallowed."""
from ..core import *


def run(rep, P):
    rep.rule('propagated', 'when a part reports failure, the reader of the enclosing element returns failure on every path that follows', 700)
    rep.rule('complained', 'a reader that complains about a child or attribute that no branch accepts returns failure', 30)
    rep.rule('load-throws', 'a document that cannot be parsed makes loading throw', 1)
    rep.rule('registered-after-success', 'a document is registered only after it was read with success, and failure throws', 1)
    M = Model(P)
    for c in M.elements + M.attrs:
        f = M.method(c, 'fromXElementImpl')
        if f is None or f.cls != c:
            continue
        w = M.reader(c)
        if w is not None:
            reader(rep, P, c.rsplit('::', 1)[-1], f, w)
    for f in sorted(P.fn.values(), key=lambda f: (f.file, f.line)):
        if f.body is not None and f.cls == 'mx::core::Document' and f.name.startswith('fromX'):
            w = Walker(inline=M.inline, opaque_fn=M.opaque_fn)
            w.run(f, this=('this', f.cls))
            reader(rep, P, 'Document', f, w)
    loading(rep, P)
    registering(rep, P, M)


def success_call(P, e):
    """a call whose truth value says whether a part was read"""
    if e.kind != 'call':
        return False
    inf = P.info.get(e.a[1])
    n = e.a[0].rsplit('::', 1)[-1]
    return inf is not None and inf[2] == 'bool' and e.a[0].startswith('mx::') and n.startswith(('fromX', 'parse', 'import')) and not is_value_class(P, inf[1])


def unknown(e):
    """no name that is known matches: the child or attribute it is about"""
    pos, negs = set(), set()
    for l in must(e.pc):
        v, x = (False, l[1]) if l[0] == 'not' else (True, l)
        if x[0] == 'eq' and x[1][0] == 'c' and x[1][1].endswith('::getName') and x[2][0] == 's':
            (pos if v else negs).add(x[1])
    for x in negs - pos:
        return x
    return None


class Flow:
    """what is known after an event, under the assumption that one term is false"""

    def __init__(self, w, E, false=None):
        self.w, self.E, self.false = w, E, false
        self.facts = {}
        for l in must(E.pc):
            if l[0] == 'not':
                self.facts[l[1]] = False
            else:
                self.facts[l] = True
        if false is not None:
            self.facts[false] = False
        self.ors = [frozenset(l[1:]) for l in self.facts if l[0] == 'or' and self.facts[l]]
        self.names = {}
        for l, v in self.facts.items():
            if v and l[0] == 'eq' and l[2][0] in ('s', 'e', 'n'):
                self.names[l[1]] = l[2]
        self.sets = {}
        for e in w.events:
            if e.kind == 'set':
                self.sets.setdefault(e.a[0], []).append(e)
        self.memo = {}

    def atom(self, x, assume=(), facts=True):
        if x in assume:
            return False
        if facts:
            if x in self.facts:
                return self.facts[x]
            if x[0] == 'eq' and x[1] in self.names and x[2][0] == self.names[x[1]][0]:
                return x[2] == self.names[x[1]]
            if x == self.false:
                return False
        if x[0] == 'lv' and x in self.w.lvcell:
            return False if self.lvfalse(x, assume) else None
        return None

    def val(self, t, assume=(), facts=True):
        k = t[0]
        if facts and k in ('and', 'or'):
            if t in self.facts:
                return self.facts[t]
            if k == 'or' and any(o <= set(t[1:]) for o in self.ors):
                return True
            if k == 'and' and any(o <= {neg(x) for x in t[1:]} for o in self.ors):
                return False
        if k == 'not':
            r = self.val(t[1], assume, facts)
            return None if r is None else not r
        if k in ('and', 'or'):
            rs = [self.val(x, assume, facts) for x in t[1:]]
            if (k == 'or') in rs:
                return k == 'or'
            return None if None in rs else k != 'or'
        if k == 'ite':
            c = self.val(t[1], assume, facts)
            if c is not None:
                return self.val(t[2] if c else t[3], assume, facts)
            a, b = self.val(t[2], assume, facts), self.val(t[3], assume, facts)
            return a if a == b else None
        return evalf(t, lambda x: self.atom(x, assume, facts))

    def sure(self, l):
        r = self.val(l)
        return r is True or r is None and decide(l, self.atom, 12) is True

    def lvfalse(self, x, assume):
        key = (x, tuple(sorted(map(str, assume))))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        cell, old, tag = self.w.lvcell[x]
        r = False
        if tag:
            ph, L = tag
            if ph == 'in':
                r = self.val(old, assume) is False and self.preserved(cell, L, x)
            else:
                r = self.failset(cell, L) or old in self.w.lvcell and self.val(old, assume) is False
        self.memo[key] = r
        return r

    def inloop(self, cell, L):
        return [s for s in self.sets.get(cell, ()) if L in s.loops]

    def entry(self, cell, L):
        return next((x for x, (c, o, t) in self.w.lvcell.items() if c == cell and t == ('in', L)), None)

    def preserved(self, cell, L, lv):
        key = ('pres', cell, L)
        if key not in self.memo:
            self.memo[key] = True
            self.memo[key] = all(self.val(s.a[1], (lv,), False) is False for s in self.inloop(cell, L))
        return self.memo[key]

    def failset(self, cell, L):
        """the variable is false at the end of a pass of the loop in which the event happened, and stays so"""
        E = self.E
        if L not in E.loops:
            return False
        lv = self.entry(cell, L)
        if lv is None or not self.preserved(cell, L, lv):
            return False
        deeper = E.loops[E.loops.index(L) + 1:]
        hit = bool(deeper) and self.failset(cell, deeper[0])
        for s in self.inloop(cell, L):
            if s.loops[:len(E.loops)] != E.loops[:len(s.loops)] and not (set(s.loops) <= set(E.loops)):
                continue
            if self.false is not None and s.seq < E.seq:
                continue
            if any(not self.sure(l) for l in s.pc):
                continue
            if self.val(s.a[1]) is False:
                hit = True
        return hit

    def escapes(self):
        """a return that says success although the event happened"""
        E, w = self.E, self.w
        inner = set(E.loops)
        for e in w.events:
            if e.kind != 'ret' or len(e.stack) > 1:
                continue
            v = e.a[0]
            if v[0] == 'void':
                continue
            again = bool(inner & set(e.loops))
            if e.seq > E.seq:
                if any(self.val(l) is False for l in e.pc):
                    pass
                elif self.val(v) is not False and not (again and self.later(v, e)):
                    return e
                elif all(self.val(l) is True for l in e.pc):
                    return None        # always ends here
            if again and e.seq < E.seq and not self.later(v, e):
                return e
        return None

    def later(self, v, e):
        """the value returned by a later pass of a loop that both are in"""
        lvs = tuple(x for x, (c, o, t) in self.w.lvcell.items() if t and t[0] == 'in' and t[1] in e.loops and t[1] in self.E.loops and self.failset(c, t[1]))
        return evalf(v, lambda x: self.atom(x, lvs, False)) is False


def must(pc):
    from ..sym import must as m
    return m(pc)


def reader(rep, P, short, f, w):
    rep.saw(f)
    if not any(e.kind == 'ret' and len(e.stack) == 1 for e in w.events):
        return
    n = {}
    seen = set()
    for e in w.events:
        if success_call(P, e):
            r = e.a[4]
            what = show(e.a[2] if e.a[2] is not None else r)[:40]
            what = re.sub(r'^this\.', '', what)
            n[what] = n.get(what, 0) + 1
            esc = Flow(w, e, r).escapes()
            key = '%s:%s' % (short, what)
            if esc is None:
                rep.ok('propagated', key)
            else:
                rep.bad('propagated', key, e.where, '%s: when reading %s fails, the reader can still return %s (line %d)' % (short, what, show(esc.a[0])[:60], esc.line))
        elif e.kind == 'out' and is_message(e.a[0]) and unknown(e) is not None:
            k = (e.pc, e.loops)
            if k in seen:
                continue
            seen.add(k)
            esc = Flow(w, e).escapes()
            txt = e.a[1][1] if e.a[1][0] == 's' else show(e.a[1])
            key = '%s:%d' % (short, len(seen))
            if esc is None:
                rep.ok('complained', '%s: %s' % (short, txt[:40]))
            else:
                rep.bad('complained', '%s:%s' % (short, slug(w, e)), e.where, '%s complains (%s) but can return %s (line %d)' % (short, slug(w, e), show(esc.a[0])[:60], esc.line))


def slug(w, e):
    out = []
    for x in w.events:
        if x.kind == 'out' and x.pc == e.pc and x.loops == e.loops and x.a[0] == e.a[0] and x.a[1][0] == 's':
            out.append(x.a[1][1])
    return re.sub(r'[^A-Za-z0-9]+', '-', ''.join(out)).strip('-')[:60]


def is_message(o):
    return o[0] == 'arg' and o[2] == 'message' or o[0] == 'arg' and o[1] == 0 and 'fromX' in o[3]


def thrown(w, hyp):
    """the function surely throws when the terms of hyp have the given values; False, with the event that escapes, if it can return"""
    def atom(x):
        for f in hyp:
            r = f(x)
            if r is not None:
                return r
        return None
    live = [e for e in w.events if (e.kind == 'throw' or e.kind == 'ret' and len(e.stack) == 1) and decide(all_(e.pc), atom, 12) is not False]
    for e in live:
        if e.kind == 'throw' and decide(all_(e.pc), atom, 12) is True:
            return True
        if e.kind == 'ret':
            break
    # no single throw covers it: every way out has to be one
    out = [neg(all_(e.pc)) for e in live if e.kind == 'throw']
    return bool(out) and decide(all_(out), atom, 16) is False


def all_(pc):
    pc = list(pc)
    return ('b', True) if not pc else pc[0] if len(pc) == 1 else ('and',) + tuple(pc)


def loading(rep, P):
    """functions of the XML layer that parse what a parameter names"""
    for f in sorted(P.fn.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or not f.qn.startswith('ezxml::') or 'k' in f.flags or f.cls and f.cls.startswith('pugi'):
            continue
        if not f.ptypes or 'v' not in f.flags:
            continue
        w = Walker(inline=lambda g, o, t: g.qn.startswith('ezxml::'))
        try:
            w.run(f, this=('this', f.cls) if f.cls else None)
        except RecursionError:
            rep.skip('load-throws', f.qn, 'too large')
            continue
        for e in w.events:
            if e.kind != 'call' or not mentions_arg(e.a):
                continue
            n = e.a[0]
            if n.startswith('pugi::') and n.rsplit('::', 1)[-1].startswith('load'):
                r = e.a[4]
                ok = thrown(w, [lambda x: parse_failed(x, r)])
            else:
                continue
            rep.saw(f)
            key = f.qn.split('::', 1)[-1]
            if ok:
                rep.ok('load-throws', key)
            else:
                rep.bad('load-throws', key, e.where, '%s can return although the text could not be parsed' % f.qn)


def mentions_arg(t):
    if isinstance(t, tuple):
        return bool(t) and t[0] in ('arg', 'at') and t[0] == 'arg' or any(mentions_arg(x) for x in t)
    return isinstance(t, list) and any(mentions_arg(x) for x in t)


def within(t, r):
    return t == r or isinstance(t, tuple) and any(within(x, r) for x in t)


def parse_failed(x, r):
    if x[0] == 'eq' and within(x[1], r) and x[2][0] in ('e', 'n'):
        if 'status_ok' in str(x[2]) or x[2] == ('n', 0):
            return False
        return None
    if x == r or x[0] == 'c' and 'operator bool' in x[1] and within(x, r):
        return False
    return None


def registering(rep, P, M):
    for f in sorted(P.fn.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or f.cls != 'mx::api::DocumentManager':
            continue
        w = Walker(inline=lambda g, o, t: not (g.cls or '').startswith(('mx::core', 'mx::impl', 'ezxml', 'pugi')))
        w.run(f, this=('this', f.cls))
        reads = [e for e in w.events if e.kind == 'call' and e.a[0] == 'mx::core::Document::fromXDoc']
        if not reads:
            continue
        rep.saw(f)
        for e in reads:
            r = e.a[4]
            key = f.name
            if not thrown(w, [lambda x: False if x == r else None]):
                rep.bad('registered-after-success', key, e.where, '%s can return although the document could not be read' % f.qn)
                continue
            bad = None
            for s in w.events:
                if s.kind in ('assign', 'set', 'index', 'mcall', 'insert') and 'myMap' in str(s.a[0]):
                    if s.seq < e.seq or decide(all_(s.pc), lambda x: False if x == r else None, 12) is not False:
                        bad = s
                        break
            if bad is not None:
                rep.bad('registered-after-success', key, bad.where, '%s registers the document without knowing that it was read' % f.qn)
            else:
                rep.ok('registered-after-success', key)
