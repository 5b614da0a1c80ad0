"""Optional parts and alternatives of document elements in the conversion layer: what is stored must be marked present,
what is looked at must have been found present. Forward analysis over each function, callees that get the element inlined."""
from .choice import Choices
from .fold import Unknown
from .prog import bare, walk
from .reach import Reach


class Presence:
    """which presence flag guards which accessors of an element, derived from what the element writes"""

    def __init__(self, P):
        self.P = P
        self.CH = Choices(P)
        self.memo = {}

    def of(self, cls):
        """({setter or getter of a flag: flag field}, {accessor: flag fields, one of which has to be set})"""
        if cls not in self.memo:
            self.memo[cls] = self.make(cls)
        return self.memo[cls]

    def make(self, cls):
        P = self.P
        if cls not in P.rec:
            return None
        st = [f for f in P.methods(cls, 'streamContents') if f.body is not None]
        if not st:
            return None
        flags = {}
        for f in P.methods(cls):
            if f.body is None or f.name.startswith('~'):
                continue
            if f.ret == 'void' and len(f.params) == 1 and f.ptypes[0] in ('bool', 'const bool'):
                got = set()

                def look(n):
                    if n[0] == 'b' and n[2] == '=' and n[3][0] == 'm' and n[3][2][0] == 'this' and n[4][0] == 'v' and n[4][2] == f.params[0][0]:
                        got.add(n[3][3])
                walk(f.body, look)
                if len(got) == 1:
                    flags[f.name] = got.pop()
        if not flags:
            return None
        hs = set(flags.values())
        guarded = {}
        for h in hs:
            on, off = self.written(st, {h: True}), self.written(st, {h: False})
            for x in on - off - hs:
                guarded.setdefault(x, set()).add(h)
        for f in P.methods(cls):
            if f.body is not None and not f.params and f.ret == 'bool':
                fs = self.CH.fields(f, set())
                if len(fs) == 1 and fs <= hs:
                    flags[f.name] = next(iter(fs))
        acc = {}
        for f in P.methods(cls):
            if f.body is None or f.name in flags or f.name in ('streamContents', 'fromXElementImpl', 'hasContents', 'hasAttributes', 'streamAttributes', 'streamName') or f.name.startswith('~') or f.name == cls.rsplit('::', 1)[-1]:
                continue
            fs = self.CH.fields(f, set())
            hit = [guarded[x] for x in fs if x in guarded]
            if hit and len(hit) == len(fs - hs):
                acc[f.name] = set.union(*hit)
        return flags, acc

    def written(self, st, val):
        P = self.P
        seen = set()

        def oracle(R, n, env):
            if n[0] == 'm' and n[3] in val and n[2] and n[2][0] == 'this':
                return val[n[3]]
            return None

        def visit(R, n, env):
            if n[0] == 'c':
                for x in ([n[3]] if n[3] is not None else []) + (n[4] or []):
                    walk(x, lambda y: seen.add(y[3]) if y[0] == 'm' and y[2] and y[2][0] == 'this' else None)
                f = P.fn.get(n[2])
                if f is not None and f.cls == st[0].cls:
                    seen.update(self.CH.fields(f, set()))
            return env
        for f in st:
            R = Reach(P, oracle, None, visit)
            R.run(f, {})
            self.CH.loops(R, f, oracle, seen)
        return seen


def flag_of(P, owner, field):
    """the presence flag of an attribute"""
    r = P.rec.get(owner)
    if r is None:
        return None
    h = 'has' + field[:1].upper() + field[1:]
    x = P.fields(owner).get(h)
    return h if x is not None and x[1] == 'bool' else None


class Walk(Reach):
    """states: ('set',p,h) must value of a flag; ('may',p,h) a flag was decided; ('pend',...) stored, not yet marked;
    ('done',...) was pending and is decided; ('has',p,h) found present; ('choice',p); ('made',p); ('chg',p)"""

    def __init__(self, P, PR, root):
        Reach.__init__(self, P, None, None, self.seen)
        self.PR, self.CH, self.root = PR, PR.CH, root
        self.opt, self.alt = {}, {}
        self.stores, self.reads, self.alts = {}, {}, {}
        self.aside = None
        self.on, self.inlined, self.written = set(), set(), set()
        self.budget = 60000
        self.conds = []         # what decides whether the place at hand is reached
        self.mctx = {}          # (element, flag) -> what decides whether it is marked
        self.bools = {}

    # ---- paths carry what they stand for
    def path(self, n, env):
        while n and n[0] == 'cast':
            n = n[-1]
        if n and n[0] == 'c' and n[3] is None and n[4]:
            f = self.P.fn.get(n[2])
            e = single_return(f)
            if e is not None and 'mx' in f.qn:
                sub = {}
                for i, p in enumerate(f.params):
                    if i < len(n[4]):
                        q = self.path(n[4][i], env)
                        if q is not None:
                            sub[('path', p[0])] = q
                if sub:
                    return self.path(e, sub)
        p = Reach.path(self, n, env)
        if p is None or len(p) < 2 or not n:
            return p
        if n[0] == 'm' and isinstance(n[4], str):
            h = flag_of(self.P, n[4], n[3])
            if h:
                self.opt[p] = (p[:-1], frozenset([h]), n[4])
        elif n[0] == 'c' and n[3] is not None and isinstance(p[-1], str) and p[-1].endswith('()'):
            inf = self.P.info.get(n[2])
            if inf is not None and inf[1]:
                name = p[-1][:-2]
                pr = self.PR.of(inf[1])
                if pr is not None and name in pr[1]:
                    self.opt[p] = (p[:-1], frozenset(pr[1][name]), inf[1])
                ch = self.CH.of(inf[1])
                if ch is not None and name in ch[2]:
                    self.alt[p] = (p[:-1], frozenset(ch[2][name]), inf[1])
        return p

    def join(self, a, b):
        if a is None:
            return b
        if b is None or a is b:
            return a
        a, b = self.settle(a, b), self.settle(b, a)
        out = Reach.join(self, a, b)
        for x, y in ((a, b), (b, a)):
            for k, v in x.items():
                if isinstance(k, tuple) and k[0] in ('pend', 'may', 'chg', 'done', 'neg', 'weak', 'alt', 'badalt'):
                    if k[0] == 'pend' and k not in y and ('done',) + k[1:] in y:
                        continue
                    out[k] = v
        return out

    def settle(self, a, b):
        """before what is selected gets lost in a join: judge what was stored"""
        out = None
        for k, v in a.items():
            if isinstance(k, tuple) and k[0] == 'alt':
                c = a.get(('choice', k[1]))
                if c is not None and b.get(('choice', k[1])) != c:
                    out = out if out is not None else dict(a)
                    del out[k]
                    if c[1] not in k[2]:
                        out[('badalt',) + k[1:] + (c[1],)] = True
        return a if out is None else out

    def havoc(self, n, env):
        a = self.assigned(n)
        return {k: v for k, v in env.items() if k not in a}

    # ---- conditions
    def learn(self, c, env, yes):
        env = Reach.learn(self, c, env, yes)
        while c and c[0] == 'cast':
            c = c[-1]
        if c and c[0] == 'u' and c[2] == '!':
            return self.learn(c[3], env, not yes)
        if c and c[0] == 'b' and c[2] == ('&&' if yes else '||'):
            return self.learn(c[4], self.learn(c[3], env, yes), yes)
        fl = self.flag(c, env)
        if fl is not None:
            env = dict(env)
            env[('has',) + fl] = yes
            if yes:
                for i in range(2, len(fl[0]) + 1):
                    o = self.opt.get(fl[0][:i])
                    for h in o[1] if o is not None and len(o[1]) == 1 else ():
                        env[('has', o[0], h)] = True       # a part of an absent part is absent
        if c and c[0] == 'b' and c[2] in ('==', '!=') and (c[2] == '==') == yes:
            for x, y in ((c[3], c[4]), (c[4], c[3])):
                p = self.path(x, env)
                if p and p[-1] == 'getChoice()':
                    v = self.const(y, env)
                    if v is not None:
                        env = dict(env)
                        env[('choice', p[:-1])] = v
        return env

    def flag(self, c, env):
        """(element, flag) whose value this expression is"""
        if not c:
            return None
        p = self.path(c, env)
        if p is None or len(p) < 2:
            return None
        last = p[-1]
        if isinstance(last, str) and last.startswith('has') and not last.endswith('()'):
            return p[:-1], last
        if isinstance(last, str) and last.endswith('()'):
            n = c
            while n and n[0] == 'cast':
                n = n[-1]
            inf = self.P.info.get(n[2]) if n and n[0] == 'c' else None
            pr = self.PR.of(inf[1]) if inf is not None and inf[1] else None
            if pr is not None and last[:-2] in pr[0]:
                return p[:-1], pr[0][last[:-2]]
        if c[0] == 'v' and ('flag', c[2]) in env:
            return env[('flag', c[2])]
        return None

    def decl(self, d, env):
        vid, name, ty, init, fl = d
        # a value that is only put aside counts where it is used
        saved, self.aside = self.aside, [] if not ('*' in ty or 'shared_ptr' in ty or ty.endswith('&') and not ty.startswith('const ')) else self.aside
        mine = self.aside
        env = Reach.decl(self, d, env)
        self.aside = saved
        if mine and mine is not saved:
            env = dict(env)
            env[('lazy', len(self.stack), vid)] = tuple(mine)
        for k in [k for k in env if isinstance(k, tuple) and len(k) > 1 and isinstance(k[1], tuple) and k[1][:3] == ('v', len(self.stack), vid) and k[0] != 'path']:
            del env[k]
        if init is not None:
            x = init
            while x and x[0] in ('cast', 'k') and x[-1]:
                y = x[-1]
                x = y[0] if x[0] == 'k' and isinstance(y, list) and len(y) == 1 and isinstance(y[0], list) else y if x[0] == 'cast' else None
            if x and x[0] == 'c' and ('make' in self.P.q(x[2]) and not x[4]) and 'shared_ptr' in ty + (self.P.info.get(x[2]) or ['', '', ''])[2]:
                env[('made', ('v', len(self.stack), vid))] = True
            if ty in ('bool', 'const bool'):
                f = self.flag(init, env)
                if f is not None:
                    env[('flag', vid)] = f
        elif ty.startswith('mx::core::'):
            env[('made', ('v', len(self.stack), vid))] = True
        return env

    # ---- what decides
    def ex(self, n, env):
        if env is None or not isinstance(n, list) or not n or n[0] not in ('if', 'for', 'while', 'do', 'rf', 'sw'):
            return Reach.ex(self, n, env)
        self.conds.append({'if': lambda: n[3], 'for': lambda: n[3], 'while': lambda: n[2], 'do': lambda: n[3], 'rf': lambda: n[5], 'sw': lambda: n[3] if isinstance(n[3], list) else n[2]}[n[0]]())
        out = Reach.ex(self, n, env)
        self.conds.pop()
        return out

    def mention(self):
        """the data named by the conditions around the place at hand"""
        out = set()
        for c in self.conds:
            out |= self.named(c)
        return out

    def named(self, c):
        out = set()

        def look(n):
            if n[0] == 'm' or n[0] == 'c' and n[3] is not None and not n[4]:
                x, names = n, []
                while x and x[0] in ('m', 'c', 'cast') or x and x[0] == 'u' and x[2] == '*':
                    if x[0] == 'm':
                        names.append(x[3])
                        x = x[2]
                    elif x[0] == 'c':
                        if not self.P.q(x[2]).startswith('std::'):
                            names.append(self.P.q(x[2]).rsplit('::', 1)[-1])
                        x = x[3]
                    else:
                        x = x[-1]
                if names:
                    out.add('.'.join(reversed(names)))
                    return False
            if n[0] == 'v':
                out.add(n[2])
                out.update(self.decided(n[2]))
        if c:
            walk(c, look)
        return out

    def decided(self, v):
        """what the value of a local variable depends on"""
        if v in self.bools:
            return self.bools[v]
        self.bools[v] = set()
        out = set()
        for f in self.stack:
            around = []

            def look(n):
                if n[0] == 'd':
                    for d in n[2]:
                        if d[0] == v and d[3]:
                            out.update(self.named(d[3]))
                elif n[0] == 'b' and n[2].endswith('=') and n[2] not in CMPS and base_v(n[3]) == v:
                    out.update(self.named(n[4]))
                    for c in around:
                        out.update(self.named(c))
                elif n[0] == 'if':
                    around.append(n[3])
                    for x in n[2:]:
                        if isinstance(x, list):
                            walk(x, look)
                    around.pop()
                    return False
            walk(f.body, look)
        self.bools[v] = out
        return out

    # ---- events
    def seen(self, R, n, env):
        if n[0] == 'b':
            return self.assign(n, env)
        inf = self.P.info.get(n[2])
        if inf is None:
            return env
        name = self.P.q(n[2]).rsplit('::', 1)[-1]
        if n[3] is None:
            return env
        p = self.path(n[3], env)
        if p is None:
            return env
        cls = inf[1]
        pr = self.PR.of(cls) if cls else None
        ch = self.CH.of(cls) if cls else None
        if pr is not None and name in pr[0] and len(n[4] or []) == 1:
            return self.mark(p, pr[0][name], self.const(n[4][0], env), env, n)
        if name == 'setChoice' and ch is not None and n[4]:
            env = dict(env)
            v = self.const(n[4][0], env)
            env.pop(('choice', p), None)
            env[('chg', p)] = True
            if v is not None:
                env[('choice', p)] = v
            return env
        args = n[4] or []
        if 'c' not in inf[4] and (args and (name.startswith(('set', 'add', 'insert', 'push', 'emplace')) or name == 'operator=')):
            const = self.value(args[-1], env)
            if pr is not None and name in pr[1]:
                env = self.store(p, frozenset(pr[1][name]), env, n, name, cls, const)
            if ch is not None and name in ch[2]:
                env = self.choose(p, frozenset(ch[2][name]), env, n, name, cls)
            return self.touch(p, env, n, const)
        if 'c' in inf[4] and not args:
            if name in ('getValue', 'getValueString') or not name.startswith(('get', 'operator')):
                self.use(p, env, n)
        return env

    def assign(self, n, env):
        lhs = n[3]
        while lhs and lhs[0] == 'cast':
            lhs = lhs[-1]
        if not lhs or lhs[0] != 'm':
            return env
        p = self.path(lhs, env)
        if p is None:
            return env
        f = lhs[3]
        if f.startswith('has') and len(f) > 3:
            owner = lhs[4]
            if isinstance(owner, str) and any(flag_of(self.P, owner, x) == f for x in self.P.fields(owner)):
                return self.mark(p[:-1], f, self.const(n[4], env), env, n)
        return self.touch(p, env, n, self.value(n[4], env))

    def blank(self, n, env):
        """a value of a type as it is created"""
        while n and n[0] == 'cast':
            n = n[-1]
        if not n:
            return False
        if n[0] == 'k':
            # built from nothing but blank values and defaults
            return all(a is None or a[0] == 'dflt' or a[0] == 'k' and 'def' in str(a[5] if len(a) > 5 else '') or self.blank(a, env) for a in n[4] or [])
        return n[0] == 's' and not n[2] or n[0] == 'v' and ('blank', n[2]) in env

    def value(self, n, env):
        """what is stored: a constant, or the name of a value"""
        if self.blank(n, env):
            return ('const', '')
        v = self.const(n, env)
        if isinstance(v, (bool, int, float, str, tuple)):
            return ('const', v)
        return self.path(n, env) or ('?', self.stack[-1].qn, n[1] if n and len(n) > 1 else 0)

    def mark(self, p, h, v, env, n):
        env = dict(env)
        self.written.add(p)
        self.mctx.setdefault((p, h), set()).update(self.mention())
        for k in [k for k in env if isinstance(k, tuple) and k[0] == 'pend' and k[1] == p and h in k[2]]:
            d = env.pop(k)
            env[('done',) + k[1:]] = True
            if v is False:
                env[('neg',) + k[1:]] = d
            else:
                self.on.add((k[3], k[4], d))
        for k in [k for k in env if isinstance(k, tuple) and k[0] == 'weak' and k[1] == p and h in k[2]]:
            del env[k]
        if v is True:
            for k in [k for k in env if isinstance(k, tuple) and k[0] == 'neg' and k[1] == p and h in k[2]]:
                del env[k]
        env[('may', p, h)] = True
        env[('set', p, h)] = v if isinstance(v, bool) else '?'
        return env

    def touch(self, q, env, n, const):
        for i in range(2, len(q) + 1):
            o = self.opt.get(q[:i])
            if o is not None:
                env = self.store(o[0], o[1], env, n, q[i - 1], o[2], const)
            a = self.alt.get(q[:i])
            if a is not None:
                env = self.choose(a[0], a[1], env, n, q[i - 1], a[2])
        return env

    def site(self, n):
        f = self.stack[-1]
        return (f.qn, f.file, n[1])

    def store(self, p, hs, env, n, what, cls, const):
        s = self.site(n)
        self.stores[(s, what, cls)] = True
        self.written.add(p)
        env = dict(env)
        k = (p, hs, what, cls, s)
        if any(('may', p, h) in env for h in hs):
            vs = [env.get(('set', p, h)) for h in hs]
            if all(v is False for v in vs):
                env[('neg',) + k] = const
            else:
                env[('done',) + k] = True
                self.on.add((what, cls, const))
                why = self.mention()
                if why and not any(v in (True, '?') for v in vs) and not any(env.get(('has', p, h)) is True for h in hs) and all(self.mctx.get((p, h)) and not self.mctx[(p, h)] & why for h in hs if ('may', p, h) in env):
                    env[('weak',) + k] = const      # marked on some path before, but perhaps not on this one
            return env
        if any(env.get(('has', p, h)) is True for h in hs):
            return env
        env[('pend',) + k] = const
        return env

    def choose(self, p, alts, env, n, what, cls):
        s = self.site(n)
        self.alts[(s, what, cls)] = True
        env = dict(env)
        env[('alt', p, alts, what, cls, s)] = True
        return env

    def use(self, q, env, n):
        if q is None:
            return
        for i in range(2, len(q) + 1):
            o = self.opt.get(q[:i])
            if o is not None:
                s = self.site(n)
                ok = any(env.get(('has', o[0], h)) is True or env.get(('set', o[0], h)) in (True, '?') or ('may', o[0], h) in env for h in o[1])
                r = ((s, q[i - 1], o[2]), o[0], o[1])
                if not ok and self.aside is not None:
                    self.aside.append(r)
                self.reads.setdefault(r[0], [])
                if ok or self.aside is None:
                    self.reads[r[0]].append((ok, o[0]))

    def expr(self, n, env):
        if n is not None and isinstance(n, list) and n and env is not None:
            if n[0] == 'b' and n[2] in ('==', '!=') or n[0] == 'c' and self.P.q(n[2]).endswith(('operator==', 'operator!=')):
                # comparing does not take the value over: what is absent compares as what it means when absent
                saved, self.aside = self.aside, []
                env = self.expr_(n, env)
                self.aside = saved
                return env
        return self.expr_(n, env)

    def expr_(self, n, env):
        if n is not None and isinstance(n, list) and n and env is not None:
            if n[0] == 'm':
                self.use(self.path(n, env), env, n)
            if n[0] == 'v' and ('lazy', len(self.stack), n[2]) in env:
                for r, p, hs in env[('lazy', len(self.stack), n[2])]:
                    ok = any(env.get(('has', p, h)) is True or ('may', p, h) in env for h in hs)
                    if not ok and self.aside is not None:
                        self.aside.append((r, p, hs))
                    else:
                        self.reads[r].append((ok, p))
            if n[0] == 'b' and n[2] in ('&&', '||'):
                env = self.expr(n[3], env)
                v = self.truth_(n[3], env)
                if v is None:
                    return self.join(self.learn(n[3], dict(env), n[2] != '&&'), self.expr(n[4], self.learn(n[3], dict(env), n[2] == '&&')))
                return self.expr(n[4], env) if v == (n[2] == '&&') else env
            if n[0] == 'b' and n[2] == '=' and n[3][0] == 'm':
                env = self.expr(n[4], env)
                env = self.expr(n[3][2], env)
                return self.assign(n, env)
        return Reach.expr(self, n, env)

    def callx(self, n, env):
        obj, args = n[3], n[4] or []
        keep = env
        g = self.P.fn.get(n[2])
        depth = len(self.stack)
        if g is None or g.body is None or not g.qn.startswith('mx::impl::') or g in self.stack or depth > 10 or not self.tracked(g, obj, args, env):
            saved, self.into = self.into, None
            out = Reach.callx(self, n, env)
            self.into = saved
            return out
        self.inlined.add(g.id)
        # inlined: everything known goes in and comes back, without what belongs to the callee's variables
        if obj is not None:
            env = self.expr(obj, env)
        for a in args:
            env = self.expr(a, env)
        e = {k: v for k, v in env.items() if isinstance(k, tuple) and k[0] not in ('path', 'flag', 'blank')}
        for i, p in enumerate(g.params):
            if i < len(args):
                v = self.const(args[i], env)
                if v is not None:
                    e[p[0]] = v
                if self.blank(args[i], env):
                    e[('blank', p[0])] = True
                q = self.path(args[i], env)
                if q is not None:
                    e[('path', p[0])] = q
                f = self.flag(args[i], env) if g.ptypes[i] in ('bool', 'const bool') else None
                if f is not None:
                    e[('flag', p[0])] = f
        if obj is not None:
            q = self.path(obj, env)
            if q is not None:
                e[('path', 'this')] = q
        out = self.run(g, e)
        if out is None:
            return {k: v for k, v in env.items() if isinstance(k, tuple)}
        res = {k: v for k, v in env.items() if not isinstance(k, tuple) or k[0] in ('path', 'flag', 'blank')}
        for k, v in out.items():
            if isinstance(k, tuple) and k[0] not in ('path', 'flag', 'blank') and not (len(k) > 1 and isinstance(k[1], tuple) and k[1][:1] == ('v',) and k[1][1] > depth):
                res[k] = v
        return res

    def tracked(self, g, obj, args, env):
        for i, a in enumerate(args):
            t = g.ptypes[i] if i < len(g.ptypes) else ''
            if ('mx::core::' in t or t == 'bool') and self.path(a, env) is not None:
                return True
        return obj is not None and g.cls == self.stack[-1].cls and g.cls is not None and self.path(obj, env) is not None and self.path(obj, env)[0] in ('this', 'v')

    def result(self):
        env = self.run(self.root, {})
        return env or {}


CMPS = ('==', '!=', '<=', '>=')


def base_v(n):
    while n and n[0] == 'cast':
        n = n[-1]
    return n[2] if n and n[0] == 'v' else None


def single_return(f):
    if f is None or f.body is None or f.body[0] != '{' or len(f.body[2]) != 1 or f.body[2][0][0] != 'ret':
        return None
    return f.body[2][0][2]
