"""Which calls a function can reach when some of its inputs are known constants, and what is known where it makes them:
forward constant propagation over the syntax tree with joins, branches on known conditions are taken, others both ways."""
from .fold import Fold, Unknown, Thrown, Seq
from .prog import walk


class Reach(Fold):
    def __init__(self, P, oracle=None, into=None, visit=None):
        Fold.__init__(self, P)
        self.oracle, self.into, self.visit = oracle, into, visit
        self.loops = []
        self.stack = []
        self.refs = set()
        self.budget = 400000

    # ---- folding with the given constants
    def ev(self, n, env, depth):
        if self.oracle is not None and n[0] in ('m', 'c', 'v', 'u'):
            v = self.oracle(self, n, env)
            if v is not None:
                return v
        return Fold.ev(self, n, env, depth)

    def const(self, n, env):
        self.steps = 0
        try:
            e = dict(env)
            return self.ev(n, e, 10)
        except (Unknown, Thrown, RecursionError):
            return None

    # ---- paths: a value's name
    def path(self, n, env):
        while n and n[0] == 'cast':
            n = n[-1]
        if not n:
            return None
        k = n[0]
        if k == 'v':
            return env.get(('path', n[2])) or ('v', len(self.stack), n[2])
        if k == 'this':
            return env.get(('path', 'this')) or ('this',)
        if k == 'u' and n[2] in ('*', '&'):
            return self.path(n[3], env)
        if k == 'm':
            b = self.path(n[2], env)
            return b + (n[3],) if b else None
        if k == 'c':
            name = self.P.q(n[2]).rsplit('::', 1)[-1]
            if name in ('operator*', 'operator->', 'get') and n[3] is not None and not n[4]:
                return self.path(n[3], env)
            if name in ('move', 'forward', 'ref', 'cref') and n[3] is None and n[4]:
                return self.path(n[4][0], env)
            if n[3] is not None and not n[4]:
                b = self.path(n[3], env)
                return b + (name + '()',) if b else None
        if k == 'k' and n[4] and len(n[4]) == 1:
            return self.path(n[4][0], env)
        return None

    # ---- statements: env or None
    def run(self, f, env):
        self.stack.append(f)
        saved, self.loops = self.loops, []
        rets = []
        self.rets = getattr(self, 'rets', [])
        self.rets.append(rets)
        out = self.ex(f.body, env)
        self.rets.pop()
        self.loops = saved
        self.stack.pop()
        res = [e for e in rets + [out] if e is not None]
        r = None
        for e in res:
            r = self.join(r, e)
        return r

    def join(self, a, b):
        if a is None:
            return b
        if b is None or a is b:
            return a
        out = {}
        for k, v in a.items():
            if k in b:
                w = b[k]
                try:
                    if v is w or type(v) is type(w) and v == w:
                        out[k] = v
                except Exception:
                    pass
        return out

    def ex(self, n, env):
        if n is None or env is None:
            return env
        self.budget -= 1
        if self.budget < 0:
            raise Unknown('budget')
        k = n[0]
        if k == '{':
            for c in n[2]:
                env = self.ex(c, env)
                if env is None:
                    return None
            return env
        if k == 'd':
            for d in n[2]:
                env = self.decl(d, env)
            return env
        if k == 'if':
            if n[2] is not None:
                env = self.ex(n[2], env)
            return self.split(n[3], env, lambda e: self.ex(n[4], e), lambda e: self.ex(n[5], e) if n[5] is not None else e)
        if k == 'ret':
            if n[2] is not None:
                env = self.expr(n[2], env)
            self.rets[-1].append(env)
            return None
        if k == 'throw':
            return None
        if k == 'brk':
            if self.loops:
                self.loops[-1][0].append(env)
            return None
        if k == 'cnt':
            for l in reversed(self.loops):
                if l[2]:
                    l[1].append(env)
                    break
            return None
        if k == 'sw':
            return self.switch_(n, env)
        if k in ('case', 'dflt'):
            return self.ex(n[-1], env)
        if k in ('for', 'while', 'do', 'rf'):
            return self.loop_(n, env)
        if k == 'try':
            out = self.ex(n[2], dict(env))
            for h in n[3]:
                out = self.join(out, self.ex(h[2], self.havoc(n[2], env)))
            return out
        return self.expr(n, env)

    def decl(self, d, env):
        vid, name, ty, init, fl = d
        env = dict(env)
        env.pop(vid, None)
        env.pop(('path', vid), None)
        if '*' in ty or 'shared_ptr' in ty or 'iterator' in ty:
            self.refs.add((self.stack[-1].id, vid))
        if init is None:
            return env
        env = self.expr(init, env)
        env = dict(env)
        v = self.const(init, env)
        if v is not None:
            env[vid] = v
        if ty.endswith('&') or '*' in ty or 'shared_ptr' in ty or 'iterator' in ty:
            self.refs.add((self.stack[-1].id, vid))
            p = self.path(init, env)
            if p is not None:
                env[('path', vid)] = p
        return env

    def split(self, cond, env, then, other):
        c = cond
        while c and c[0] == 'cast':
            c = c[-1]
        if c and c[0] == 'u' and c[2] == '!':
            return self.split(c[3], env, other, then)
        if c and c[0] == 'b' and c[2] in ('&&', '||'):
            # evaluate in order; both ways where it is open
            v = self.truth_(cond, env)
            if v is None:
                if c[2] == '&&':
                    f_env = []

                    def no(e):
                        f_env.append(e)
                        return None
                    t = self.split(c[3], env, lambda e: self.split(c[4], e, then, no), no)
                    f = None
                    for e in f_env:
                        f = self.join(f, e)
                    return self.join(t, other(f) if f is not None else None)
                t_env = []

                def yes(e):
                    t_env.append(e)
                    return None
                f = self.split(c[3], env, yes, lambda e: self.split(c[4], e, yes, other))
                t = None
                for e in t_env:
                    t = self.join(t, e)
                return self.join(f, then(t) if t is not None else None)
        env = self.expr(cond, env)
        v = self.truth_(cond, env)
        if v is True:
            return then(dict(env))
        if v is False:
            return other(dict(env))
        return self.join(then(self.learn(c, dict(env), True)), other(self.learn(c, dict(env), False)))

    def learn(self, c, env, yes):
        """what an open condition says about a value when it holds"""
        if c and c[0] == 'b' and c[2] in ('==', '!=') and (c[2] == '==') == yes:
            for a, b in ((c[3], c[4]), (c[4], c[3])):
                v = self.const(b, env)
                if v is not None and isinstance(v, (tuple, bool, int)):
                    while a and a[0] == 'cast':
                        a = a[-1]
                    if a and a[0] == 'v':
                        env[a[2]] = v
                    p = self.path(a, env)
                    if p:
                        env[('is', p)] = v
        return env

    def truth_(self, cond, env):
        v = self.const(cond, env)
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        return None

    def assigned(self, n):
        out = set()

        def look(x):
            if x[0] == 'b' and x[2].endswith('=') and x[2] not in ('==', '!=', '<=', '>=') and x[3][0] == 'v':
                out.add(x[3][2])
            elif x[0] == 'u' and x[2][:2] in ('++', '--') and x[3][0] == 'v':
                out.add(x[3][2])
            elif x[0] == 'c':
                inf = self.P.info.get(x[2])
                if x[3] is not None and x[3][0] == 'v' and (inf is None or 'c' not in inf[4]):
                    out.add(x[3][2])
                for i, a in enumerate(x[4] or []):
                    ty = inf[3][i] if inf is not None and i < len(inf[3]) else '&'
                    if a and a[0] == 'v' and ty.endswith('&') and not ty.startswith('const '):
                        out.add(a[2])
        walk(n, look)
        return out

    def havoc(self, n, env):
        a = self.assigned(n)
        return {k: v for k, v in env.items() if k not in a and not (isinstance(k, tuple) and k[0] in ('is', 'choice'))}

    def loop_(self, n, env):
        k = n[0]
        if k == 'for' and n[2] is not None:
            env = self.ex(n[2], env)
        if k == 'rf':
            env = self.expr(n[5], env)
        body = n[6] if k == 'rf' else n[5] if k == 'for' else n[3] if k == 'while' else n[2]
        e = self.havoc(n, env)
        if k == 'rf':
            e.pop(n[2], None)
            p = self.path(n[5], e)
            e[('path', n[2])] = (p or ('?', n[1])) + ('[]',)
            e[('path', n[2])] = e[('path', n[2])]
        self.loops.append([[], [], True])
        cond = n[3] if k in ('for', 'do') else n[2] if k == 'while' else None
        if cond is not None and k != 'do':
            e = self.expr(cond, e)
            if self.truth_(cond, e) is False:
                self.loops.pop()
                return e
        out = self.ex(body, dict(e))
        for c in self.loops[-1][1]:
            out = self.join(out, c)
        if out is not None and k == 'for' and n[4] is not None:
            out = self.expr(n[4], out)
        if out is not None and k == 'do' and cond is not None:
            out = self.expr(cond, out)
        brk = self.loops.pop()[0]
        res = e if k != 'do' else None
        for b in [out] + brk:
            if b is not None:
                res = self.join(res, b)
        return res

    def switch_(self, n, env):
        env = self.expr(n[2], env)
        v = self.const(n[2], env)
        body = n[3]
        cs = body[2] if body and body[0] == '{' else [body]
        self.loops.append([[], [], False])
        cur = None
        default = False
        taken = False
        p = self.path(n[2], env)
        for c in cs:
            x = c
            hit = False
            only = []
            while x and x[0] in ('case', 'dflt'):
                if x[0] == 'dflt':
                    default = True
                    hit = hit or v is None or not self.listed(cs, v, env)
                    only.append(None)
                else:
                    w = self.const(x[2], env)
                    if v is None or w is None or self.same(v, w):
                        hit = True
                    only.append(w)
                x = x[-1]
            if hit:
                e = dict(env)
                if v is None and len(only) == 1 and only[0] is not None and p:
                    e[('is', p)] = only[0]
                    if n[2][0] == 'v':
                        e[n[2][2]] = only[0]
                cur = self.join(cur, e)
                taken = True
            cur = self.ex(x, cur) if cur is not None else None
        brk = self.loops.pop()[0]
        res = cur
        for b in brk:
            res = self.join(res, b)
        if v is None and not default or v is not None and not taken:
            res = self.join(res, env)
        return res

    def listed(self, cs, v, env):
        for c in cs:
            while c and c[0] in ('case', 'dflt'):
                if c[0] == 'case' and self.same(self.const(c[2], env), v):
                    return True
                c = c[-1]
        return False

    # ---- expressions: visit the calls in order
    def expr(self, n, env):
        if n is None or not isinstance(n, list) or not n or not isinstance(n[0], str) or env is None:
            return env
        k = n[0]
        if k in ('e', 'n', 's', 'bo', 'fl', 'ch', 'v', 'g', 'this', 'null', 'fn'):
            return env
        if k == 'lam':
            e = self.ex(n[3], self.havoc(n[3], env))
            return env
        if k == 'b':
            if n[2] in ('&&', '||'):
                env = self.expr(n[3], env)
                v = self.truth_(n[3], env)
                if v is None:
                    return self.join(env, self.expr(n[4], dict(env)))
                return self.expr(n[4], env) if v == (n[2] == '&&') else env
            if n[2].endswith('=') and n[2] not in ('==', '!=', '<=', '>='):
                env = self.expr(n[4], env)
                if n[3][0] != 'v':
                    env = self.expr(n[3], env)
                env = dict(env)
                if n[3][0] == 'v':
                    v = self.const(n[4], env) if n[2] == '=' else None
                    env.pop(n[3][2], None)
                    env.pop(('path', n[3][2]), None)
                    if v is not None:
                        env[n[3][2]] = v
                    else:
                        p = self.path(n[4], env)
                        if p is not None and n[2] == '=' and (self.stack[-1].id, n[3][2]) in self.refs:
                            env[('path', n[3][2])] = p
                if self.visit is not None:
                    r = self.visit(self, n, env)
                    env = r if r is not None else env
                return env
            env = self.expr(n[3], env)
            return self.expr(n[4], env)
        if k == 'cond':
            return self.split(n[2], env, lambda e: self.expr(n[3], e), lambda e: self.expr(n[4], e))
        if k == 'u':
            env = self.expr(n[3], env)
            if n[2][:2] in ('++', '--') and n[3][0] == 'v':
                env = dict(env)
                env.pop(n[3][2], None)
            return env
        if k == 'c':
            return self.callx(n, env)
        for c in n[2:]:
            if isinstance(c, list):
                if c and isinstance(c[0], str):
                    env = self.expr(c, env)
                else:
                    for x in c:
                        if isinstance(x, list) and x and isinstance(x[0], str):
                            env = self.expr(x, env)
        return env

    def callx(self, n, env):
        obj, args = n[3], n[4] or []
        name = self.P.q(n[2]).rsplit('::', 1)[-1]
        if obj is not None:
            env = self.expr(obj, env)
        for a in args:
            env = self.expr(a, env)
        if name == 'operator=' and obj is not None and obj[0] == 'v':
            env = dict(env)
            env.pop(obj[2], None)
            p = self.path(args[0], env) if args else None
            env.pop(('path', obj[2]), None)
            if p is not None and (self.stack[-1].id, obj[2]) in self.refs:
                env[('path', obj[2])] = p
        if self.visit is not None:
            r = self.visit(self, n, env)
            env = r if r is not None else env
        f = self.P.fn.get(n[2])
        if f is not None and f.body is not None and self.into is not None and len(self.stack) < 8 and f not in self.stack and self.into(self, f):
            e = {}
            for i, p in enumerate(f.params):
                if i < len(args):
                    v = self.const(args[i], env)
                    if v is not None:
                        e[p[0]] = v
                    q = self.path(args[i], env)
                    if q is not None:
                        e[('path', p[0])] = q
            if obj is not None:
                q = self.path(obj, env)
                if q is not None:
                    e[('path', 'this')] = q
            keep = {k: v for k, v in env.items() if isinstance(k, tuple) and k[0] in ('choice', 'is')}
            e.update(keep)
            out = self.run(f, e)
            env = {k: v for k, v in env.items() if not (isinstance(k, tuple) and k[0] in ('choice',))}
            if out is not None:
                env.update({k: v for k, v in out.items() if isinstance(k, tuple) and k[0] == 'choice'})
        # arguments it can change
        inf = self.P.info.get(n[2])
        if inf is not None:
            for i, a in enumerate(args):
                ty = inf[3][i] if i < len(inf[3]) else ''
                if a and a[0] == 'v' and ty.endswith('&') and not ty.startswith('const ') and a[2] in env:
                    env = dict(env)
                    env.pop(a[2], None)
        return env
