"""P11: const operations may run concurrently."""
from ..core import *
from ..effects import Effects
from ..locks import *
from ..prog import walk


def run(rep, P):
    rep.rule('lazy-locked', 'a const operation touches state that const operations change only while it holds a mutex of the same object', 60)
    rep.rule('no-relock', 'a const operation that holds a mutex of its object does not acquire it again', 20)
    rep.rule('const-pure', 'a const operation of a document or API object changes nothing that the object owns or refers to', 1500)
    rep.rule('readers-pure', 'nothing that runs when a score is read from a document changes the document', 300)
    rep.rule('writers-pure', 'nothing that runs when a document is written out changes it', 5)
    rep.rule('no-cast', 'constness is never cast away', 300)
    rep.rule('no-shared', 'there is no mutable global or static state, unless it is guarded', 300)
    mut = {}
    for c, r in P.rec.items():
        for fl in r['f']:
            if 'm' in fl[3]:
                mut.setdefault(c, {})[fl[0]] = fl[1]
    fns = [f for f in P.fn.values() if f.body is not None and f.qn.startswith('mx::')]
    E = Effects(P, fns, {(c, x) for c, fs in mut.items() for x in fs})
    for f in fns:
        rep.saw(f)
    lazy(rep, P, fns, E, mut)
    pure(rep, P, fns, E)
    casts(rep, P)
    shared(rep, P)


def const(f):
    return 'c' in f.flags and 'k' not in f.flags and 'd' not in f.flags


def lazy(rep, P, fns, E, mut):
    ent = entry_locks(P, fns, E.info)
    written = {}
    for f in fns:
        if const(f):
            for a in E.info[f.id].acc:
                if a.write and a.field in mut.get(a.cls, ()):
                    written[(a.cls, a.field)] = f
    for f in sorted(fns, key=lambda f: (f.file, f.line)):
        if not const(f):
            continue
        if not (f.cls or '').startswith(('mx::core', 'mx::api')):
            continue
        n = 0
        for a in E.info[f.id].acc:
            if (a.cls, a.field) not in written or is_mutex(mut[a.cls][a.field]):
                continue
            if not a.base.startswith('this'):
                continue
            n += 1
            key = '%s::%s:%s:%d' % (short(f.cls), f.name, a.field, n)
            ok = any(h[0][0] == a.cls and h[1] == a.base for h in a.held) or any(h[0] == a.cls for h in ent[f.id])
            if ok:
                rep.ok('lazy-locked', key)
            else:
                rep.bad('lazy-locked', key, '%s:%d' % (f.file, a.line), '%s touches %s without the lock, while %s changes it in a const operation' % (f.qn, a.field, written[(a.cls, a.field)].qn))
    # relock
    may = {f.id: {a.mutex for a in E.info[f.id].acq if a.base == 'this'} for f in fns}
    change = True
    while change:
        change = False
        for f in fns:
            for c in E.info[f.id].calls:
                if c.callee in may and c.obj is not None and path(c.obj) == 'this' and not may[c.callee] <= may[f.id]:
                    may[f.id] |= may[c.callee]
                    change = True
    for f in fns:
        L = E.info[f.id]
        if not L.acq:
            continue
        key = '%s::%s' % (short(f.cls), f.name)
        bad = None
        for a in L.acq:
            if any(h[0] == a.mutex and h[1] == a.base for h in a.held):
                bad = (a.line, 'acquires %s twice' % a.mutex[1])
        for c in L.calls:
            if c.callee in may and c.obj is not None and path(c.obj) == 'this':
                for m in may[c.callee]:
                    if any(h[0] == m and h[1] == 'this' for h in c.held):
                        bad = (c.line, 'calls %s, which acquires %s again' % (P.q(c.callee), m[1]))
        if bad:
            rep.bad('no-relock', key, '%s:%d' % (f.file, bad[0]), '%s %s' % (f.qn, bad[1]))
        else:
            rep.ok('no-relock', key)


def short(c):
    return (c or '').rsplit('::', 1)[-1]


def reach(P, E, start):
    seen, st = set(), list(start)
    while st:
        i = st.pop()
        if i in seen or i not in E.fns:
            continue
        seen.add(i)
        st.extend(c.callee for c in E.info[i].calls)
        for c in E.info[i].calls:
            st.extend(P.overriders(c.callee) if callable(getattr(P, 'overriders', None)) else ())
        walk(E.fns[i].body, lambda n: st.append(n[3]) if n[0] == 'k' else None)
    return seen


def pure(rep, P, fns, E):
    for f in sorted(fns, key=lambda f: (f.file, f.line)):
        if not const(f) or not (f.cls or '').startswith(('mx::core', 'mx::api')):
            continue
        key = '%s::%s/%d' % (short(f.cls), f.name, len(f.params))
        s = E.sum[f.id].get('this')
        if s is None:
            rep.ok('const-pure', key)
        elif f.cls == 'mx::api::DocumentManager':
            continue
        else:
            rep.bad('const-pure', key, '%s:%d' % (f.file, s[0]), '%s is const but changes its object through %s' % (f.qn, s[1]))
    for rule, roots in (('readers-pure', ('mx::impl::ScoreReader::getScoreData',)), ('writers-pure', ('mx::core::Document::toXDoc',))):
        ids = reach(P, E, [f.id for f in fns if f.qn in roots])
        for i in sorted(ids, key=lambda i: (E.fns[i].file, E.fns[i].line)):
            f = E.fns[i]
            if (f.cls or '').startswith('mx::core') and not const(f):
                continue
            bad = None
            for c in E.info[i].calls:
                for r, what, n in E.call_effects(c):
                    if r not in (None, 'own') and what.startswith('mx::core') and not value_ctx(P, f, n):
                        bad = bad or (c.line, what)
            for a in E.info[i].acc:
                if a.write and a.cls.startswith('mx::core') and not (f.cls or '').startswith('mx::core') and E.root(f, a.node) not in (None, 'own') and not value_ctx(P, f, a.node):
                    bad = bad or (a.line, a.field)
            key = '%s/%d' % (f.qn.split('::', 1)[-1], len(f.params))
            if bad:
                rep.bad(rule, key, '%s:%d' % (f.file, bad[0]), '%s changes the document through %s' % (f.qn, bad[1]))
            else:
                rep.ok(rule, key)


def value_ctx(P, f, n):
    """the object changed is a parameter that the caller handed over for output"""
    while n and n[0] in ('cast', 'm'):
        n = n[-1] if n[0] == 'cast' else n[2]
    if n and n[0] == 'v':
        for vid, name, ty in f.params:
            if vid == n[2]:
                return ty.endswith('&') and not ty.startswith('const ')
    return False


def casts(rep, P):
    for f in sorted(P.fn.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or not f.qn.startswith(('mx::', 'ezxml::')):
            continue
        bad = []

        def look(n):
            if n[0] == 'cast' and n[2] in ('x:NoOp', 'x:BitCast', 'x:LValueBitCast') and drops(n[4], n[3]):
                bad.append(n)
        walk(f.body, look)
        if bad:
            rep.bad('no-cast', f.qn, '%s:%d' % (f.file, bad[0][1]), '%s casts constness away (%s to %s)' % (f.qn, bad[0][4], bad[0][3]))
        else:
            rep.ok('no-cast', f.qn + str(f.line))


def drops(src, dst):
    return src.startswith('const ') and not dst.startswith('const ')


def shared(rep, P):
    guarded = {c.rsplit('::', 1)[0] for c, r in P.rec.items() if any(is_mutex(f[1]) for f in r['f'])} | {c for c, r in P.rec.items() if any(is_mutex(f[1]) for f in r['f'])}

    def fine(t, fl):
        return (t.startswith('const ') and not t.endswith('*')) or t.endswith(('* const', '*const')) or 'constexpr' in t or t.startswith('std::atomic') or is_mutex(t) or t in guarded or 't' in fl or t.startswith('std::once_flag')
    wrote = {}
    for f in P.fn.values():
        if f.body is not None and f.qn.startswith(('mx::', 'ezxml::')):
            for what, line in writes(P, f):
                wrote.setdefault(what, (f, line))
    for n, g in sorted(P.globals.items()):
        if not n.startswith(('mx::', 'ezxml::')) or not g['file'].startswith('Sourcecode'):
            continue
        if fine(g['t'], '') or 'c' in g['fl'] or ('g', n) not in wrote:
            rep.ok('no-shared', n)
        else:
            f, line = wrote[('g', n)]
            rep.bad('no-shared', n, '%s:%d' % (f.file, line), '%s changes the global %s without a lock' % (f.qn, n))
    for f in sorted(P.fn.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or not f.qn.startswith(('mx::', 'ezxml::')):
            continue

        def look(n):
            if n[0] == 'd':
                for vid, name, ty, init, fl in n[2]:
                    if fl and 's' in fl:
                        if fine(ty, fl) or ('v', f.id, vid) not in wrote and not escapes(f, vid):
                            rep.ok('no-shared', f.qn + '::' + name)
                        else:
                            rep.bad('no-shared', f.qn + '::' + name, '%s:%d' % (f.file, n[1]), '%s changes static state in %s (%s) without a lock' % (f.qn, name, ty))
        walk(f.body, look)


def escapes(f, vid):
    """a non-const reference or pointer to the variable leaves the function"""
    if not f.ret.endswith(('&', '*')) or f.ret.startswith('const '):
        return False
    hit = []
    walk(f.body, lambda n: hit.append(n) if n[0] == 'ret' and n[2] is not None and names(n[2]) == ('v', vid) else None)
    return bool(hit)


def names(n):
    """the variable an lvalue expression is part of"""
    while n:
        if n[0] == 'v':
            return ('v', n[2])
        if n[0] == 'g':
            return ('g', n[2])
        if n[0] == 'm':
            n = n[2]
        elif n[0] == 'cast':
            n = n[-1]
        elif n[0] == 'u':
            n = n[3]
        elif n[0] == 'sub':
            n = n[2]
        elif n[0] == 'c' and n[3] is not None:
            n = n[3]
        else:
            return None
    return None


def writes(P, f):
    out = []

    def hit(n, line):
        r = names(n)
        if r is not None:
            out.append((r if r[0] == 'g' else ('v', f.id, r[1]), line))

    def look(n):
        if n[0] == 'b' and n[2] in WRITES:
            hit(n[3], n[1])
        elif n[0] == 'u' and n[2].startswith(('++', '--', '&')):
            hit(n[3], n[1])
        elif n[0] == 'c':
            inf = P.info.get(n[2])
            if inf is None:
                return
            if n[3] is not None and 'c' not in inf[4] and 's' not in inf[4] and not harmless(P.q(n[2])):
                hit(n[3], n[1])
            off = 0
            for i, a in enumerate(n[4] or ()):
                if i < len(inf[3]) and inf[3][i].endswith('&') and not inf[3][i].startswith('const ') and not inf[3][i].endswith('&&'):
                    hit(a, n[1])
    walk(f.body, look)
    return out
