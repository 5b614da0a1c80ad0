"""P28: references, pointers and iterators are used only while what they refer to is there."""
from ..life import *
from ..prog import bare, walk


def run(rep, P):
    rep.rule('returned', 'no function returns a reference, pointer or iterator to something that ends with the call', 300)
    rep.rule('bound', 'a reference, pointer or iterator is not left pointing into a temporary object', 1000)
    rep.rule('kept', 'a reference member is bound to something that outlives the object', 25)
    rep.rule('unchanged', 'a collection does not change while a reference, iterator or loop into it is still used', 200)
    rep.rule('moved', 'what has been moved away is not read before it has a new value', 40)
    L = Life(P)
    fns = [f for f in P.fn.values() if f.body is not None and 'r' in f.flags and f.qn.startswith(('mx::', 'ezxml::'))]
    fns.sort(key=lambda f: (f.file, f.line, f.id))
    members = refmembers(rep, P, L, fns)
    seen = {}
    for f in fns:
        rep.saw(f)
        S = Scope(L, f)
        g = f.qn.split('::', 1)[-1]
        if refty(f.ret) and not f.ret.endswith('&&') or rawptr(f.ret) or iterty(f.ret):
            for e, _ in S.returns:
                r = S.into(e) if refty(f.ret) else S.pointee(e)
                line = e[1] if isinstance(e[1], int) else f.line
                note(seen, rep, 'returned', f, line, g, r, lambda x: x in ('temp', 'gone') or isinstance(x, tuple) and x[0] == 'v', '%s returns a reference to something that ends with the call' % f.qn)
        for v, d in S.decl.items():
            if refty(d[1]) and d[2] is not None and not isinstance(d[2], tuple):
                d = (d[0], d[1], braced(d[2]), d[3])
            if isinstance(d[2], tuple):
                n = strip(d[2][1])
                if S.extends(n):
                    r = set()
                else:
                    r = S.into(n)
                note(seen, rep, 'bound', f, d[3], g, r, lambda x: x in ('temp', 'gone'), '%s loops over a part of an object that is gone when the loop starts' % f.qn)
            elif d[2] is not None and refty(d[1]):
                if S.extends(d[2]):
                    r = set()
                else:
                    r = S.into(d[2])
                note(seen, rep, 'bound', f, d[3], g, r, lambda x: x in ('temp', 'gone'), '%s: %s refers into an object that is gone after the statement' % (f.qn, d[0]))
            elif d[2] is not None and (rawptr(d[1]) or iterty(d[1])):
                note(seen, rep, 'bound', f, d[3], g, S.pointee(d[2]), lambda x: x in ('temp', 'gone'), '%s: %s points into an object that is gone after the statement' % (f.qn, d[0]))
        objects(seen, rep, P, L, S, f, members)

        def report(f, line, what, how, where, ok, rule='unchanged'):
            k = (rule, f.id, line, what)
            if k not in seen or not ok:
                msg = '%s: %s is used after %s of the collection it points into%s' % (f.qn, what, how, ' (line %d)' % where if where else '') if rule == 'unchanged' else '%s: %s is used after its content was moved away (line %d)' % (f.qn, what, where)
                seen[k] = (ok, rule, '%s:%s' % (g, what), '%s:%d' % (f.file, line), msg, f.cls or g)
        Flow(L, f, report).run()
    for k in sorted(seen, key=str):
        ok, rule, key, where, msg, grp = seen[k]
        if ok is None:
            rep.skip(rule, key, 'what it refers to is not followed')
        else:
            rep.ob(ok, rule, key, where, msg, grp)


def note(seen, rep, rule, f, line, g, r, bad, msg):
    k = (rule, f.id, line, msg)
    ok = None if r is None else not any(bad(x) for x in r)
    if k not in seen or ok is False:
        seen[k] = (ok, rule, g + ':' + msg.split(': ', 1)[-1].split(' ')[0] if rule == 'bound' else g, '%s:%d' % (f.file, line), msg, f.cls or g)


def refmembers(rep, P, L, fns):
    """{constructor: {parameter: field}} of the fields that only refer to what the constructor is given"""
    out = {}
    for f in fns:
        if 'k' not in f.flags:
            continue
        S = Scope(L, f)
        for fld, e, w in f.inits or ():
            if not e or fld.startswith('<'):
                continue
            t = P.field_type(f.cls, fld) or ''
            if not (refty(t) or rawptr(t) or iterty(t)):
                continue
            e = braced(e)
            r = S.into(e) if refty(t) else S.pointee(e)
            if r is None:
                rep.skip('kept', '%s::%s' % (f.cls, fld), 'what it refers to is not followed')
                continue
            bad = [x for x in r if x in ('temp', 'gone') or isinstance(x, tuple) and x[0] == 'v']
            rep.ob(not bad, 'kept', '%s:%s' % (f.cls.split('::', 1)[-1], fld), f.where, '%s keeps a reference in %s to something that ends with the constructor' % (f.qn, fld), f.cls)
            for x in r:
                if isinstance(x, int):
                    out.setdefault(f.id, {})[x] = fld
    return out


def objects(seen, rep, P, L, S, f, members):
    """objects that keep references, stored in variables or fields, or made on the heap"""
    def check(n, line, where):
        n = strip(n)
        if not n or n[0] != 'k' or n[3] not in members:
            return
        for i, fld in members[n[3]].items():
            if i >= len(n[4]):
                continue
            a = braced(n[4][i])
            t = (P.info.get(n[3]) or [0, 0, 0, []])[3]
            r = {'temp'} if refty(t[i]) and S.extends(a) else S.into(a) if refty(t[i]) else S.pointee(a)
            k = ('kept', f.id, line, fld, i)
            ok = None if r is None else not any(x in ('temp', 'gone') for x in r)
            if k not in seen or ok is False:
                seen[k] = (ok, 'kept', '%s:%s' % (f.qn.split('::', 1)[-1], fld), '%s:%d' % (f.file, line), '%s: %s keeps a reference in %s to a temporary object' % (f.qn, where, fld), f.cls or f.qn)

    for v, d in S.decl.items():
        if d[2] is not None and not isinstance(d[2], tuple):
            check(d[2], d[3], d[0])
    for fld, e, w in f.inits or ():
        if e:
            check(e, f.line, fld)
