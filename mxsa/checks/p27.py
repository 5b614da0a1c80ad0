"""P27: copies are complete and independent of what they were made from."""
from ..core import *
from ..prog import bare, pointee
from ..sym import Walker, show, decide, atoms


def run(rep, P):
    rep.rule('complete', 'a hand-written copy takes over every field from the same field of the original, on every path', 15)
    rep.rule('independent', 'a copyable value holds nothing by pointer or reference, or copies what it points to', 200)
    written = set()
    for f in sorted(P.fn.values(), key=lambda f: f.where):
        if not f.cls or 'r' not in f.flags or 'i' in f.flags or f.body is None or not f.cls.startswith(('mx::', 'ezxml::')):
            continue
        if len(f.ptypes) == 1 and bare(f.ptypes[0]).rstrip('& ') == f.cls and ('k' in f.flags or f.name == 'operator='):
            rep.saw(f)
            copy(rep, P, f)
            written.add(f.cls)
    for c in sorted(P.rec):
        if not value(P, c):
            continue
        short = c.split('::', 1)[-1]
        bad = []
        for n, fd in P.fields(c).items():
            t = fd[1].replace('const ', '')
            if t.endswith(('*', '&')) or 'std::shared_ptr<' in t or 'std::weak_ptr<' in t or 'reference_wrapper<' in t or 'string_view' in t or '*,' in t or '*>' in t:
                bad.append((n, t, fd))
            elif 'std::unique_ptr<' in t and c not in written and copyable(P, c):
                bad.append((n, t, fd))
        r = P.rec[c]
        where = '%s:%s' % (r.get('file', ''), r.get('l', r.get('line', '')))
        rep.ob(not bad, 'independent', short, where, '%s holds %s, which copies share' % (c, ', '.join('%s (%s)' % (n, t[:60]) for n, t, _ in bad)), c)


def copyable(P, c):
    """a copy constructor exists that is not deleted"""
    for f in P.by_cls.get(c, ()):
        if 'k' in f.flags and len(f.ptypes) == 1 and bare(f.ptypes[0]).rstrip('& ') == c:
            return 'x' not in f.flags
    return False


def value(P, c):
    if c.startswith('mx::api::'):
        return not c.startswith('mx::api::DocumentManager') and '<' not in c
    return c.startswith('mx::core::') and '<' not in c and not is_element(P, c) and c.rsplit('::', 1)[-1] != 'Document' and 'ElementInterface' not in c


def from_other(v, n, P, depth=0):
    """does a value take the field n of the original? True, False (another field or a constant), None"""
    if depth > 12 or not isinstance(v, tuple) or not v:
        return None
    k = v[0]
    if k == 'f':
        if v[1][0] == 'arg':
            return v[2] == n
        return from_other(v[1], n, P, depth + 1)
    if k == 'deref':
        return from_other(v[1], n, P, depth + 1)
    if k == 'arg':
        return None
    if k == 'ite':
        a, b = from_other(v[2], n, P, depth + 1), from_other(v[3], n, P, depth + 1)
        c = [x for x in [v[1]] + list(subterms(v[1]))]
        nul = any(x[0] == 'isnull' and from_other(x[1], n, P, depth + 1) for x in c)
        if nul and (v[2] == ('null',) or v[3] == ('null',)):
            return b if v[2] == ('null',) else a
        return False if a is False or b is False else True if a and b else None
    if k == 'new':
        args = v[3] if len(v) > 3 else ()
        return args_cover(args, v[1], n, P, depth)
    if k == 'val':
        if not v[2]:
            return False
        return args_cover(v[2], v[1], n, P, depth)
    if k == 'c':
        name = v[1].rsplit('::', 1)[-1]
        if name in ('move', 'forward', 'exchange') and v[2] is None and v[3]:
            return from_other(v[3][0], n, P, depth + 1)
        if v[2] is not None:
            return from_other(v[2], n, P, depth + 1)
        return None
    if k in ('n', 'bo', 's', 'fl', 'null', 'e', 'zero', 'true', 'false'):
        return False
    return None


def args_cover(args, cls, n, P, depth):
    if len(args) == 1:
        return from_other(args[0], n, P, depth + 1)
    if not args:
        return False
    rs = [from_other(a, n, P, depth + 1) for a in args]
    if False in rs:
        return False
    if None in rs:
        return None
    want = len(P.fields(bare(cls)))
    got = {show(a) for a in args}
    return True if len(got) >= want else False


def copy(rep, P, f):
    w = Walker(inline=lambda g, o, t: g.cls == f.cls and 'k' not in g.flags or not g.cls and g.file == f.file)
    w.run(f)
    short = '%s::%s' % (f.cls.rsplit('::', 1)[-1], f.name) + (' (moving)' if f.ptypes[0].endswith('&&') else '')
    me = ('this', f.cls)
    if any(e.kind == 'ctor' and e.a[0] == f.cls for e in w.events) or any(e.kind == 'call' and e.a[0].rsplit('::', 1)[-1] == 'swap' for e in w.events):
        rep.skip('complete', short, 'made by another copying function')
        return
    for n in P.fields(f.cls):
        tries = []
        for e in w.events:
            if e.kind == 'assign' and e.a[0][0] == 'f' and e.a[0][1] == me and e.a[0][2] == n:
                tries.append((e.pc, e.a[1]))
            elif e.kind == 'call' and e.a[2] is not None and e.a[2][:1] == ('f',) and e.a[2][1] == me and e.a[2][2] == n and e.a[3]:
                tries.append((e.pc, e.a[3][-1]))
        pcs = [pc for pc, v in tries]
        gone = lambda pc: any(l[0] == 'isnull' and from_other(l[1], n, P) for l in pc)
        rs = [True if gone(pc) and v == ('null',) else from_other(v, n, P) for pc, v in tries if not (v == ('null',) and 'k' in f.flags)]
        # on a path that stores nothing the field keeps what it had, unless the original is this very object, or has nothing there
        open_ = not any(not pc for pc in pcs)
        if open_ and pcs:
            def alone(l):
                for x in [l] + list(subterms(l)):
                    if x[0] == 'eq' and any(y[0] == 'this' or y == me for y in x[1:3]):
                        return True
                return False
            rest = [tuple(l for l in pc if not alone(l)) for pc in pcs]
            open_ = not any(not pc for pc in rest)
            if open_:
                neg_ = {neg(pc[0]) for pc in rest if len(pc) == 1}
                open_ = not any(len(pc) == 1 and pc[0] in neg_ for pc in rest)
                if open_ and 'k' in f.flags and all(l[0] == 'not' and l[1][0] == 'isnull' or l[0] != 'isnull' and 'isnull' in str(l) for pc in rest for l in pc):
                    open_ = False       # a fresh object has nothing there either
        if not tries or not rs:
            ok = False
        elif None in rs:
            rep.skip('complete', short + ' ' + n, 'the value is not followed')
            continue
        else:
            ok = all(rs) and not open_
        rep.ob(ok, 'complete', '%s:%s' % (short, n), f.where, '%s %s' % (f.qn, 'does not take over %s' % n if not tries else 'keeps an old %s on some path' % n if all(rs) else 'gives %s something else than the original has there' % n), f.cls)
