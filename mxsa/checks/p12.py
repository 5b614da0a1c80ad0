"""P12: reading never walks past the end of the input tree."""
from ..core import *
from ..cursor import *
from ..prog import walk


def run(rep, P):
    rep.rule('at-child', 'a cursor is read or moved forward only where it is known not to be at the end', 150)
    rep.rule('back', 'a cursor is moved back only over a child that it passed in the same pass', 100)
    rep.rule('progress', 'every pass of a loop over the children moves the cursor', 100)
    rep.rule('no-skip', 'when a helper moves the cursor on, the loop does not step over a child that nothing looked at', 100)
    rep.rule('once', 'no child is read twice', 100)
    M = Model(P)
    names = {}

    def elem(cur, n):
        c = static_class(P, cur, n)
        return ('elem', c) if c is not None else None

    def tag(cur, obj, ov):
        c = ov[1] if isinstance(ov, tuple) and ov[0] == 'elem' else static_class(P, cur, obj)
        if c is None:
            return None
        if c not in names:
            f = M.method(c, 'streamName')
            lits = []
            if f is not None:
                walk(f.body, lambda n: lits.append(n[2]) if n[0] == 's' else None)
            names[c] = ('str', lits[0]) if len(lits) == 1 else None
        return names[c]

    found = {}
    total = [0, 0, 0]
    for f in sorted(P.fn.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or not f.qn.startswith('mx::'):
            continue
        if any(is_iter(t) for t in f.ptypes):
            continue            # looked into from the function that owns the cursor
        own = []
        walk(f.body, lambda n: own.append(1) if n[0] == 'd' and any(is_iter(d[2]) for d in n[2]) else None)
        if not own:
            continue
        rep.saw(f)
        mine = {}

        def report(rule, g, line, msg):
            mine.setdefault((rule, g.qn, line), (rule, g, line, msg))
        c = Cursor(P, tag, elem, report)
        try:
            c.run(f)
        except (TooMany, RecursionError):
            rep.skip('at-child', f.qn, 'too many states')
            continue
        for g in c.fnseen:
            rep.saw(P.fn[g])
        sh = f.qn.split('::', 2)[-1]
        for rule, n in (('at-child', c.derefs), ('back', c.moves), ('no-skip', c.passes), ('progress', c.passes), ('once', c.derefs)):
            if n and not any(k[0] == rule for k in mine):
                rep.ok(rule, sh)
        for (rule, gq, line), (r, g, l, msg) in mine.items():
            found.setdefault((rule, gq, msg, l), (g, f))
    for (rule, gq, msg, l), (g, f) in sorted(found.items(), key=str):
        n = sum(1 for k in found if k[0] == rule and k[1] == gq and k[3] < l)
        rep.bad(rule, '%s:%d' % (gq.split('::', 2)[-1], n), '%s:%d' % (g.file, l), '%s %s (reached from %s)' % (gq, msg, f.qn))


def static_class(P, cur, obj):
    n = obj
    while n and n[0] == 'cast':
        n = n[-1]
    if n and n[0] == 'c' and P.q(n[2]).endswith(('operator->', 'operator*', '::get')) and n[3] is not None:
        return static_class(P, cur, n[3])
    if n and n[0] == 'c':
        inf = P.info.get(n[2])
        return cls_of(P, inf[2]) if inf is not None else None
    if n and n[0] == 'm':
        return cls_of(P, P.field_type(n[4], n[3]) or '')
    if n and n[0] == 'v':
        fr = cur.fr.fn
        for vid, name, ty in fr.params:
            if vid == n[2]:
                return cls_of(P, ty)
        hit = []
        walk(fr.body, lambda x: hit.extend(d[2] for d in x[2] if d[0] == n[2]) if x[0] == 'd' else None)
        return cls_of(P, hit[0]) if hit else None
    return None


def cls_of(P, ty):
    c = pointee(ty)
    return c if c in P.rec else None
