"""P25: the document model holds the whole vocabulary of the format.

P01, P02 and P03 compare what a class writes with what it reads and with what the schema permits; a name that is in neither
its reader nor its writer satisfies all three. Here the schema is the starting point: every element, attribute, child,
repetition, combination and text it allows has a place in the model from which it can be written."""
from ..core import *
from ..rep import parallel
from ..xsd import schema, INF
from .p01 import written
from .p02 import alternatives, Paths
from .p03 import exclusive, common_loop
from .p04 import stringy, ret
from ..evalc import Eval


def run(rep, P):
    M = Model(P)
    S = schema()
    rep.rule('element', 'every element of the schema has a class that writes it', 300)
    rep.rule('attribute', 'every attribute the schema allows for an element can be written', 1300)
    rep.rule('child', 'every child the schema allows in an element can be written', 400)
    rep.rule('repeated', 'a child that may be repeated is written from a list or at several places', 60)
    rep.rule('together', 'children that may stand together in one element can be written together', 900)
    rep.rule('text', 'the text of an element that has text is written', 100)
    have = {n for c in M.elements for g, n in (M.names(c) or ()) if n}
    for c in M.elements:
        W = M.writer(c) if M.names(c) and not M.is_group(c) else None
        if W:
            for e, ns in spelled(P, W):
                have |= set(ns)
    for n in sorted(S.types):
        rep.ob(n in have, 'element', n, 'Sourcecode/private/mx/core/elements', 'no class writes the element <%s>' % n, n)
    parallel([c for c in M.elements if M.names(c) and not M.is_group(c)], lambda c, r: one(r, P, M, S, c), rep)


def variants(M, S, cls):
    """the schema types a class can stand for: those of its names; of several under one name the one it has children of"""
    return [t for g, n in M.names(cls) for t in S.types.get(n, [])]


def spelled(P, W):
    """children written as tags whose name is the text of an enumeration: (event, names)"""
    last = None
    for e, o, v in out_events(W.events):
        if v[0] == 'ch':
            v = ('s', chr(v[1]))
        if last is not None and last.endswith('<') and v[0] not in ('s', 'fnref'):
            q = type_of(v)
            q = bare(q) if q else None
            if q in P.enums:
                yield e, strings(P, q)
        last = v[1] if v[0] == 's' else None


_strings = {}


def strings(P, q):
    if q not in _strings:
        r = []
        E = Eval(P)
        for f in P.fn.values():
            if f.body is not None and not f.cls and len(f.params) == 1 and f.qn.startswith('mx::core::') and bare(f.ptypes[0]) == q and stringy(ret(f)):
                vs = [E.call(f, [('e', '%s::%s' % (q, c[0]))]) for c in P.enums[q]['c']]
                r = [v[1] for v in vs if v and v[0] == 's']
                if len(r) == len(vs):
                    break
        _strings[q] = r
    return _strings[q]


def one(rep, P, M, S, cls):
    short = cls.rsplit('::', 1)[-1]
    types = variants(M, S, cls)
    where = M.method(cls, 'streamName').where
    if not types:
        return
    rep.saw(M.method(cls, 'streamName'))
    A = M.walk(cls, 'streamAttributes')
    if A is not None:
        rep.saw(M.method(cls, 'streamAttributes'))
        names = {w[0] for w in written(A)}
        if None in names:
            rep.skip('attribute', short, 'an attribute name is not constant')
        want = set.intersection(*[set(t.attrs) for t in types])
        for a in sorted(want):
            if None in names and a not in names:
                continue
            rep.ob(a in names, 'attribute', '%s.%s' % (short, a), M.method(cls, 'streamAttributes').where, '%s has no attribute %s, which the schema allows' % (short, a), '%s.%s' % (short, a))
    W = M.writer(cls)
    if W is None:
        return
    rep.saw(M.method(cls, 'streamContents'))
    where = M.method(cls, 'streamContents').where
    wp = Paths(cls, W.events)
    ev, unk = [], bool(W.unknown)
    for e in W.events:
        if e.kind == 'call' and e.a[0] == EI + '::toStream':
            for g, t in alternatives(e.a[2]):
                tc = pointee(type_of(t))
                ns = M.names(tc) if tc in P.rec and M.method(tc, 'streamName') else None
                if not ns or any(n is None for _, n in ns):
                    unk = True
                    continue
                # a child whose class writes one of several names
                for g2, n in ns:
                    ev.append((n, tuple(e.pc) + g, e, len(ns), wp.path(t)))
    spelt, looped, first = set(), False, None
    for e, ns in spelled(P, W):
        spelt |= set(ns)
        looped = looped or bool(e.loops)
        first = first or e
        for n in ns:
            ev.append((n, tuple(e.pc), e, len(ns), None))
    got = {x[0] for x in ev}
    cts = [t for t in types if t.content]
    best = [t for t in cts if got <= S.children(t.content)] or cts
    if cts:
        want = set.intersection(*[S.children(t.content) for t in best])
        if unk:
            rep.skip('child', short, 'a child of a name that is not constant')
        for n in sorted(want):
            if n not in got and unk:
                continue
            rep.ob(n in got, 'child', '%s<%s>' % (short, n), where, '%s cannot hold a child <%s>, which the schema allows' % (short, n), '%s<%s>' % (short, n))
        if spelt and min(S.max_count(t.content, n) for t in best for n in spelt & want) > 1:
            rep.ob(looped, 'repeated', '%s<*>' % short, first.where, '%s can hold one child, the schema allows more' % short)
        for n in sorted(want & got - spelt):
            mx = min(S.max_count(t.content, n) for t in best)
            if mx <= 1:
                continue
            xs = [x for x in ev if x[0] == n]
            many = [x for x in xs if x[2].loops]
            two = len({x[4] for x in xs}) > 1
            rep.ob(many or two and mx <= len(xs), 'repeated', '%s<%s>' % (short, n), xs[0][2].where, '%s can hold one <%s>, the schema allows %s' % (short, n, 'any number' if mx >= INF else mx), '%s<%s>' % (short, n))
        ns = sorted(want & got - spelt)
        cache = {}
        for i, a in enumerate(ns):
            for b in ns[i + 1:]:
                if not all(S.can_precede(t.content, a, b) or S.can_precede(t.content, b, a) for t in best):
                    continue
                ok = False
                for x in ev:
                    if x[0] != a or ok:
                        continue
                    for y in ev:
                        if y[0] != b:
                            continue
                        if common_loop(x[2], y[2]) or x[2].loops and y[2].loops:
                            ok = True
                        elif x[2] is y[2] and x[4] == y[4]:
                            continue
                        else:
                            k = (x[1], y[1])
                            if k not in cache:
                                cache[k] = exclusive(M, x[1], y[1])
                            ok = not cache[k]
                        if ok:
                            break
                key = '%s<%s>with<%s>' % (short, a, b)
                rep.ob(ok, 'together', key, where, '%s cannot hold both <%s> and <%s>, which the schema allows together' % (short, a, b), key)
    vs = [t for t in types if t.value is not None]
    if vs and len(vs) == len(types):
        outs = [v for e, o, v in out_events(W.events) if v[0] not in ('s', 'ch', 'fnref')]
        rep.ob(outs or unk, 'text', short, where, '%s never writes its text' % short, short)
