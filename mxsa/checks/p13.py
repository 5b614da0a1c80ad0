"""P13: API values and document values convert without loss."""
from ..core import *
from ..fold import Fold, THROWS
from ..prog import bare, walk


def conversions(P):
    """functions from one enumeration to another, by (from, to, name of the function)"""
    out = {}
    for f in sorted(P.fn.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or not f.qn.startswith('mx::') or len(f.params) != 1:
            continue
        a, b = bare(f.ptypes[0]), bare(f.ret)
        if a in P.enums and b in P.enums and a != b and side(a) and side(b) and side(a) != side(b):
            out.setdefault((a, b, f.name), f)
    return out


def side(q):
    return 'api' if q.startswith('mx::api::') else 'core' if q.startswith('mx::core::') else None


def sentinel(name):
    """values that stand for no value or for one the API cannot express"""
    return name in ('unspecified', 'unsupported') or name.startswith(('unknown', 'error'))


def last(v):
    return v[1].rsplit('::', 1)[-1] if isinstance(v, tuple) and len(v) == 2 else str(v)


def run(rep, P):
    branches(rep, P)
    rep.rule('determined', 'every value of a converted enumeration has a conversion that its source determines and that does not throw', 1000)
    rep.rule('api-survives', 'an API value comes back when it is converted to a document value and back', 600)
    rep.rule('document-survives', 'a document value that the API can express comes back when it is converted to an API value and back', 600)
    F = Fold(P)
    C = conversions(P)
    for (a, b, name), f in sorted(C.items()):
        if side(a) != 'core':
            continue
        g = C.get((b, a, name))
        if g is None:
            gs = [x for (p, q, n), x in C.items() if p == b and q == a]
            g = gs[0] if len(gs) == 1 else None
        rep.saw(f, *([g] if g else []))
        pair = '%s<->%s' % (a[len('mx::core::'):], b[len('mx::api::'):])
        default = F.value(f, [('e', a + '::?')])
        fv, gv = {}, {}
        for q, h, out in ((a, f, fv), (b, g, gv)):
            if h is None:
                continue
            for c in P.enums[q]['c']:
                v = ('e', q + '::' + c[0])
                r = F.value(h, [v])
                out[v[1]] = r
                if r is None:
                    rep.skip('determined', pair, 'conversion of %s' % c[0])
                else:
                    rep.ob(r != THROWS, 'determined', '%s:%s:%s' % (h.name, pair, c[0]), h.where, '%s throws for %s' % (h.qn, c[0]), pair)
        if g is None:
            continue
        image = {x[1] for x in fv.values() if x and x != THROWS}

        def through(h, v):
            r = h.get(v[1]) if isinstance(v, tuple) and len(v) == 2 else None
            return None if r == THROWS else r
        # several enumerations share the marks: those of this conversion are the ones it can give
        shared = sum(1 for (p, q, n) in C if q == b and side(p) == 'core') > 1 and len(gv) > 3 * len(fv)
        for c in P.enums[b]['c']:
            v = ('e', b + '::' + c[0])
            if sentinel(c[0]) or v == default and v[1] not in image or shared and v[1] not in image:
                continue
            w = through(gv, v)
            x = through(fv, w)
            if w is None or x is None:
                rep.skip('api-survives', pair, c[0])
                continue
            rep.ob(F.same(x, v), 'api-survives', '%s:%s' % (pair, c[0]), g.where, 'API value %s is converted to %s, which is converted back to %s' % (c[0], last(w), last(x)), pair)
        for c in P.enums[a]['c']:
            v = ('e', a + '::' + c[0])
            w = through(fv, v)
            if w is None:
                continue
            x = through(gv, w)
            if x is None:
                rep.skip('document-survives', pair, c[0])
                continue
            if sentinel(last(w)) or w == default and not any(F.same(through(fv, ('e', a + '::' + d[0])), w) and F.same(through(gv, w), ('e', a + '::' + d[0])) for d in P.enums[a]['c']):
                continue
            rep.ob(F.same(x, v), 'document-survives', '%s:%s' % (pair, c[0]), f.where, 'document value %s is converted to %s, which is converted back to %s' % (c[0], last(w), last(x)), pair)


def shape(n):
    """the expression without the places it stands at"""
    if isinstance(n, (list, tuple)):
        return tuple(shape(x) for i, x in enumerate(n) if i != 1 or not isinstance(x, int))
    return n


def steady(P, n):
    """evaluating it twice in a row gives the same answer"""
    ok = [True]

    def look(x):
        if x[0] == 'c':
            inf = P.info.get(x[2])
            if inf is None or 'c' not in inf[4] and not P.q(x[2]).rsplit('::', 1)[-1] in ('operator==', 'operator!=', 'operator->', 'operator*', 'operator<'):
                ok[0] = False
        elif x[0] == 'b' and x[2].endswith('=') and x[2] not in ('==', '!=', '<=', '>='):
            ok[0] = False
        elif x[0] == 'u' and x[2] in ('++', '--'):
            ok[0] = False
    walk(n, look)
    return ok[0]


def branches(rep, P):
    rep.rule('reachable', 'no branch of a decision chain in the conversion layer tests again what an earlier branch of the chain has tested', 30)
    for f in sorted(P.fn.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or not f.qn.startswith(('mx::impl::', 'mx::api::')):
            continue
        inner, count = set(), [0]

        def look(n):
            if n[0] != 'if' or id(n) in inner:
                return
            seen, x, k = [], n, 0
            count[0] += 1
            while x and x[0] == 'if':
                inner.add(id(x))
                c = x[3]
                s = shape(c) if c and steady(P, c) else None
                if k:
                    rep.ob(s is None or s not in seen, 'reachable', '%s:%d:%d' % (f.qn.split('::', 2)[-1], count[0], k), '%s:%d' % (f.file, x[1]),
                           '%s: branch %d of this chain tests what an earlier branch has tested, so it is never taken' % (f.qn, k + 1), f.cls or f.qn)
                    rep.saw(f)
                if s is not None:
                    seen.append(s)
                k += 1
                x = x[5]
                while x and x[0] == '{' and len(x) == 3 and isinstance(x[2], list) and len(x[2]) == 1:
                    x = x[2][0]
        walk(f.body, look)
