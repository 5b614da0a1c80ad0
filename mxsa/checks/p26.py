"""P26: what is set on or added to an element is what is got from it, and nothing else changes."""
import re
from ..core import *
from ..prog import bare, is_cont
from ..rep import parallel
from ..sym import show
from .p05 import Ctx, PUSH

SHRINK = ('erase', 'pop_back', 'clear', 'remove')


def run(rep, P):
    rep.rule('same', 'what a setter stores is what the getter of the same name returns', 900)
    rep.rule('kept', 'whether a setter stores its argument depends on nothing but the argument', 850)
    rep.rule('only', 'a setter does not change what the getter of another name returns', 900)
    rep.rule('distinct', 'getters of different names return different state', 900)
    rep.rule('collection', 'adding to, removing from and clearing a collection act on the collection that the getter of the same name returns', 250)
    M = Model(P)
    X = Ctx(P, M)
    todo = {}
    for f in P.fn.values():
        if f.cls and f.cls.startswith('mx::core::') and f.body is not None and 'r' in f.flags and 'z' not in f.flags and re.match(r'(get|set|add|remove|clear)[A-Z]', f.name):
            todo.setdefault(f.cls, []).append(f.id)
    parallel(sorted(todo.items()), lambda it, r: one(r, X, it[0], [P.fn[i] for i in it[1]]), rep)


def plain(v):
    """a value whose origin is fully known"""
    v = strip(v)
    return v[0] in ('n', 'fl', 'bo', 'b', 's', 'null', 'new', 'zero', 'true', 'false', 'e', 'f', 'arg') or v[0] == 'val' and not v[2]


def base(n):
    return n[:-3] if n.endswith('Set') and len(n) > 3 else n


def strip(v):
    for i in range(12):
        if v and v[0] == 'val' and len(v[2]) == 1:
            v = v[2][0]
        elif v and v[0] == 'c' and v[1].rsplit('::', 1)[-1] in ('move', 'forward', 'addressof', 'as_const') and len(v[3]) == 1 and v[2] is None:
            v = v[3][0]
        else:
            break
    return v


def path(t):
    """names of the fields that lead from this object to a place"""
    out = []
    while t and t[0] in ('f', 'deref'):
        if t[0] == 'f':
            out.append(t[2])
        t = t[1]
    return tuple(reversed(out)) if t and t[0] == 'this' and out else None


def places(v, out):
    v = strip(v)
    if v[0] == 'ite':
        places(v[2], out)
        places(v[3], out)
    elif v[0] in ('new', 'null') or v[0] == 'c' and v[1].rsplit('::', 1)[-1] in ('make_shared',):
        pass
    elif path(v):
        out.add(path(v))
    else:
        out.add(None)


def mentions(t, what):
    return any(x[0] == what for x in [t] + list(subterms(t)))


def one(rep, X, c, fs):
    P = X.P
    short = c.rsplit('::', 1)[-1]
    get, flag, coll = {}, {}, {}
    ops = []
    for f in fs:
        m = re.match(r'(get|set|add|remove|clear)([A-Z]\w*)$', f.name)
        if not m:
            continue
        rep.saw(f)
        kind, name = m.groups()
        if kind == 'get' and not f.params:
            ps = set()
            for pc, v in X.walk(c, f).returns():
                places(v, ps)
            if len(ps) == 1 and None not in ps:
                get[name] = (next(iter(ps)), f)
            else:
                rep.skip('same', '%s::%s' % (short, f.name), 'what it returns is computed')
        elif kind != 'get':
            ops.append((kind, name, f))
    # getters
    by = {}
    for n, (p, f) in get.items():
        by.setdefault(p, []).append(n)
    for n, (p, f) in sorted(get.items()):
        o = [x for x in by[p] if base(x) != base(n)]
        rep.ob(not o, 'distinct', '%s:%s' % (short, n), f.where, '%s: get%s returns the same state as get%s' % (short, n, ', get'.join(o)), short)
    for kind, name, f in ops:
        w = X.walk(c, f)
        if kind == 'set' and len(f.params) == 1:
            setter(rep, X, c, short, name, f, w, get, by)
        elif kind in ('add', 'remove', 'clear'):
            g = get.get(name + 'Set') or get.get(name) or get.get(name + 's')
            if g is None:
                rep.skip('collection', '%s::%s' % (short, f.name), 'no getter of that name')
                continue
            touched = {}
            for e in w.events:
                if e.kind == 'call' and e.a[2] is not None and path(e.a[2]):
                    n = e.a[0].rsplit('::', 1)[-1]
                    if kind == 'add' and n in PUSH and e.a[3] and mentions(e.a[3][-1], 'arg') or kind != 'add' and n in SHRINK or kind == 'clear' and n in ('resize', 'swap', 'assign'):
                        touched[path(e.a[2])] = e
                    elif n in PUSH + SHRINK:
                        touched.setdefault(path(e.a[2]), e)
                elif e.kind == 'assign' and path(e.a[0]) and is_cont(str(type_of(e.a[0]))):
                    touched[path(e.a[0])] = e
            if not touched:
                rep.skip('collection', '%s::%s' % (short, f.name), 'what it changes is not followed')
                continue
            rep.ob(g[0] in touched, 'collection', '%s:%s' % (short, f.name), f.where, '%s::%s changes %s, get%s returns %s' % (short, f.name, ', '.join('.'.join(p) for p in sorted(touched)), name, '.'.join(g[0])), short)
            for p in touched:
                o = [x for x in by.get(p, ()) if p != g[0]]
                rep.ob(not o, 'only', '%s:%s' % (short, f.name), f.where, '%s::%s changes what get%s returns' % (short, f.name, ', get'.join(o)), short)


def setter(rep, X, c, short, name, f, w, get, by):
    g = get.get(name)
    hit, other, calls, blocked = None, {}, False, None
    for e in w.events:
        if e.kind == 'assign' and path(e.a[0]):
            p = path(e.a[0])
            if g and p == g[0]:
                if hit is not True:
                    hit = True if mentions(e.a[1], 'arg') else False if plain(e.a[1]) else hit
                if mentions(e.a[1], 'arg'):
                    only = [l for l in e.pc if not mentions(l, 'arg')]
                    blocked = only if blocked is None or not only else blocked
            else:
                other[p] = e
        elif e.kind == 'call' and g and e.a[2] is not None and path(e.a[2]) == g[0] and e.a[0].rsplit('::', 1)[-1] in PUSH + ('assign', 'swap', 'reset'):
            hit = True
        elif e.kind == 'call' and any(mentions(a, 'arg') for a in e.a[3] or []):
            calls = True
    where = f.where
    if g:
        if hit is None and (calls or not other or any(not plain(e.a[1]) for e in w.events if e.kind == 'assign')):
            rep.skip('same', '%s::%s' % (short, f.name), 'what it stores is not followed')
        else:
            rep.ob(hit is True, 'same', '%s:%s' % (short, f.name), where, '%s::%s stores its argument in %s, get%s returns %s' % (short, f.name, ', '.join('.'.join(p) for p in sorted(other)) or 'nothing', name, '.'.join(g[0])), short)
        if hit is True and blocked is not None:
            rep.ob(not blocked, 'kept', '%s:%s' % (short, f.name), where, '%s::%s stores its argument only if %s' % (short, f.name, ' and '.join(show(l) for l in blocked)[:120]), short)
    if not is_element(X.P, c) and not c.endswith('Document'):
        return                      # a value may well keep a second member that says which kind it is
    if not g:
        # a setter without a getter of its name stands for one getter at most
        hit = {x[3:] if x.startswith('Has') else x for p in other for x in by.get(p, ())} - {'Choice'}
        rep.ob(len(hit) < 2, 'only', '%s:%s' % (short, f.name), where, '%s::%s changes what get%s return' % (short, f.name, ', get'.join(sorted(hit))), short)
        return
    for p, e in sorted(other.items()):
        o = [x for x in by.get(p, ()) if x != name and x != 'Has' + name and x != 'Choice']
        rep.ob(not o, 'only', '%s:%s' % (short, f.name), where, '%s::%s changes what get%s returns' % (short, f.name, ', get'.join(o)), short)
    if g and not other:
        rep.ok('only', '%s::%s' % (short, f.name))
