"""P17: what the API writer sets is switched on in the document."""
from ..core import *
from ..fold import Unknown
from ..keep import lost, twice
from ..present import Presence, Walk, single_return
from ..prog import bare, walk


def run(rep, P):
    rep.rule('marked', 'wherever a value is stored into an optional part of an element, the part is marked present on the same path', 150)
    rep.rule('selected', 'wherever something is stored into an alternative of an element, that alternative is selected', 60)
    rep.rule('present', 'wherever an optional part of an element is read, it was found present before', 150)
    rep.rule('arrives', 'what is stored into an object that the conversion makes becomes part of the document or the score with that object', 500)
    rep.rule('once', 'an element is added to the document once: not a second time on the same path, not to the collection that it was taken from', 60)
    PR = Presence(P)
    inlined, res = set(), []
    stores, alts, reads, bad, badalt, badread = {}, {}, {}, {}, {}, {}
    for f in sorted(P.fn.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or not f.qn.startswith('mx::impl::') or not mentions(P, f):
            continue
        rep.saw(f)
        W = Walk(P, PR, f)
        try:
            env = W.result()
        except (Unknown, RecursionError):
            rep.skip('marked', f.qn, 'too large')
            continue
        inlined |= W.inlined
        res.append((f, W, env))
    for f, W, env in res:
        stores.update(W.stores)
        alts.update(W.alts)
        top = f.id not in inlined and single_return(f) is None        # nobody hands in the element and goes on with it
        mine = lambda p: p[0] == 'v' and p[2] not in {x[0] for x in f.params} or top
        for k in env:
            if not isinstance(k, tuple):
                continue
            if k[0] in ('pend', 'weak') and mine(k[1]):
                bad.setdefault((k[5], k[3], k[4]), k[0])
            if k[0] == 'neg' and mine(k[1]) and not empty(env[k]) and not reset(W, k[3], k[4], env[k]):
                bad.setdefault((k[5], k[3], k[4]), k[0])
            if k[0] == 'badalt':
                badalt.setdefault((k[5], k[3], k[4]), k[6])
            if k[0] == 'alt':
                p, al, what, cls, site = k[1:]
                v = env.get(('choice', p))
                if v is None and ('chg', p) not in env and made(env, p):
                    v = default(P, PR.CH, cls)
                if v is not None and v[1] not in al:
                    badalt.setdefault((site, what, cls), v[1])
        for k, got in W.reads.items():
            for ok, p in got:
                reads.setdefault(k, False)
                if not ok and mine(p) and not any(p[:len(w)] == w or w[:len(p)] == p for w in W.written):
                    badread[k] = True
    for k in sorted(stores):
        (fn, file, line), what, cls = k
        b = bad.get(k)
        rep.ob(b is None, 'marked', '%s:%s:%s' % (fn.split('::', 2)[-1], cls.split('::')[-1], what), '%s:%d' % (file, line),
               '%s stores into %s of %s, %s' % (fn, what, cls, 'and then marks it absent' if b == 'neg' else 'but there is a path on which it is not marked present'), cls.split('::')[-1])
    for k in sorted(alts):
        (fn, file, line), what, cls = k
        b = badalt.get(k)
        rep.ob(b is None, 'selected', '%s:%s:%s' % (fn.split('::', 2)[-1], cls.split('::')[-1], what), '%s:%d' % (file, line),
               '%s stores into %s of %s while %s is selected' % (fn, what, cls, b), cls.split('::')[-1])
    for k in sorted(reads):
        (fn, file, line), what, cls = k
        rep.ob(k not in badread, 'present', '%s:%s:%s' % (fn.split('::', 2)[-1], cls.split('::')[-1], what), '%s:%d' % (file, line),
               '%s reads %s of %s without having found it present' % (fn, what, cls), cls.split('::')[-1])

    kinds = [lambda t: t.startswith(('std::shared_ptr<mx::core::', 'std::unique_ptr<mx::core::', 'mx::api::')) or t.startswith('mx::core::') and not t.endswith(('&', '*'))]
    for f in sorted(P.fn.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or not f.qn.startswith('mx::impl::'):
            continue
        got, many = lost(P, f, kinds)
        for _ in range(many):
            rep.skip('arrives', f.qn, 'too many paths')
        for line, name, ty, facts in got:
            rep.ob(facts is None, 'arrives', '%s:%s:%s' % (f.qn.split('::', 2)[-1], bare(ty), name), '%s:%d' % (f.file, line),
                   '%s stores into %s (%s), but there is a path on which that object is dropped' % (f.qn, name, ty), bare(ty))

    for f in sorted(P.fn.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or not f.qn.startswith('mx::impl::'):
            continue
        got, many = twice(P, f)
        for _ in range(many):
            rep.skip('once', f.qn, 'too many paths')
        for line, name, why in got:
            rep.ob(why is None, 'once', '%s:%s' % (f.qn.split('::', 2)[-1], name), '%s:%d' % (f.file, line),
                   '%s adds %s, which on some path %s' % (f.qn, name, why), f.cls or f.name)


def empty(v):
    """nothing of value was stored"""
    return v is not None and v[0] == 'const' and (v[1] in (0, 0.0, '', False) or 'unspecified' in str(v[1]))


def reset(W, what, cls, v):
    """elsewhere the same value is stored and marked present: this is the other side of that decision"""
    if v is not None and v[0] == 'const':
        return any(o[:2] == (what, cls) and (o[2] is None or o[2][0] != 'const') for o in W.on)
    return (what, cls, v) in W.on


def made(env, p):
    return any(('made', p[:i]) in env for i in (3,))


def default(P, CH, cls):
    enum, field, acc = CH.of(cls)
    vals = set()
    for f in P.methods(cls):
        if 'k' in f.flags and not f.params:
            for i in f.inits:
                if i[0] == field:
                    walk(i[1], lambda n: vals.add(n[2]) if n[0] == 'e' else None)
    return ('e', next(iter(vals))) if len(vals) == 1 else None


def mentions(P, f):
    hit = []

    def look(n):
        if n[0] == 'm' and isinstance(n[4], str) and n[4].startswith('mx::core::'):
            hit.append(1)
        elif n[0] == 'c':
            inf = P.info.get(n[2])
            if inf is not None and (inf[1] or '').startswith('mx::core::') or any('mx::core::' in t for t in (inf[3] if inf is not None else [])):
                hit.append(1)
    walk(f.body, look)
    return bool(hit)
