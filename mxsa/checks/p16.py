"""P16: fresh values are fully initialised."""
from ..prog import bare, pointee
from ..sym import Walker, show, subterms, disj, conj, TRUE, neg
from ..rep import parallel

SCOPE = ('mx::api::', 'mx::core::', 'mx::impl::', 'mx::utility::')


def covers(pcs):
    """the path conditions together always hold"""
    return disj([conj(list(p)) for p in pcs]) == TRUE


def is_copy_param(f, cls):
    return len(f.ptypes) == 1 and bare(f.ptypes[0]) == cls


def run(rep, P):
    rep.rule('ctor-initialises', 'every constructor gives every scalar, enum and pointer field a value on every path (in-class initialiser, member initialiser, delegation or assignment)', 600)
    rep.rule('no-early-read', 'no member initialiser reads a field that is initialised later', 600)
    rep.rule('aggregate-initialised', 'a type without constructors gives its scalar fields in-class initialisers, or is only ever created with all of them given', 1)
    rep.rule('copy-complete', 'a hand-written copy or assignment operator takes over every field', 1)
    items = []
    for cls, r in sorted(P.rec.items()):
        if cls.startswith(SCOPE):
            items.append(cls)
    agg_uses = find_creations(P)

    def one(cls, rep):
        r = P.rec[cls]
        fs = P.by_cls.get(cls, ())
        ctors = [f for f in fs if 'k' in P.info[f.id][4] and f.body]
        need = [x for x in r['f'] if 's' in x[3] or 'e' in x[3]]
        for f in ctors:
            if f.inits is None:
                continue
            names = [i[0] for i in f.inits]
            if '<delegate>' in names:
                rep.ok('ctor-initialises', f.where)
                continue
            if not need and not f.inits:
                continue
            rep.saw(f)
            w = Walker().run(f)
            done = {}
            whole = []
            ends = [set(p) for p, v in w.returns()]
            always = set.intersection(*ends) if ends else set()
            for e in w.events:
                if e.kind == 'assign' and e.a[0][0] == 'f' and e.a[0][1] == ('this', cls) and e.a[2] in ('init', '=') and e.a[1] != ('undef',):
                    done.setdefault(e.a[0][2], []).append(tuple(x for x in e.pc if x not in always) if not e.loops else (('loop',),))
                elif e.kind == 'assign' and e.a[0] == ('this', cls):
                    whole.append(e.pc)
                elif e.kind in ('call', 'icall'):
                    for t in (e.a[3] if e.kind == 'call' else e.a[1]):
                        if t == ('this', cls):
                            whole.append(e.pc)
            for fl in need:
                if fl[2] is not None or fl[0] in names:
                    good = True
                else:
                    pcs = done.get(fl[0], []) + whole
                    good = bool(pcs) and covers(pcs)
                if not good and cls.startswith('mx::impl::') and set_before_use(P, cls, fl[0]):
                    rep.skip('ctor-initialises', '%s.%s' % (cls, fl[0]), 'internal worker: every public entry point sets the field first')
                    continue
                rep.ob(good, 'ctor-initialises', '%s(%s).%s' % (cls, ','.join(f.ptypes), fl[0]), f.where,
                       'constructor of %s leaves field %s (%s) uninitialised' % (cls, fl[0], fl[1]), '%s.%s' % (cls, fl[0]))
            # order: clang lists the initialisers in the order they run
            seen = set()
            order = [x[0] for x in r['f']]
            pos = {n: i for i, n in enumerate(order)}
            for fname, ex, wr in f.inits:
                if fname not in pos:
                    continue
                bad = early(ex, pos, pos[fname], P, cls, {x[0]: x for x in r['f']})
                rep.ob(bad is None, 'no-early-read', '%s.%s' % (cls, fname), '%s:%d' % (f.file, ex[1] if ex else f.line),
                       'the initialiser of %s reads %s, which is initialised later' % (fname, bad))
            if is_copy_param(f, cls):
                copy_complete(rep, P, f, r, cls, w)
        for f in fs:
            if f.name == 'operator=' and f.body and is_copy_param(f, cls):
                w = Walker().run(f)
                copy_complete(rep, P, f, r, cls, w)
        if not ctors:
            un = [x for x in need if x[2] is None]
            for x in un:
                bad = agg_uses.get(cls, {}).get('bare')
                if bad:
                    rep.bad('aggregate-initialised', '%s.%s' % (cls, x[0]), bad, 'an object of %s is created without initialising %s' % (cls, x[0]))
                elif '/include/mx/api/' in r['file']:
                    rep.bad('aggregate-initialised', '%s.%s' % (cls, x[0]), '%s:%d' % (r['file'], x[4]), 'public type %s has no constructor and no initialiser for %s: "%s x;" leaves it undefined' % (cls, x[0], cls))
                else:
                    rep.ok('aggregate-initialised', cls)
            if not un:
                rep.ok('aggregate-initialised', cls)
    parallel(items, one, rep)


def set_before_use(P, cls, name):
    """an internal worker object may leave a field to its public methods, when each one sets it unconditionally"""
    for f in P.by_cls.get(cls, ()):
        if f.acc != 'public' or 'k' in P.info[f.id][4] or 'd' in P.info[f.id][4] or not f.body:
            continue
        w = Walker().run(f)
        t = [e for e in w.events if e.kind == 'assign' and e.a[0] == ('f', ('this', cls), name, cls)]
        if not t or t[0].pc or t[0].loops:
            return False
    return True


def early(ex, pos, me, P, cls, fields):
    hit = []

    def f(n):
        if n[0] == 'm' and n[3] in pos and n[2] and n[2][0] == 'this' and pos[n[3]] >= me:
            fl = fields[n[3]]
            hit.append(n[3])
    from ..prog import walk
    if ex:
        # taking the address or binding a reference only is harmless, but nothing in this code base does it
        walk(ex, f)
    return hit[0] if hit else None


def copy_complete(rep, P, f, r, cls, w):
    src = ('arg', 0, f.params[0][1], f.qn)
    got = set()
    for e in w.events:
        if e.kind == 'assign' and e.a[0][0] == 'f' and e.a[0][1] == ('this', cls):
            if any(t[0] == 'f' and t[2] == e.a[0][2] and t[1] == src for t in subterms(e.a[1])):
                got.add(e.a[0][2])
    deep = {}
    for e in w.events:
        if e.kind == 'call' and e.a[2] is not None:
            for t in subterms(e.a[2]):
                if t[0] == 'f' and t[1] == ('this', cls):
                    for a in e.a[3]:
                        if any(u[0] == 'f' and u[1] == src and u[2] == t[2] for u in subterms(a)):
                            got.add(t[2])
    for x in r['f']:
        if 'r' in x[3] or 'c' in x[3] or 'mutex' in x[1]:
            continue
        if x[0] in got:
            rep.ok('copy-complete', '%s.%s' % (cls, x[0]))
        else:
            # swap idiom or anything else that touches the whole source object
            whole = any(src in (e.a[3] if e.kind == 'call' else ()) for e in w.events if e.kind == 'call')
            if whole or any(any(t == ('f', src, x[0], x2) for x2 in (cls,) for t in subterms(a)) for e in w.events for a in e.a if isinstance(a, tuple)):
                rep.skip('copy-complete', '%s.%s' % (cls, x[0]), 'taken over in an unusual way')
            else:
                rep.bad('copy-complete', '%s.%s' % (cls, x[0]), f.where, 'copying a %s does not take over %s' % (cls, x[0]))


def find_creations(P):
    """declarations 'T x;' of aggregates with uninitialised scalars in library code"""
    out = {}
    agg = {}
    for cls, r in P.rec.items():
        if cls.startswith(SCOPE) and not any('k' in P.info[f.id][4] and f.body for f in P.by_cls.get(cls, ())):
            need = {x[0] for x in r['f'] if ('s' in x[3] or 'e' in x[3]) and x[2] is None}
            if need:
                agg[cls] = need
    from ..prog import walk
    for f in P.fn.values():
        if not f.body:
            continue
        decls = {}

        def v(n):
            if n[0] == 'd':
                for vid, name, ty, init, fl in n[2]:
                    t = bare(ty)
                    if t in agg and (init is None or (init[0] == 'k' and not init[4] and 'z' not in (init[5] if len(init) > 5 else ''))):
                        decls[vid] = (t, n[1], name)
        walk(f.body, v)
        for vid, (t, line, name) in decls.items():
            # every scalar assigned somewhere in the function counts as initialised here
            ass = set()

            def a(n):
                if n[0] == 'b' and n[2] == '=' and n[3][0] == 'm' and n[3][2] and n[3][2][0] == 'v' and n[3][2][2] == vid:
                    ass.add(n[3][3])
            walk(f.body, a)
            if agg[t] - ass:
                out.setdefault(t, {})['bare'] = '%s:%d' % (f.file, line)
    return out
