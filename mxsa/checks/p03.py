"""P03: element order and vocabulary follow the schema."""
from ..core import *
from ..sym import atoms
from ..prog import pointee, bare
from ..rep import parallel
from ..xsd import schema, INF
from .p01 import written, is_end
from .p02 import alternatives, Paths, State, deeper


def run(rep, P):
    M = Model(P)
    rep.rule('element-name', 'the name under which an element is written is an element name of the MusicXML schema', 300)
    rep.rule('child-vocabulary', 'every child an element can write is a child the schema allows for that element', 400)
    rep.rule('child-order', 'two children that can be written together are written in an order the schema allows', 2500)
    rep.rule('child-count', 'a child that the schema allows at most once is not written from a list or twice', 200)
    rep.rule('required-child', 'a child the schema always requires is written in every state of the element', 45)
    rep.rule('required-choice', 'when the schema requires one of several children, one of them is written in every state of the element', 9)
    rep.rule('attribute-vocabulary', 'every attribute an element can write is an attribute the schema allows for that element', 1500)
    rep.rule('tags', 'an element is written as one opening tag, its contents and one closing tag of the same name, or as one self-closing tag', 4)
    S, S31 = schema(), schema('3.1')
    parallel([c for c in M.elements if M.names(c) is not None], lambda c, r: one(r, P, M, S, c), rep)
    tags(rep, P, M)


def enum_split(M, t):
    """terms compared with enumerators in t: [(term, [enumerator terms])]"""
    d = {}
    for x in subterms(t):
        if x[0] == 'eq':
            for a, b in ((x[1], x[2]), (x[2], x[1])):
                if b[0] == 'e' and a[0] != 'e':
                    d.setdefault(a, set()).add(b)
    return d


def valid(M, t, asg):
    """t holds for every value of its atoms (enumerations take one of their values)"""
    d = enum_split(M, t)
    keys = list(d)
    doms = []
    for k in keys:
        en = next(iter(d[k]))[1].rsplit('::', 1)[0]
        ev = M.P.enums.get(en)
        if ev is None:
            return None
        doms.append(['%s::%s' % (en, v[0]) for v in ev['c']])
    res = []

    def rec(i, env):
        if i == len(keys):
            def atom(x):
                if x[0] == 'eq':
                    for a, b in ((x[1], x[2]), (x[2], x[1])):
                        if a in env and b[0] == 'e':
                            return env[a] == b[1]
                return asg(x)
            r = decide(t, atom)
            if r is None and len(atoms(t)) <= 14 and all(simple(x) for x in atoms(t) if atom(x) is None):
                r = False         # independent facts: some combination refutes it
            res.append(r)
            return
        for v in doms[i]:
            env[keys[i]] = v
            rec(i + 1, env)
        del env[keys[i]]
    n = 1
    for x in doms:
        n *= len(x)
    if n > 400:
        return None
    rec(0, {})
    if all(r is True for r in res):
        return True
    if any(r is False for r in res):
        return False
    return None


def simple(x):
    return x[0] in ('f', 'empty', 'has') or x[0] == 'eq' and any(y[0] in ('e', 's', 'n') for y in x[1:3])


def base_atom(x):
    if x[0] == 'isnull':
        return False
    return None


def exclusive(M, p, q):
    """no state satisfies both conditions"""
    t = conj(list(p) + list(q))
    if t == FALSE:
        return True
    return valid(M, neg(t), base_atom) is True


def one(rep, P, M, S, cls):
    short = cls.rsplit('::', 1)[-1]
    names = M.names(cls)
    where = M.method(cls, 'streamName').where
    group = M.is_group(cls)
    for g, n in names:
        if n is None:
            rep.skip('element-name', short, 'name not constant')
        else:
            rep.ob(n in S.types, 'element-name', short, where, '%s is written as <%s>, which is not an element of the schema' % (short, n), short)
    if group:
        return
    types = [t for g, n in names for t in S.types.get(n, [])]
    attributes(rep, P, M, S, cls, short, names, types)
    W = M.writer(cls)
    if W is None or not types:
        return
    rep.saw(M.method(cls, 'streamContents'))
    wp = Paths(cls, W.events)
    ev = []       # (name, path, term, pc, event)
    unk = bool(W.unknown)
    for e in W.events:
        if e.kind == 'call' and e.a[0] == EI + '::toStream':
            for g, t in alternatives(e.a[2]):
                tc = pointee(type_of(t))
                for g2, n in (M.names(tc) if tc in P.rec and M.method(tc, 'streamName') else None) or [((), None)]:
                    if n is None:
                        unk = True
                        rep.skip('child-vocabulary', short, 'child of unknown name')
                        continue
                    ev.append((n, wp.path(t), t, tuple(e.pc) + g, e, len(M.names(tc))))
    if not ev:
        # a required child that is never written
        for n in sorted({k for t in types if t.content for k in S.children(t.content)}):
            if all(t.content and S.min_count(t.content, n) > 0 for t in types) and not unk:
                rep.bad('required-child', '%s<%s>' % (short, n), M.method(cls, 'streamContents').where, '%s never writes <%s>, which the schema requires' % (short, n))
        return
    if not any(t.content for t in types):
        rep.bad('child-vocabulary', short, ev[0][4].where, '%s writes a child <%s>, but the schema allows no children' % (short, ev[0][0]))
        return
    cts = [t for t in types if t.content]
    # several types under one name: those that know the children
    best = [t for t in cts if all(x[0] in S.children(t.content) for x in ev)] or cts
    for n, p, t, pc, e, k in ev:
        rep.ob(any(n in S.children(tp.content) for tp in best), 'child-vocabulary', '%s<%s>' % (short, n), e.where, '%s writes a child <%s>, which the schema does not allow there' % (short, n), '%s<%s>' % (short, n))
    # order
    cache = {}
    for i, a in enumerate(ev):
        for j in range(i + 1, len(ev)):
            b = ev[j]
            if a[0] == b[0] or a[4] is b[4] and a[2] == b[2]:
                continue
            if not any(a[0] in S.children(tp.content) and b[0] in S.children(tp.content) for tp in best):
                continue
            loop = common_loop(a[4], b[4])
            pairs = [(a, b)] + ([(b, a)] if loop else [])
            if a[4] is b[4]:
                pairs = [(a, b), (b, a)] if loop else []
            for x, y in pairs:
                key = '%s<%s>before<%s>' % (short, x[0], y[0])
                if any(S.can_precede(tp.content, x[0], y[0]) for tp in best):
                    rep.ok('child-order', key)
                    continue
                k = (x[3], y[3])
                if not loop:
                    if k not in cache:
                        cache[k] = exclusive(M, x[3], y[3])
                    if cache[k]:
                        rep.ok('child-order', key)
                        continue
                rep.bad('child-order', key, y[4].where, '%s can write <%s> before <%s>, which the schema does not allow' % (short, x[0], y[0]))
    # count
    for n in sorted({x[0] for x in ev}):
        mx = max(S.max_count(tp.content, n) for tp in best)
        xs = [x for x in ev if x[0] == n]
        if mx > 1:
            # bounded lists are kept within their bound by the adding operations (checked elsewhere)
            continue
        key = '%s<%s>' % (short, n)
        lp = [x for x in xs if x[4].loops]
        two = [(x, y) for i, x in enumerate(xs) for y in xs[i + 1:] if not exclusive(M, x[3], y[3])]
        if lp:
            rep.bad('child-count', key, lp[0][4].where, '%s can write several <%s>, the schema allows one' % (short, n))
        else:
            rep.ob(not two, 'child-count', key, xs[0][4].where, '%s can write <%s> twice, the schema allows one' % (short, n), key)
    # required children
    st = State(M, cls, wp)

    def cond(x):
        pc = list(x[3])
        if x[4].loops:
            # one member at least from construction on
            c = x[2]
            while c[0] == 'f':
                c = c[1]
            base = c[1] if c[0] in ('elem', 'at') else None
            if base is None or st.initially_empty(base) is not False:
                return None
            pc = [l for l in pc if l != neg(('empty', base))]
            pc = [l for l in pc if not any(y == base for y in subterms(l)) or True]
        return conj(pc)

    def atom(x):
        if x[0] == 'isnull':
            return False
        if x[0] == 'empty':
            return False if st.initially_empty(x[1]) is False else None
        return None
    for n in sorted({k for t in best for k in S.children(t.content)}):
        if not all(S.min_count(t.content, n) > 0 for t in best):
            continue
        key = '%s<%s>' % (short, n)
        xs = [x for x in ev if x[0] == n]
        if not xs:
            rep.bad('required-child', key, ev[0][4].where, '%s never writes <%s>, which the schema requires' % (short, n))
            continue
        judge(rep, M, 'required-child', key, xs, [cond(x) for x in xs], atom, '%s does not always write <%s>, which the schema requires' % (short, n))
    for t in best:
        for ch in required_choices(t.content):
            ks = S.children(ch)
            xs = [x for x in ev if x[0] in ks]
            if not xs or any(S.min_count(t.content, k) > 0 for k in ks):
                continue
            if any(optional(k) for k in ch[3]):
                continue
            key = '%s<%s>' % (short, '|'.join(sorted(ks)))
            judge(rep, M, 'required-choice', short + ':' + min(ks), xs, [cond(x) for x in xs], atom, '%s does not always write one of <%s>, which the schema requires' % (short, '|'.join(sorted(ks))))


def judge(rep, M, rule, key, xs, conds, atom, msg):
    known = [c for c in conds if c is not None]
    r = valid(M, disj(known), atom) if known else False
    if r is True:
        rep.ok(rule, key)
    elif len(known) == len(conds) and r is False or not known:
        rep.bad(rule, key, xs[0][4].where, msg)
    else:
        # could still fail for some combination: look for a definite counterexample
        rep.skip(rule, key, 'not decided')


def required_choices(p):
    """choices that every content contains at least once"""
    if p is None or p[0] == 'elem' or p[1] < 1:
        return
    if p[0] == 'choice':
        yield p
        return
    for k in p[3]:
        yield from required_choices(k)


def optional(p):
    """the particle can be empty"""
    if p[1] == 0:
        return True
    if p[0] == 'elem':
        return False
    f = [optional(k) for k in p[3]]
    return any(f) if p[0] == 'choice' else all(f)


def common_loop(a, b):
    return a.loops and b.loops and a.loops[0] == b.loops[0]


def attributes(rep, P, M, S, cls, short, names, types):
    A = M.walk(cls, 'streamAttributes')
    if A is None or not types:
        return
    rep.saw(M.method(cls, 'streamAttributes'))
    for n, v, pc, e in written(A):
        if n is None:
            rep.skip('attribute-vocabulary', short, 'attribute name not constant')
            continue
        if n.startswith('xmlns'):
            continue
        key = '%s.%s' % (short, n)
        ok = any(n in t.attrs for t in types)
        rep.ob(ok, 'attribute-vocabulary', key, e.where, '<%s> is written with an attribute %s that the schema does not allow there' % ('|'.join(str(x[1]) for x in names), n), key)


def tags(rep, P, M):
    """opening and closing tags of ElementInterface"""
    fs = {f.name: f for f in P.by_cls.get(EI, ()) if f.body}
    keep = ('streamName', 'streamAttributes', 'hasAttributes', 'hasContents', 'streamContents', 'streamOpenTag', 'streamCloseTag', 'streamSelfCloseTag')

    def into(*a):
        g = next((x for x in a if hasattr(x, 'body')), None)
        return g is not None and g.name not in keep and g.qn.startswith('mx::core::')
    for n, open_, close in (('streamOpenTag', '<N', '>'), ('streamCloseTag', '</N', '>'), ('streamSelfCloseTag', '<N', '/>')):
        f = fs.get(n)
        if f is None:
            rep.skip('tags', n, 'not found')
            continue
        w = Walker(inline=into).run(f, this=('this', EI))
        rep.saw(f)
        bad, und = None, False
        for has in (True, False):
            def atom(x):
                return has if x[0] == 'c' and x[1].endswith('::hasAttributes') else None
            s = ''
            for e in w.events:
                if e.kind not in ('out', 'call'):
                    continue
                m = e.a[0].rsplit('::', 1)[-1] if e.kind == 'call' else None
                if m is not None and m not in ('streamName', 'streamAttributes'):
                    continue
                t = evalpc(e.pc, atom)
                if t is False:
                    continue
                if t is None or e.loops:
                    und = True
                elif m is None:
                    v = e.a[1]
                    s += v[1] if v[0] == 's' else chr(v[1]) if v[0] == 'ch' else '?'
                else:
                    s += 'N' if m == 'streamName' else '(A)'
            und = und or '?' in s
            want = [open_ + x + close for x in (['(A)'] if has else ['', '(A)'])] if n != 'streamCloseTag' else [open_ + close]
            if s not in want:
                bad = bad or (s, want[0])
        if und:
            rep.skip('tags', n, 'not followed')
        else:
            rep.ob(bad is None, 'tags', n, f.where, '%s writes %s instead of %s' % ((n,) + (bad or ('', ''))), n)
    f = fs.get('streamWithoutProcessingInstructions')
    if f is None:
        rep.skip('tags', 'streamWithoutProcessingInstructions', 'not found')
        return
    rep.saw(f)
    w = Walker(inline=lambda *a: False).run(f, this=('this', EI))
    has = None
    calls = []
    for e in w.events:
        if e.kind == 'call':
            m = e.a[0].rsplit('::', 1)[-1]
            if m in ('streamOpenTag', 'streamContents', 'streamCloseTag', 'streamSelfCloseTag'):
                calls.append((m, e))

    def seq(v):
        def atom(x):
            if x[0] == 'c' and x[1].endswith('::hasContents'):
                return v
            return None
        return [m for m, e in calls if evalpc(e.pc, atom) is not False]
    if any(evalpc(e.pc, lambda x: v if x[0] == 'c' and x[1].endswith('::hasContents') else None) is None for m, e in calls for v in (True, False)) or not calls:
        rep.skip('tags', 'element', 'not followed')
        return
    rep.ob(seq(True) == ['streamOpenTag', 'streamContents', 'streamCloseTag'] and seq(False) == ['streamSelfCloseTag'], 'tags', 'element', f.where,
           'an element is not written as opening tag, contents, closing tag (or self-closing when it has no contents)', 'element')
