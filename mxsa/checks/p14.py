"""P14: every kind of mark is classified and handled once."""
from ..choice import Choices
from ..core import *
from ..fold import Fold, THROWS, Unknown
from ..prog import bare, walk
from ..reach import Reach
from .p13 import conversions, last, sentinel, side

MARK = 'mx::api::MarkType'


def run(rep, P):
    rep.rule('one-family', 'every mark kind belongs to a family, and to two only if one of them is part of the other', 100)
    rep.rule('family-converts', 'the family predicate of a mark kind and the conversion of that family agree', 80)
    rep.rule('written', 'every mark kind that is read from a document is also written to one', 90)
    rep.rule('right-alternative', 'for every mark kind, the writer fills the alternative that it selected', 50)
    rep.rule('read-alternative', 'for every alternative, the reader looks into that alternative and no other', 60)
    rep.rule('same-mark', 'a mark kind that has no conversion table comes back as the same kind', 8)
    F = Fold(P)
    CH = Choices(P)
    marks = [('e', MARK + '::' + c[0]) for c in P.enums[MARK]['c']]
    # families by predicate
    preds = {}
    for f in sorted(P.fn.values(), key=lambda f: (f.file, f.line)):
        if f.body is not None and f.qn.startswith('mx::') and len(f.params) == 1 and bare(f.ptypes[0]) == MARK and f.ret == 'bool':
            vs = {m: F.value(f, [m]) for m in marks}
            rep.saw(f)
            if any(v is None for v in vs.values()):
                rep.skip('one-family', f.qn, 'not determined')
                continue
            preds[f] = {m for m, v in vs.items() if v is True}
    # families by conversion
    C = conversions(P)
    fam = {}
    for (a, b, name), f in sorted(C.items()):
        if b != MARK or side(a) != 'core':
            continue
        g = C.get((b, a, name))
        vs = {('e', a + '::' + c[0]): F.value(f, [('e', a + '::' + c[0])]) for c in P.enums[a]['c']}
        fam[f] = (a, g, vs, {v for v in vs.values() if v and v != THROWS and not sentinel(last(v))})
        rep.saw(f, *([g] if g else []))
    best = {}
    for f, (a, g, vs, image) in fam.items():
        b = sorted(preds.items(), key=lambda kv: (-len(kv[1] & image), len(kv[1])))
        if b and len(b[0][1] & image) >= max(2, len(image) // 2):
            best[f] = b[0]
    # a conversion with a predicate of its own is the same family: their agreement is a rule of its own
    sets = [(f.name, s) for f, s in preds.items()] + [(f.name, i) for f, (a, g, vs, i) in fam.items() if f not in best]
    for m in marks:
        if sentinel(last(m)) or last(m).startswith('custom') and 'rror' in last(m) or last(m).endswith('Unknown'):
            continue
        mine = [(n, s) for n, s in sets if m in s]
        bad = [(n, o) for i, (n, s) in enumerate(mine) for o, t in mine[i + 1:] if not (s <= t or t <= s)]
        f0 = next(iter(preds)).where if preds else ''
        rep.ob(bool(mine) and not bad, 'one-family', last(m), f0,
               'mark kind %s %s' % (last(m), 'belongs to no family' if not mine else 'belongs to both %s and %s' % (bad or [('', '')])[0]), 'families')
    # predicate against conversion
    for f, (a, g, vs, image) in fam.items():
        if f not in best:
            continue
        p, pset = best[f]
        sub = set().union(*[s for q, s in preds.items() if s < pset] or [set()])
        for m in sorted(image):
            rep.ob(m in pset, 'family-converts', '%s:%s' % (p.name, last(m)), p.where,
                   '%s is read as a mark of this family by %s, but %s does not accept it' % (last(m), f.qn, p.name), p.name)
        if g is None:
            continue
        default = F.value(g, [('e', MARK + '::?')])
        for m in sorted(pset):
            if sentinel(last(m)):
                continue
            w = F.value(g, [m])
            x = vs.get(w)
            if m in sub or m not in image and len(image) < len(pset) // 2:
                continue        # handled by the rules below
            if w is None:
                rep.skip('family-converts', p.name, last(m))
                continue
            rep.ob(w != default or x == m, 'family-converts', '%s:%s' % (p.name, last(m)), g.where,
                   '%s accepts %s, but %s has no value for it and gives %s' % (p.name, last(m), g.qn, last(w)), p.name)
    writers(rep, P, F, CH, marks, fam, preds)
    readers(rep, P, CH)


def mark_oracle(m):
    def oracle(R, n, env):
        if n[0] == 'm' and n[3] == 'markType':
            return m
        return None
    return oracle


def choice_visit(P, CH, out):
    """keeps track of the alternative that was selected and reports accessors of another one"""
    def visit(R, n, env):
        if n[0] != 'c' or n[3] is None:
            return env
        f = P.fn.get(n[2])
        inf = P.info.get(n[2])
        cls = inf[1] if inf is not None else None
        ch = CH.of(cls) if cls else None
        if ch is None:
            return env
        name = P.q(n[2]).rsplit('::', 1)[-1]
        p = R.path(n[3], env)
        if p is None:
            return env
        if name == 'setChoice':
            env = dict(env)
            v = R.const(n[4][0], env)
            env.pop(('choice', p), None)
            if v is not None:
                env[('choice', p)] = v
        elif name in ch[2]:
            out(R, n, cls, name, env.get(('choice', p)), ch[2][name])
        return env
    return visit


def writers(rep, P, F, CH, marks, fam, preds):
    """what is selected and filled for every kind"""
    fs = []
    for f in sorted(P.fn.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or not f.qn.startswith('mx::impl::'):
            continue
        hit = [0, 0]

        def look(n):
            if n[0] == 'm' and n[3] == 'markType':
                hit[0] = 1
            if n[0] == 'c' and P.q(n[2]).endswith('::setChoice'):
                hit[1] = 1
        walk(f.body, look)
        if all(hit):
            fs.append(f)
    readable = set()
    for f, (a, g, vs, image) in fam.items():
        readable |= image
    for f in fs:
        rep.saw(f)
        for m in marks:
            wrong, seen = [], []

            def out(R, n, cls, name, sel, alts):
                seen.append(name)
                if sel is None:
                    return
                if sel[1] not in alts:
                    wrong.append((R.stack[-1], n[1], name, last(sel)))
            v = choice_visit(P, CH, out)
            R = Reach(P, mark_oracle(m), lambda R, g: g.cls == f.cls and g.body is not None, v)
            try:
                R.run(f, {})
            except Unknown:
                rep.skip('right-alternative', f.qn, 'too large')
                break
            if seen or wrong:
                g = wrong[0][0] if wrong else f
                rep.ob(not wrong, 'right-alternative', '%s:%s' % (f.name, last(m)), '%s:%d' % (g.file, wrong[0][1] if wrong else 0),
                       'for the mark %s, %s selects %s but fills what %s gives' % (last(m), g.qn, wrong[0][3] if wrong else '', wrong[0][2] if wrong else ''), f.name)
    # a kind is written when some writer does something for it that it does not do for a kind nobody knows
    for m in sorted(readable | set().union(*preds.values())):
        if sentinel(last(m)):
            continue
        extra = False
        for f in fs:
            if selected(P, f, m, MARK) != selected(P, f, ('e', MARK + '::?'), MARK):
                extra = True
        rep.ob(extra, 'written', last(m), fs[0].where if fs else '', 'no writer does anything for the mark kind %s: it is lost when the score is written' % last(m), 'writers')
    same(rep, P, F, fs, marks, fam, preds)


_sel = {}


def selected(P, f, m, mark):
    """alternatives that are selected, and calls that are made, for a kind"""
    k = (f.id, m)
    if k not in _sel:
        out = set()

        def visit(R, n, env):
            if n[0] == 'c':
                out.add((P.q(n[2]), n[1]))
            return env
        R = Reach(P, mark_oracle(m), lambda R, g: g.cls == f.cls and g.body is not None, visit)
        try:
            R.run(f, {})
        except Unknown:
            out.add(('?', str(m)))
        _sel[k] = out
    return _sel[k]


def same(rep, P, F, fs, marks, fam, preds):
    """kinds that are written by cases: the value that the writer stores leads the reader back to the kind"""
    found = {}
    for f in sorted(P.fn.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or not f.qn.startswith('mx::impl::') or bare(f.ret) != 'mx::api::MarkData':
            continue
        # readers that decide on the kind by looking at values of enumerations
        local = [None]

        def decl(n):
            if n[0] == 'd':
                for d in n[2]:
                    if bare(d[2]) == MARK:
                        local[0] = d[0]
        walk(f.body, decl)
        if local[0] is None:
            continue
        found[f] = local[0]
    for rf, vid in found.items():
        rep.saw(rf)
        assigned = set()

        def kinds(n):
            while n and n[0] == 'cast':
                n = n[-1]
            if n and n[0] == 'e':
                assigned.add(('e', n[2]))
            elif n and n[0] == 'cond':
                kinds(n[3])
                kinds(n[4])

        def asg(n):
            if n[0] == 'b' and n[2] == '=' and n[3][0] == 'v' and n[3][2] == vid:
                kinds(n[4])
            if n[0] == 'd':
                for d in n[2]:
                    if d[0] == vid and d[3] is not None:
                        kinds(d[3])
        walk(rf.body, asg)
        if len(assigned) < 4:
            continue
        for m in sorted(assigned):
            ok = None
            for wf in fs:
                attrs = stores(P, wf, m)
                if not attrs:
                    continue
                got = decide(P, rf, vid, attrs)
                if got is None:
                    continue
                ok = got if ok is None or got != m else ok
            if ok is None:
                rep.skip('same-mark', rf.name, last(m))
                continue
            rep.ob(ok == m, 'same-mark', '%s:%s' % (rf.name, last(m)), rf.where, 'what is written for %s is read back by %s as %s' % (last(m), rf.qn, last(ok)), rf.name)


def stores(P, wf, m):
    attrs = {}

    def visit(R, n, env):
        if n[0] == 'b' and n[2] == '=' and n[3][0] == 'm' or n[0] == 'c' and n[3] is not None and P.q(n[2]).endswith('::setValue') and len(n[4]) == 1:
            rhs = R.const(n[4] if n[0] == 'b' else n[4][0], env)
            if isinstance(rhs, tuple) and rhs[0] == 'e':
                attrs[rhs[1].rsplit('::', 1)[0]] = rhs
            elif isinstance(rhs, bool) and n[0] == 'b':
                attrs[n[3][3]] = rhs
        return env
    R = Reach(P, mark_oracle(m), lambda R, g: g.cls == wf.cls and g.body is not None, visit)
    try:
        R.run(wf, {})
    except Unknown:
        return None
    got = dict(attrs)
    attrs.clear()
    R = Reach(P, mark_oracle(('e', MARK + '::?')), lambda R, g: g.cls == wf.cls and g.body is not None, visit)
    try:
        R.run(wf, {})
    except Unknown:
        return None
    return {k: v for k, v in got.items() if attrs.get(k) != v}


def decide(P, rf, vid, attrs):
    """the kind that the reader decides on for these values"""
    out = []

    def oracle(R, n, env):
        if n[0] == 'm' and n[3] in attrs and isinstance(attrs[n[3]], bool):
            return attrs[n[3]]
        if n[0] == 'm':
            t = bare(P.field_type(n[4], n[3]) or '')
            if t in attrs:
                return attrs[t]
        if n[0] == 'c':
            inf = P.info.get(n[2])
            if inf is not None and bare(inf[2]) in attrs and not n[4] and inf[1].startswith('mx::core'):
                return attrs[bare(inf[2])]
        return None

    def visit(R, n, env):
        return env
    R = Reach(P, oracle, None, visit)
    try:
        env = R.run(rf, {})
    except Unknown:
        return None
    return env.get(vid) if env is not None else None


def readers(rep, P, CH):
    for f in sorted(P.fn.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or not f.qn.startswith('mx::impl::'):
            continue
        paths = {}

        def look(n):
            if n[0] == 'c' and n[3] is not None and P.q(n[2]).endswith('::getChoice') and not n[4]:
                inf = P.info.get(n[2])
                if inf is not None and CH.of(inf[1]):
                    paths.setdefault(inf[1], []).append(n)
        walk(f.body, look)
        for cls in paths:
            enum, field, acc = CH.of(cls)
            rep.saw(f)
            hit, where = {}, {}
            alts = ['%s::%s' % (enum, c[0]) for c in P.enums[enum]['c']]
            try:
                for alt in alts:
                    def oracle(R, n, env):
                        if n[0] == 'c' and P.q(n[2]) == cls + '::getChoice':
                            return ('e', alt)
                        return None

                    def visit(R, n, env):
                        if n[0] == 'c' and n[3] is not None:
                            inf = P.info.get(n[2])
                            if inf is not None and inf[1] == cls:
                                name = P.q(n[2]).rsplit('::', 1)[-1]
                                if name in acc and name.startswith('get'):
                                    k = (R.stack[-1].qn, n[1], name)
                                    hit.setdefault(k, set()).add(alt)
                                    where[k] = '%s:%d' % (R.stack[-1].file, n[1])
                        return env
                    Reach(P, oracle, lambda R, g: takes(g, cls) and g.qn.startswith('mx::impl::'), visit).run(f, {})
            except Unknown:
                rep.skip('read-alternative', f.qn, 'too large')
                continue
            for k, got in sorted(hit.items()):
                if len(got) == len(alts):
                    continue            # not decided by the alternative
                for alt in alts:
                    if alt in got:
                        rep.ob(alt in acc[k[2]], 'read-alternative', '%s:%s:%s:%s' % (k[0].split('::', 2)[-1], cls.rsplit('::', 1)[-1], last(('e', alt)), k[2]), where[k],
                               'with alternative %s present, %s looks into what %s gives' % (last(('e', alt)), k[0], k[2]), f.name)


def takes(g, cls):
    return g.body is not None and any(cls in t for t in g.ptypes)
