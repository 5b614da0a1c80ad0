"""P15: equality of API values looks at every field."""
from ..prog import bare, is_cont, norm
from ..sym import Walker, show, evalf, neg, subterms, TRUE, FALSE, conj, disj, is_bool

R = 'mx::api::'


def sides(t, a, b):
    """(field, 'eq'|'ne') when the atom compares the same field of both operands, else None"""
    k = t[0]
    if k == 'eq':
        x, y = t[1], t[2]
    elif k == 'c' and len(t[3]) == 2 and t[2] is None:
        x, y = t[3]
    elif k == 'c' and len(t[3]) == 1 and t[2] is not None:
        x, y = t[2], t[3][0]
    elif k == 'lt':
        for i, pol in ((1, 'eq'), (2, 'ne')):
            s = t[i]
            if s[0] == 'c' and s[1].rsplit('::', 1)[-1] in ('abs', 'fabs', 'fabsl') and s[3] and s[3][0][0] == 'op' and s[3][0][1] == '-':
                f = same_field(s[3][0][2], s[3][0][3], a, b)
                if f:
                    return f, pol
        return None
    else:
        return None
    f = same_field(x, y, a, b)
    if not f:
        return None
    if k == 'c':
        n = t[1].rsplit('::', 1)[-1]
        return (f, 'ne') if n == 'operator!=' else (f, 'eq')
    return f, 'eq'


def same_field(x, y, a, b):
    if x[0] == 'f' and y[0] == 'f' and x[2] == y[2] and {x[1], y[1]} == {a, b}:
        return x[2]
    return None


def atoms(t, out):
    if t[0] in ('not', 'and', 'or'):
        for x in t[1:]:
            atoms(x, out)
    elif t[0] == 'ite':
        for x in t[1:]:
            atoms(x, out)
    elif t[0] != 'bo':
        if t not in out:
            out.append(t)
    return out


def result(w):
    rs = w.returns()
    return disj([conj(list(pc) + [v]) for pc, v in rs])


def run(rep, P):
    rep.rule('field-compared', 'operator== of a public data type is false whenever one field differs and the others agree, for every field', 250)
    rep.rule('only-fields', 'operator== is true when all fields agree (it depends on nothing else)', 50)
    rep.rule('negation', 'operator!= is the negation of operator== on the same operands', 50)
    rep.rule('container-equality', 'element-wise container comparison checks the sizes and every element', 2)
    rep.rule('has-equality', 'every public data record has operator== and operator!=', 50)
    eqs, nes, conts = {}, {}, {}
    for f in P.fn.values():
        if not f.qn.startswith(R) or not f.body:
            continue
        ops = ([f.cls] if f.cls else []) + [bare(t) for t in f.ptypes]
        if len(ops) != 2 or bare(f.ret) != 'bool' or ops[0] != ops[1]:
            continue
        if f.name == 'operator==' and ops[0] in P.rec:
            eqs[ops[0]] = f
        elif f.name == 'operator!=' and ops[0] in P.rec:
            nes[ops[0]] = f
        elif is_cont(ops[0]):
            conts.setdefault(f.name, []).append(f)
    for cls, r in sorted(P.rec.items()):
        if not cls.startswith(R) or '/include/mx/api/' not in r['file'] or not r['f']:
            continue
        if any('p' in x[3] for x in r['f']):
            continue
        rep.ob(cls in eqs and cls in nes, 'has-equality', cls, '%s:%d' % (r['file'], r['l']), 'public data type %s has no operator== / operator!=' % cls)
    for cls, f in sorted(eqs.items()):
        def inl(g, obj, ts):
            if g.name in ('operator==', 'operator!='):
                return False
            return not any(is_cont(t) for t in g.ptypes)
        w = Walker(inline=inl).run(f)
        rep.saw(f)
        if f.cls:
            a, b = ('this', cls), ('arg', 0, f.params[0][1], f.qn)
        else:
            a, b = ('arg', 0, f.params[0][1], f.qn), ('arg', 1, f.params[1][1], f.qn)
        res = result(w)
        ats = atoms(res, [])
        info = {}
        other = []
        for t in ats:
            s = sides(t, a, b)
            if s:
                info[t] = s
            else:
                other.append(t)
        fields = [x[0] for x in r_fields(P, cls)]
        if other and any(x[0] in ('lv',) for o in other for x in subterms(o)):
            rep.skip('only-fields', f.where, 'comparison not understood')
            continue
        # all agree -> true
        v = evalf(res, lambda t: (info[t][1] == 'eq') if t in info else None)
        rep.ob(v is True, 'only-fields', cls, f.where, 'operator== of %s is not true for values whose fields all agree (depends on %s)' % (cls, ', '.join(map(show, other)) or 'the result expression'), cls)
        for fld in fields:
            v = evalf(res, lambda t: ((info[t][1] == 'eq') if info[t][0] != fld else (info[t][1] != 'eq')) if t in info else None)
            rep.ob(v is False, 'field-compared', cls + '.' + fld, f.where, 'operator== of %s ignores field %s' % (cls, fld), '%s.%s' % (cls, fld))
        # tolerance
        for t in info:
            if t[0] == 'lt':
                c = t[1] if t[1][0] in ('fl', 'n') else t[2]
                if c[0] in ('fl', 'n'):
                    rep.ob(0 <= float(c[1]) <= 0.001, 'only-fields', cls + '.' + info[t][0] + ':tolerance', f.where, 'tolerance %s is outside the documented one' % (c[1],))
    for cls, f in sorted(nes.items()):
        w = Walker(inline=lambda g, o, ts: g.name != 'operator==').run(f)
        rep.saw(f)
        res = result(w)
        e = res[1] if res[0] == 'not' else None
        good = e is not None and ((e[0] == 'c' and e[1].endswith('operator==') and len({x for x in (e[2],) + e[3] if x}) == 2) or (e[0] == 'eq' and e[1] != e[2]))
        if not good and cls in eqs:
            w2 = Walker(inline=lambda g, o, ts: g.id == eqs[cls].id or not g.name.startswith('operator')).run(f)
            good = None if any(x[0] == 'lv' for x in subterms(res)) else False
        if good is None:
            rep.skip('negation', f.where, 'not understood')
        else:
            rep.ob(good, 'negation', cls, f.where, 'operator!= of %s is not the negation of operator==: %s' % (cls, show(res)), cls)
    done = set()
    for name, fs in sorted(conts.items()):
        for f in fs:
            container(rep, P, f, done)


def r_fields(P, cls):
    r = P.rec[cls]
    out = list(r['f'])
    for b in r['bases']:
        b = b if isinstance(b, str) else b[0]
        if b in P.rec:
            out += r_fields(P, b)
    return out


def container(rep, P, f, done):
    w = Walker(inline=lambda g, o, ts: any(is_cont(t) for t in g.ptypes) and not g.name.startswith('operator')).run(f)
    a, b = ('arg', 0, f.params[0][1], f.qn), ('arg', 1, f.params[1][1], f.qn)
    rep.saw(f)
    neg_ = f.name == 'operator!='
    # collect element comparisons and size comparison over all return conditions
    elem, size, other = set(), False, []
    rets = []
    for e in w.events:
        if e.kind == 'ret':
            rets.append(e)
    lits = set()

    def grab(t):
        if t[0] in ('not', 'and', 'or', 'ite'):
            for x in t[1:]:
                grab(x)
        elif t[0] != 'bo':
            lits.add(t)
    for e in rets:
        for l in e.pc:
            grab(l)
        grab(e.a[0])
    whole = False
    for t in lits:
        xs = None
        if t[0] == 'eq':
            xs = (t[1], t[2])
        elif t[0] == 'c' and t[1].rsplit('::', 1)[-1] in ('operator==', 'operator!=', 'std::equal', 'equal'):
            xs = tuple(x for x in ((t[2],) + t[3]) if x)
        if not xs or len(xs) < 2:
            continue
        p = []
        for x in xs[:2]:
            path = []
            while x[0] == 'f':
                path.append(x[2])
                x = x[1]
            p.append((x[0], x[1] if len(x) > 1 else None, tuple(path)))
        if {p[0][1], p[1][1]} == {a, b} and p[0][0] == p[1][0] == 'size':
            size = True
        elif p[0][0] == p[1][0] == 'elem' and {p[0][1], p[1][1]} == {a, b} and p[0][2] == p[1][2]:
            elem.add(p[0][2])
        elif set(xs[:2]) == {a, b}:
            whole = True
    need = {()} if not bare(f.ptypes[0]).startswith('std::map<') else {('first',), ('second',)}
    # early exit: a difference found decides the result immediately
    if whole:
        rep.ok('container-equality', f.qn)
        return
    if not lits:
        rep.skip('container-equality', f.where, 'not understood')
        return
    ok = size and (need <= elem or () in elem)
    early = any(e.loops for e in rets)
    rep.ob(ok and early, 'container-equality', f.qn + '(' + bare(f.ptypes[0])[:60] + ')', f.where,
           'container comparison %s does not compare %s' % (f.qn, 'sizes' if not size else 'every element and stop at a difference'), f.qn)
