"""P04: enumerations and their strings correspond one to one."""
from ..core import *
from ..evalc import Env, Eval, SOME, THROW
from ..prog import bare, pointee
from ..xsd import schema

FRESH = ('fresh', 1)


def run(rep, P):
    rep.rule('distinct-strings', 'every enumerator is written as its own string', 85)
    rep.rule('parse-back', 'parsing the string of an enumerator gives that enumerator', 1300)
    rep.rule('no-foreign-string', 'the strict parser accepts no string that is not written for one of the values', 75)
    rep.rule('lenient-default', 'the lenient parser agrees with the strict parser on the listed strings', 480)
    rep.rule('schema-values', 'the strings are the ones the MusicXML schema lists for the attributes and elements that hold the enumeration', 70)
    rep.rule('wrapper', 'a type that also holds free text keeps a listed string as its value and any other text as it is', 45)
    rep.rule('stream', 'streaming a value writes the same string', 950)
    E = Eval(P)
    M = Model(P)
    S = schema()
    S31 = schema('3.1')
    by = {}
    for f in P.fn.values():
        if f.body is None or f.cls or not (f.qn.startswith('mx::core::') or f.qn.startswith('ezxml::')):
            continue
        by.setdefault(f.name, []).append(f)
    used = usage(P, M, S)
    table = {}
    for q, en in sorted(P.enums.items()):
        if not q.startswith('mx::core::'):
            continue
        base = q.rsplit('::', 1)[-1]
        ts = [f for fs in by.values() for f in fs if len(f.params) == 1 and bare(f.ptypes[0]) == q and stringy(ret(f))]
        strict = [f for fs in by.values() for f in fs if len(f.params) == 1 and text(f.ptypes[0]) and optional_of(ret(f)) == q]
        lenient = [f for fs in by.values() for f in fs if len(f.params) == 1 and text(f.ptypes[0]) and bare(ret(f)) == q]
        if not ts or not (strict or lenient):
            continue
        if len(P.enum_defs[q]) > 1:
            near = [e for e in P.enum_defs[q] if e['file'].rsplit('/', 1)[-1].split('.')[0] == ts[0].file.rsplit('/', 1)[-1].split('.')[0]]
            en = (near or [en])[0]
        vals = ['%s::%s' % (q, c[0]) for c in en['c']]
        strs = {}
        und = False
        bad = None
        rep.saw(*(ts + strict + lenient))
        for v in vals:
            r = E.call(ts[0], [('e', v)])
            if r is None or r[0] != 's':
                if r == THROW:
                    bad = (v, 'nothing (it throws)')
                und = True
                continue
            if r[1] in strs and same_number(en, v, strs[r[1]]) is False:
                bad = (v, "'%s', the string of %s" % (r[1], strs[r[1]].rsplit('::', 1)[-1]))
            strs.setdefault(r[1], v)
        if bad:
            rep.bad('distinct-strings', q + ':' + bad[0].rsplit('::', 1)[-1], ts[0].where, '%s is written as %s' % (short(bad[0]), bad[1]))
        elif und:
            rep.skip('distinct-strings', base, 'string of a value not determined')
        else:
            rep.ok('distinct-strings', base)
        table[q] = (strs, und or bool(bad))
        for f in strict + lenient:
            isopt = f in strict
            for s, v in sorted(strs.items()):
                if s == 'unknown':
                    continue
                r = E.call(f, [('s', s)])
                if r is None:
                    rep.skip('parse-back', base, 'result of %s not determined' % f.name)
                    continue
                got = r[1] if isopt and r[0] == SOME else r
                ok = got == ('e', v) or got is not None and got[0] == 'e' and same_number(en, got[1], v)
                # free text is kept by the wrapper type: the catch-all value itself has no text of its own
                rule = 'parse-back' if isopt or not strict else 'lenient-default'
                rep.ob(bool(ok), rule, '%s:%s:%s' % (f.name, base, s), f.where, "%s('%s') gives %s instead of %s" % (f.name, s, res(got), short(v)), base)
            # strings it knows otherwise
            fv = E.call(f, [FRESH])
            if isopt:
                if fv is None:
                    rep.skip('no-foreign-string', base, 'result for an unlisted string not determined')
                else:
                    lits = literals(E, f)
                    wrong = []
                    for s in sorted(lits - set(strs)):
                        r = E.call(f, [('s', s)])
                        if r is None or r[0] == SOME and r[1] is not None:
                            wrong.append(s)
                    rep.ob(fv == (SOME, None) and not wrong, 'no-foreign-string', '%s:%s' % (base, ','.join(wrong)), f.where,
                           "%s accepts %s, which is not the string of any value" % (f.name, "'%s'" % "', '".join(wrong) if wrong else 'every string'), base)
        # operator<< / toStream
        for f in by.get('toStream', []) + by.get('operator<<', []):
            if len(f.params) == 2 and bare(f.ptypes[1]) == q:
                rep.saw(f)
                for st, v in sorted(strs.items()):
                    r = Env(E, f, [None, ('e', v)], None, 0).stream(('arg', 0, f.params[0], f.qn))
                    if r is None:
                        rep.skip('stream', base, 'output not determined')
                    else:
                        rep.ob(r == ('s', st), 'stream', '%s:%s:%s' % (f.name, base, st), f.where, "%s of %s writes '%s', not '%s'" % (f.name, short(v), r[1], st), base)
        # schema
        tys = used.get(q, {})
        for tn, where in sorted(tys.items(), key=str):
            vs = S.enum_values(tn) if isinstance(tn, str) else None
            if not vs or und:
                continue
            vs31 = set(S31.enum_values(tn) or ())
            have = set(strs)
            extra = {s for s in have - set(vs) - vs31 if not catch_all(s)}
            missing = {s for s in set(vs) - have}
            rep.ob(not missing and not extra, 'schema-values', '%s:%s' % (base, tn), ts[0].where,
                   '%s (schema type %s): %s%s' % (base, tn, "not among the strings: '%s' " % "', '".join(sorted(missing)) if missing else '', "not in the schema: '%s'" % "', '".join(sorted(extra)) if extra else ''), base)
    wrappers(rep, P, E, table)


def same_number(en, a, b):
    d = {c[0]: c[1] for c in en['c']}
    return d.get(a.rsplit('::', 1)[-1]) == d.get(b.rsplit('::', 1)[-1])


def short(v):
    return '::'.join(v.rsplit('::', 2)[1:])


def res(v):
    return 'no value' if v is None else 'an exception' if v == THROW else short(v[1]) if v[0] == 'e' else str(v)


def ret(f):
    return f.ret


def stringy(t):
    b = bare(t)
    return 'basic_string' in b and 'vector' not in b and 'optional' not in b or b.replace('const', '').replace(' ', '') in ('char*',)


def text(t):
    return 'basic_string' in bare(t) and not any(x in t for x in ('vector', 'optional', 'map'))


def optional_of(t):
    b = bare(t)
    if b.startswith('std::optional<'):
        return bare(b[len('std::optional<'):-1].strip())
    return None


def catch_all(s):
    """names for 'any other text' that stand outside the schema's list"""
    return s.startswith('other') or s in ('', 'none', 'unspecified')


def literals(E, f, depth=0):
    """string literals the parser compares its argument with (through the helpers it calls)"""
    out = set()
    w = E.summary(f, f.cls or None)
    for pc, v in w.returns():
        for t in list(pc) + [v]:
            for x in subterms(t):
                if x[0] == 'eq':
                    for y in x[1:3]:
                        if y[0] == 's':
                            out.add(y[1])
                elif x[0] == 'c' and depth < 3 and x[2] is None:
                    for g in E.byname.get(x[1], ()):
                        if len(g.params) == len(x[3]) and g is not f:
                            out |= literals(E, g, depth + 1)
    return out


def usage(P, M, S, kinds=None):
    """enumeration -> {schema simple type: where used}, from attribute sets and elements that hold a field of that type"""
    from .p01 import spec
    kinds = P.enums if kinds is None else kinds
    used = {}
    owners = {}
    for c in M.elements:
        for n, fd in P.fields(c).items():
            t = pointee(fd[1])
            if t in M.attrs:
                owners.setdefault(t, []).append(c)
    for c in M.attrs:
        els = [n for o in owners.get(c, []) for g, n in (M.names(o) or []) if n in S.types]
        for a in spec(M, c):
            name, fld = a[0], a[1]
            if not name or not fld or fld not in P.fields(c):
                continue
            t = bare(P.fields(c)[fld][1])
            if t in kinds:
                for el in els:
                    for ty in S.types[el]:
                        if name in ty.attrs and isinstance(ty.attrs[name][1], str):
                            used.setdefault(t, {})[ty.attrs[name][1]] = c
    for c in M.elements:
        es = [bare(fd[1]) for fd in P.fields(c).values() if bare(fd[1]) in kinds and not bare(fd[1]).endswith('::Choice')]
        if len(es) == 1:
            for g, n in (M.names(c) or []):
                for ty in S.types.get(n, []):
                    if isinstance(ty.value, str):
                        used.setdefault(es[0], {})[ty.value] = c
    return used


def wrappers(rep, P, E, table):
    for c, r in sorted(P.rec.items()):
        if not c.startswith('mx::core::'):
            continue
        fs = {n: bare(fd[1]) for n, fd in P.fields(c).items()}
        en = [n for n, t in fs.items() if t in table]
        tx = [n for n, t in fs.items() if 'basic_string' in t and 'vector' not in t]
        if len(en) != 1 or len(tx) != 1 or len(fs) != 2:
            continue
        q = fs[en[0]]
        strs = table[q][0]
        sets = [f for f in P.by_cls.get(c, ()) if f.body is not None and len(f.params) == 1 and text(f.ptypes[0]) and 'k' not in f.flags and f.name.startswith(('set', 'parse'))]
        gets = [f for f in P.by_cls.get(c, ()) if f.body is not None and not f.params and stringy(ret(f))]
        if not sets or not gets:
            continue
        rep.saw(*(sets + gets))
        base = c.rsplit('::', 1)[-1]
        first = next(iter(strs.values()), None)
        for f in sets:
            for g in gets:
                und = False
                for s in [('s', x) for x in sorted(strs)] + [FRESH]:
                    st = {en[0]: ('e', first), tx[0]: ('s', 'zzz')}
                    E.call(f, [s], st)
                    keep = st.get(tx[0])
                    v = E.call(g, [], st)
                    if v is None:
                        und = True
                        continue
                    other = st.get(en[0])
                    if s[0] == 's' and catch_all(s[1]):
                        continue
                    rep.ob(v == s, 'wrapper', '%s:%s' % (base, s[1]), f.where, '%s::%s with %s is given back as %s' % (base, f.name, "'%s'" % s[1] if s[0] == 's' else 'unlisted text', "'%s'" % v[1] if v[0] == 's' else v[0]), base)
                if und:
                    rep.skip('wrapper', base, 'value not determined')
