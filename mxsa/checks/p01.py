"""P01: every XML attribute is written and read back consistently."""
import re
from ..core import *
from ..prog import pointee, bare
from ..xsd import schema


def get_name(t):
    """(X, n) for a condition X.getName() == "n" """
    if t[0] == 'eq':
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            if a[0] == 'c' and a[1].rsplit('::', 1)[-1] == 'getName' and b[0] == 's':
                return a[2], b[1]
    return None


def is_end(t):
    """comparison of a cursor with an end position"""
    return t[0] == 'eq' and any(x[0] == 'c' and x[1].rsplit('::', 1)[-1] in ('attributesEnd', 'end', 'cend') or x[0] == 'endit' for x in t[1:3])


def written(w):
    """[(name, value term, guard)] of the attributes a toStream emits"""
    res, text = [], ''
    name = None
    for e, o, v in out_events(w.events):
        if v[0] == 'fnref':
            continue
        if v[0] == 'ch':
            v = ('s', chr(v[1]))
        if v[0] == 's':
            text += v[1]
            continue
        m = re.search(r'([A-Za-z_][\w:.-]*)\s*=\s*["\']$', text)
        res.append((m.group(1) if m else None, v, e.pc, e))
        text = ''
    return res


def fpath(t, cls):
    """field name of this->field[.getX()...]"""
    while t[0] == 'c' and t[2] is not None and not t[3]:
        t = t[2]
    while t[0] == 'c' and t[2] is None and len(t[3]) == 1:
        t = t[3][0]
    p = []
    while t[0] == 'f':
        p.append(t[2])
        t = t[1]
    if t == ('this', cls) and p:
        return '.'.join(reversed(p))
    return None


def flags_of(pcs, cls):
    """the boolean fields a set of conditions depends on"""
    out = []
    for l in pcs:
        for x in subterms(l):
            if x[0] == 'f' and x[1] == ('this', cls) and bare(type_of(x)) == 'bool' and x[2] not in out:
                out.append(x[2])
    return out


def stores(w, cls):
    """events of a reader that change a field of the object: (field, value or None, event)"""
    for e in w.events:
        if e.kind == 'assign':
            f = fpath(e.a[0], cls)
            if f:
                yield f, e.a[1], e
        elif e.kind == 'call' and e.a[2] is not None:
            n = e.a[0].rsplit('::', 1)[-1]
            f = fpath(e.a[2], cls)
            if f and (n.startswith(('parse', 'set', 'tryParse', 'assign')) or n in ('operator=', 'clear', 'insert', 'push_back')):
                yield f, None, e


def table(M, cls):
    """the writer and reader tables of an attribute set"""
    W = M.walk(cls, 'toStream')
    R = M.walk(cls, 'fromXElementImpl')
    H = M.walk(cls, 'hasValues')
    return W, R, H


def spec(M, cls):
    """name -> (field, flags, guard) for the attributes an attribute set writes"""
    W = M.walk(cls, 'toStream')
    out = []
    for n, v, pc, e in written(W) if W else ():
        out.append((n, fpath(v, cls), flags_of(pc, cls), pc, v, e))
    return out


def camel(n):
    n = n.split(':')[-1]
    return re.sub(r'[-_](\w)', lambda m: m.group(1).upper(), n).lower().rstrip('_')


def fkey(f):
    return f.lower().strip('_')


def value_of(term, env, cls):
    """evaluation of a condition where fields named in env have known values"""
    def atom(t):
        if t[0] == 'f' and t[1] == ('this', cls):
            if t[2] in env:
                return env[t[2]]
            f = prog().fields(cls).get(t[2])
            if f and f[1].startswith('const ') and 'init' in env:
                v = env['init'].get(t[2])
                return v[1] if v and v[0] == 'bo' else None
        return None
    return evalf(term, atom)


def run(rep, P):
    M = Model(P)
    rep.rule('written-under-flag', 'an attribute is written exactly when its own presence flag is set', 800)
    rep.rule('own-name', 'each attribute has its own name, field and flag; a name is not attached to the field of another attribute', 800)
    rep.rule('read-back', 'reading an attribute of a written name stores its text in the written field, sets the flag under which it is written, and touches nothing else', 800)
    rep.rule('read-only-written', 'an attribute name that is recognised on reading is also written', 800)
    rep.rule('has-values', 'hasValues is true when any attribute is present and false when none is', 900)
    rep.rule('initial', 'no attribute is present in a fresh attribute set unless it is required by the schema, and required ones are', 800)
    rep.rule('element-attributes', 'an element reports, writes and reads the attribute set it holds, unconditionally', 200)
    rep.rule('no-clearing', 'reading attributes never discards an attribute that was read before', 150)
    S = schema()
    owners = {}
    for c in M.elements:
        for n, fd in P.fields(c).items():
            t = pointee(fd[1])
            if t in M.attrs:
                owners.setdefault(t, []).append(c)
    used = {}
    for c in M.attrs:
        for o in owners.get(c, []):
            for g, n in (M.names(o) or []):
                if n in S.types:
                    used.setdefault(c, set()).add(n)
    parallel(M.attrs, lambda c, r: one(r, P, M, S, c, used.get(c, set())), rep)
    parallel(M.elements, lambda c, r: element(r, P, M, c), rep)


from ..rep import parallel   # noqa: E402


def one(rep, P, M, S, cls, elems):
    W, R, H = table(M, cls)
    if W is None:
        rep.skip('written-under-flag', cls, 'no toStream with a body')
        return
    rep.saw(*[M.method(cls, n) for n in ('toStream', 'fromXElementImpl', 'hasValues')])
    short = cls.rsplit('::', 1)[-1]
    init = M.ctor_state(cls)
    bools = [n for n, f in P.fields(cls).items() if bare(f[1]) == 'bool' and not f[1].startswith('const ')]
    ats = spec(M, cls)
    allflags = set()
    for a in ats:
        allflags |= set(a[2])
    allc = {'init': init}
    none = dict(allc, **{b: False for b in bools})
    names, fields, flags = {}, {}, {}
    hv = disj([conj(list(pc) + [v]) for pc, v in H.returns()]) if H else None
    if not ats and (R is None or R.events):
        pass
    good = []
    for n, fld, fl, pc, v, e in ats:
        if n is None or fld is None:
            # constants (namespace declarations, fixed values) are not attributes of the object
            if n is not None and v[0] in ('s', 'n'):
                continue
            rep.skip('written-under-flag', e.where, 'output that is not name="field"')
            continue
        key = '%s.%s' % (short, n)
        g = conj(list(pc))
        own = None
        # the flag whose setting alone turns the output on
        cand = [b for b in fl if value_of(g, dict(none, **{b: True}), cls) is True]
        off = value_of(g, none, cls)
        fixed = set()
        if off is True:
            rep.ok('written-under-flag', key)        # always written
        elif len(cand) == 1:
            own = cand[0]
            # and nothing else turns it off or on
            others = value_of(g, dict(allc, **{b: (b != own) for b in bools}), cls)
            on = value_of(g, dict(allc, **{b: True for b in bools}), cls)
            rep.ob(off is False and others is False and on is True, 'written-under-flag', key, e.where, 'attribute %s of %s is not written exactly when %s is set' % (n, short, own), key)
        elif not fl:
            rep.skip('written-under-flag', e.where, 'guard without presence flag')
            continue
        else:
            pair = [b for b in fl if value_of(g, dict(allc, **{x: (x != b) for x in bools}), cls) is False]
            if value_of(g, dict(allc, **{b: True for b in bools}), cls) is None:
                rep.skip('written-under-flag', e.where, 'guard not understood')
                continue
            rep.bad('written-under-flag', key, e.where, 'attribute %s of %s is not written when its presence flag alone is set (depends on %s)' % (n, short, ', '.join(fl)))
            continue
        good.append((n, fld, own, pc, v, e))
        # own name
        bad = None
        if n in names:
            bad = 'attribute name %s is written twice' % n
        elif fld in fields:
            bad = 'attributes %s and %s are written from the same field %s' % (n, fields[fld], fld)
        elif own and own in flags:
            bad = 'attributes %s and %s are written under the same flag %s' % (n, flags[own], own)
        else:
            k = camel(n)
            fnames = {fkey(x): x for x, f in P.fields(cls).items() if x not in bools or not x.startswith('has')}
            if fkey(fld) != k and k in fnames:
                bad = 'attribute %s is written from field %s although there is a field %s' % (n, fld, fnames[k])
            if own and not bad:
                fk = {fkey(x): x for x in bools if x.startswith('has')}
                if fkey(own) != 'has' + fkey(fld) and 'has' + fkey(fld) in fk:
                    bad = 'attribute %s is written from field %s under the flag %s of another attribute' % (n, fld, own)
        if not bad and elems and not any(n in t.attrs for el in elems for t in S.types[el]):
            bad = 'no element that holds %s has an attribute %s in the MusicXML schema' % (short, n)
        rep.ob(not bad, 'own-name', key, e.where, '%s: %s' % (short, bad), key)
        names[n], fields[fld] = e, n
        if own:
            flags[own] = n
        # initial presence
        if own:
            iv = init.get(own)
            req = bool(elems) and all(n in t.attrs and t.attrs[n][0] for el in elems for t in S.types[el])
            if iv is None or iv[0] != 'bo':
                rep.skip('initial', key, 'initial flag value not constant')
            elif iv[1]:
                rep.ob(req or any(n in t.attrs and t.attrs[n][0] for el in elems for t in S.types[el]), 'initial', key, e.where, 'attribute %s is present in a fresh %s although the schema does not require it' % (n, short), key)
            else:
                rep.ob(not req, 'initial', key, e.where, 'attribute %s is required by the schema but absent in a fresh %s' % (n, short), key)
        # hasValues
        if hv is not None:
            if own:
                x = value_of(hv, dict(none, **{own: True}), cls)
                rep.ob(x is True, 'has-values', key, H and M.method(cls, 'hasValues').where, '%s::hasValues is not true when only %s is set' % (short, own), key)
    if hv is not None and all(a[2] for a in good):
        x = value_of(hv, none, cls)
        rep.ob(x is False, 'has-values', short, M.method(cls, 'hasValues').where, '%s::hasValues is not false when no attribute is present' % short, short)
    elif hv is not None:
        x = value_of(hv, none, cls)
        rep.ob(x is True, 'has-values', short, M.method(cls, 'hasValues').where, '%s::hasValues is not true although an attribute is always present' % short, short)
    # reader
    if R is None:
        rep.skip('read-back', cls, 'no reader with a body')
        return
    rnames = {}
    for e in R.events:
        for l in e.pc:
            for x in subterms(l):
                g = get_name(x)
                if g:
                    rnames.setdefault(g[1], e)
        for l in e.a:
            if isinstance(l, tuple):
                for x in subterms(l):
                    g = get_name(x)
                    if g:
                        rnames.setdefault(g[1], e)
    evs = list(stores(R, cls))
    byname = {a[0]: a for a in good}
    byfield = {a[1]: a for a in good}

    def under(e, n):
        def atom(t):
            g = get_name(t)
            if g:
                return g[1] == n
            if is_end(t):
                return False
            return None
        return evalpc(e.pc, atom)
    for n in sorted(set(rnames) | set(byname)):
        a = byname.get(n)
        key = '%s.%s' % (short, n)
        where = rnames[n].where if n in rnames else a[5].where
        if a is None:
            # an alias: must store to an attribute that is written
            tgt = [f for f, v, e in evs if under(e, n) is True]
            if not tgt:
                continue
            flds = {f for f in tgt if f in byfield}
            rep.ob(len(flds) == 1, 'read-only-written', key, where, 'attribute %s is read into %s but %s writes no attribute from there' % (n, ', '.join(sorted(set(tgt))), short), key)
            if len(flds) != 1:
                continue
            a = byfield[flds.pop()]
        elif n in rnames:
            rep.ok('read-only-written', key)
        fld, own = a[1], a[2]
        on = [(f, v, e) for f, v, e in evs if under(e, n) is True]
        maybe = [(f, v, e) for f, v, e in evs if under(e, n) is None]
        if n not in rnames:
            rep.bad('read-back', key, a[5].where, 'attribute %s is written by %s but not recognised on reading' % (n, short))
            continue
        # value
        st = [(f, v, e) for f, v, e in on if f == fld]
        const = P.fields(cls).get(fld, ['', ''])[1].startswith('const ')
        if not st and const:
            st = None           # a fixed value: only its presence is read
        elif not st and any(f == fld for f, v, e in maybe):
            rep.skip('read-back', where, 'store under a condition that is not understood')
            continue
        if st == []:
            rep.bad('read-back', key, where, 'attribute %s is written from %s.%s but reading it does not store there%s' % (n, short, fld, ' (it stores to %s)' % ', '.join(sorted({f for f, v, e in on})) if on else ''))
            continue
        src = st is None
        for f, v, e in st or ():
            ts = [v] if v is not None else list(e.a[3])
            for t in ts:
                for x in subterms(t):
                    if x[0] == 'c' and x[1].rsplit('::', 1)[-1] == 'getValue':
                        src = True
                    if x[0] in ('lv', 'upd'):
                        src = True
            if e.kind == 'call' and not src and not ts:
                src = True
        if not src:
            rep.bad('read-back', key, where, 'reading attribute %s stores something else than its text into %s' % (n, fld))
            continue
        # flag
        if own:
            sets = [v for f, v, e in on if f == own]
            if not sets and any(f == own for f, v, e in maybe):
                rep.skip('read-back', where, 'flag set under a condition that is not understood')
                continue
            val = sets[-1] if sets else None
            if val != TRUE:
                if val is not None and val[0] != 'bo':
                    rep.skip('read-back', where, 'flag value not constant')
                    continue
                rep.bad('read-back', key, where, 'reading attribute %s does not set %s, so it is not written again' % (n, own))
                continue
        # nothing else
        extra = [f for f, v, e in on if f not in (fld, own)]
        extra += [f for f, v, e in maybe if f not in (fld, own) and f.split('.')[0] not in (fld,)]
        if extra:
            rep.bad('read-back', key, where, 'reading attribute %s also changes %s' % (n, ', '.join(sorted(set(extra)))))
            continue
        rep.ok('read-back', key)
    # nothing outside a recognised name changes the object
    bad = None
    for f, v, e in evs:
        if under(e, '\0') is True and e.kind == 'assign' and f in {a[2] for a in good if a[2]} | {a[1] for a in good}:
            bad = (f, e)
            break
    rep.ob(bad is None, 'no-clearing', short, bad[1].where if bad else '', '%s: reading changes %s for an attribute of another name' % (short, bad[0] if bad else ''), short)


def element(rep, P, M, cls):
    short = cls.rsplit('::', 1)[-1]
    fs = [(n, pointee(f[1])) for n, f in P.fields(cls).items() if pointee(f[1]) in M.attrs]
    H, A, R = M.method(cls, 'hasAttributes'), M.method(cls, 'streamAttributes'), M.reader(cls)
    if H is None or A is None:
        return
    wh = M.walk(cls, 'hasAttributes')
    wa = M.walk(cls, 'streamAttributes')
    rep.saw(H, A)
    has = disj([conj(list(pc) + [v]) for pc, v in wh.returns()])
    outs = [x for x in written(wa) if x[0]]
    for n, t in fs:
        obj = ('f', ('this', cls), n, cls)
        # every attribute of the set is written by the element
        def tr(term, path):
            return any(x[0] == 'f' and x[2] == n and x[1] == ('this', cls) for x in subterms(term))
        want = {a[0] for a in spec(M, t) if a[0] and a[1]}
        if not want:
            continue
        got = {nm for nm, v, pc, e in outs if tr(v, n)}
        rep.ob(want <= got, 'element-attributes', short + ':write', A.where, '%s does not write the attributes %s of %s' % (short, ', '.join(sorted(want - got)), n), short)
        # hasAttributes
        def atom(x, on):
            if x[0] == 'f' and bare(type_of(x)) == 'bool' and pointee(type_of(x[1])) == t:
                if P.fields(t)[x[2]][1].startswith('const '):
                    v = M.ctor_state(t).get(x[2])
                    return v[1] if v and v[0] == 'bo' else None
                return on == x[2]
            if x[0] == 'isnull':
                return False
            return None
        bad = None
        for a in spec(M, t):
            for fl in a[2]:
                if evalf(has, lambda x: atom(x, fl)) is not True:
                    bad = bad or fl
        rep.ob(bad is None, 'element-attributes', short + ':has', H.where, '%s::hasAttributes is not true when %s of its attributes is set' % (short, bad), short)
        if R is not None:
            rd = [e for e in R.events if e.kind == 'call' and e.a[0] == AI + '::fromXElement' and pointee(type_of(e.a[2])) == t]
            if not rd and not any(e.kind == 'call' for e in R.events):
                rep.skip('element-attributes', short, 'reader does nothing')
                continue
            uncond = [e for e in rd if evalpc(e.pc, lambda x: False if x[0] == 'isnull' or is_end(x) else None) is True]
            if rd and not uncond:
                # conditions that only lead to a failure return are fine
                rep.skip('element-attributes', short, 'attributes read under a condition')
                continue
            rep.ob(bool(uncond), 'element-attributes', short + ':read', M.method(cls, 'fromXElementImpl').where, '%s does not read its attributes %s' % (short, n), short)
            for e in uncond:
                X = e.a[3][1] if len(e.a[3]) > 1 else None
                rep.ob(X is not None and X[0] == 'arg', 'element-attributes', short + ':read-from', e.where, '%s reads its attributes from something else than its own element' % short, short)
