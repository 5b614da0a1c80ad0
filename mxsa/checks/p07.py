"""P07: bounded numeric types always hold a value in range."""
from fractions import Fraction as Q
from ..core import *
from ..xsd import schema
from .p04 import usage

BASES = ('mx::core::Integer', 'mx::core::Decimal')
# ranges of the types that are not named in the schema
OWN = {'Byte': ('int', 0, False, 255, False), 'PositiveInteger': ('int', 1, False, None, False), 'NonNegativeInteger': ('int', 0, False, None, False),
       'PositiveDecimal': ('dec', 0, True, None, False), 'NonNegativeDecimal': ('dec', 0, False, None, False)}
IMIN, IMAX = -2 ** 31, 2 ** 31 - 1
BIG = 10 ** 18          # beyond this a decimal type saturates its storage (see P20)
NAN = 'nan'


def run(rep, P):
    rep.rule('constructed', 'every constructor leaves a value inside the range', 50)
    rep.rule('assigned', 'assigning any number leaves a value inside the range', 25)
    rep.rule('parsed', 'parsing any text leaves a value inside the range', 25)
    rep.rule('kept', 'a number inside the range is stored as it is', 50)
    rep.rule('overridden', 'the function that stores a number is the one of the bounded type however it is called', 25)
    rep.rule('schema-range', 'attributes and elements use a type with the range the schema gives', 20)
    M = Model(P)
    S = schema()
    ranges = {}
    limits(P)
    for c in sorted(P.rec):
        b = next((b for b in BASES if P.derives(c, b) and c != b), None)
        if b is None or c in ('mx::core::IntRange', 'mx::core::DecimalRange'):
            continue
        short = c.rsplit('::', 1)[-1]
        rng = OWN.get(short) or S.bounds(type_name(short, S))
        if rng is None:
            rep.skip('assigned', short, 'no such type in the schema')
            continue
        ranges[c] = rng
        one(rep, P, M, c, b, rng)
    for q, tys in sorted(usage(P, M, S, ranges).items()):
        for tn, where in sorted(tys.items(), key=str):
            b = S.bounds(tn)
            short = q.rsplit('::', 1)[-1]
            if b is None:
                rep.skip('schema-range', '%s as %s' % (short, tn), 'the schema type is not a plain number')
                continue
            r = ranges[q]
            ok = norm(b) == norm(r)
            rep.ob(ok, 'schema-range', '%s:%s' % (where.rsplit('::', 1)[-1], tn), P.rec[where]['file'], '%s holds a %s, whose range %s is not the range %s of the schema type %s' % (where.rsplit('::', 1)[-1], short, say(r), say(b), tn), '%s: %s' % (short, tn))


def norm(b):
    k, lo, loo, hi, hio = b
    return (None if lo is None else Q(lo), loo, None if hi is None else Q(hi), hio)


def say(b):
    k, lo, loo, hi, hio = b
    return '%s%s..%s%s' % ('>' if loo else '', 'any' if lo is None else lo, '<' if hio else '', 'any' if hi is None else hi)


def type_name(short, S):
    n = short[:-5] if short.endswith('Value') else short
    s = re.sub(r'([a-z])([A-Z0-9])', r'\1-\2', n).lower()
    return s


def inline(f, *a):
    return f.cls != 'mx::core::PreciseDecimal'


LIMITS = {}             # constants of the program that are the limits of a type


def limits(P):
    for n, g in P.globals.items():
        i = g['init']
        f = P.info.get(i[2]) if i and i[0] == 'c' else None
        if f is not None and f[0].startswith('std::numeric_limits') and 'c' in g['fl']:
            t, f = g['t'].replace('const ', '').strip(), f[0].rsplit('::', 1)[-1]
            if t == 'int':
                LIMITS[n] = Q(IMAX if f == 'max' else IMIN)
            elif t in ('double', 'long double'):
                LIMITS[n] = Q(BIG) if f == 'max' else Q(-BIG) if f == 'lowest' else Q(1, 10 ** 300)


def consts(t):
    out = set()
    for x in [t] + list(subterms(t)):
        if x[0] == 'g' and x[1] in LIMITS:
            out.add(LIMITS[x[1]])
        elif x[0] == 'n':
            out.add(Q(x[1]))
        elif x[0] == 'fl':
            try:
                out.add(Q(x[1]))
            except ValueError:
                pass
    return out


class Unknown(Exception):
    pass


class Val:
    """an interval of numbers; x: it is the very number that was given"""
    __slots__ = ('lo', 'hi', 'x')

    def __init__(self, lo, hi, x=False):
        self.lo, self.hi, self.x = lo, hi, x


def ev(t, isx, X):
    """value of a term when the given number is X (a Val or NAN)"""
    if isx(t):
        return X
    k = t[0]
    if k == 'g' and t[1] in LIMITS:
        return Val(LIMITS[t[1]], LIMITS[t[1]])
    if k == 'n':
        return Val(Q(t[1]), Q(t[1]))
    if k == 'fl':
        return Val(Q(t[1]), Q(t[1]))
    if k == 'bo':
        return t[1]
    if k == 'val' and len(t[2]) == 1:
        return ev(t[2][0], isx, X)
    if k == 'ite':
        return ev(t[2] if truth(t[1], isx, X) else t[3], isx, X)
    if k in ('min', 'max'):
        a, b = ev(t[1], isx, X), ev(t[2], isx, X)
        if k == 'max':
            return b if less(a, b) else a
        return b if less(b, a) else a
    if k == 'c' and t[1] in ('std::clamp',) and len(t[3]) == 3:
        v, lo, hi = (ev(y, isx, X) for y in t[3])
        return lo if less(v, lo) else hi if less(hi, v) else v
    if k == 'c' and t[1] in ('std::fmax', 'std::fmin', 'fmax', 'fmin') and len(t[3]) == 2:
        a, b = (ev(y, isx, X) for y in t[3])
        if a is NAN or b is NAN:
            return b if a is NAN else a
        return (b if less(a, b) else a) if t[1].endswith('fmax') else (b if less(b, a) else a)
    if k == 'op' and len(t) == 4 and t[1] in '+-':
        a, b = ev(t[2], isx, X), ev(t[3], isx, X)
        if a is NAN or b is NAN:
            return NAN
        return Val(a.lo + b.lo, a.hi + b.hi) if t[1] == '+' else Val(a.lo - b.hi, a.hi - b.lo)
    if k == 'op' and len(t) == 4 and t[1] == '*':
        a, b = ev(t[2], isx, X), ev(t[3], isx, X)
        if a is NAN or b is NAN:
            return NAN
        ps = [p * q for p in (a.lo, a.hi) for q in (b.lo, b.hi)]
        return Val(min(ps), max(ps))
    raise Unknown(str(t)[:60])


def less(a, b):
    if a is NAN or b is NAN:
        return False
    if a.hi < b.lo:
        return True
    if a.lo >= b.hi:
        return False
    raise Unknown('comparison')


def truth(t, isx, X):
    def atom(x):
        if x[0] == 'lt':
            return less(ev(x[1], isx, X), ev(x[2], isx, X))
        if x[0] == 'eq':
            a, b = ev(x[1], isx, X), ev(x[2], isx, X)
            if isinstance(a, bool) or isinstance(b, bool):
                return a == b
            if a is NAN or b is NAN or a.hi < b.lo or b.hi < a.lo:
                return False
            if a.lo == a.hi == b.lo == b.hi:
                return True
            raise Unknown('comparison')
        if x[0] == 'c' and x[1].rsplit('::', 1)[-1] in ('isnan', 'isinf', 'isfinite') and len(x[3]) == 1:
            v = ev(x[3][0], isx, X)
            return (v is NAN) if x[1].endswith('isnan') else (v is not NAN) if x[1].endswith('isfinite') else False
        return None
    r = evalf(t, atom)
    if r is None:
        raise Unknown('condition ' + str(t)[:60])
    return r


def regions(cs, kind):
    if kind == 'int':
        pts = sorted({p for c in cs for p in (c - 1, c, c + 1) if IMIN <= p <= IMAX} | {Q(IMIN), Q(IMAX)})
        out = [Val(p, p, True) for p in pts]
        out += [Val(a + 1, b - 1, True) for a, b in zip(pts, pts[1:]) if b - a > 1]
        return out
    h = Q(1, 2 * 10 ** 6)
    pts = sorted({p for c in cs for p in (c, c - h, c + h, c - 2 * h, c + 2 * h) if abs(p) < BIG} | {Q(-BIG), Q(BIG)})
    out = [Val(p, p, True) for p in pts if p in cs or abs(p) == BIG]
    for a, b in zip(pts, pts[1:]):
        d = (b - a) / 10 ** 4
        out.append(Val(a + d, b - d, True))
    return out + [NAN]


def stored(v, digits):
    """after rounding to the digits that are kept"""
    if digits is None:
        return v
    s = 10 ** digits
    r = lambda x: Q(-(-(2 * x * s - 1) // 2), s)
    return Val(r(v.lo), r(v.hi), v.x)


def inside(v, rng):
    k, lo, loo, hi, hio = rng
    if v is NAN:
        return False
    if lo is not None and (v.lo < Q(lo) or loo and v.lo == Q(lo)):
        return False
    return not (hi is not None and (v.hi > Q(hi) or hio and v.hi == Q(hi)))


def check(term, pc, isx, rng, digits):
    """first region of given numbers for which the stored value leaves the range, and first for which a good value is changed"""
    cs = consts(term) | {Q(x) for x in (rng[1], rng[3]) if x is not None}
    for l in pc:
        cs |= consts(l)
    out = change = None
    for X in regions(cs, rng[0]):
        if X is NAN and rng[1] is None and rng[3] is None:
            continue
        g = True
        for l in pc:
            try:
                g = g and truth(l, isx, X)
            except Unknown:
                pass              # a condition on something else: possible
        if not g:
            continue
        v = ev(term, isx, X)
        if isinstance(v, bool):
            raise Unknown('truth value')
        s = v if v is NAN else stored(v, digits)
        if not inside(s, rng) and out is None:
            out = (X, s)
        if X is not NAN and inside(X, rng) and inside(stored(X, digits), rng) and v is not NAN and not v.x and change is None:
            sx = stored(X, digits)
            if not s.lo == s.hi == sx.lo == sx.hi:
                change = (X, s)
    return out, change


def show_v(v):
    if v is NAN:
        return 'not-a-number'
    if v.lo == v.hi:
        return '%.9g' % float(v.lo)
    return 'numbers between %.9g and %.9g' % (float(v.lo), float(v.hi))


def holder(t):
    """(term stored, digits kept) of a value field"""
    while t[0] in ('val', 'new') and 'PreciseDecimal' in t[1]:
        a = t[2] if t[0] == 'val' else t[3]
        if len(a) == 3:
            return a[2], (a[1][1] if a[1][0] == 'n' else None)
        if len(a) == 1 and a[0][0] not in ('val', 'new'):
            return a[0], 6
        if len(a) != 1:
            return None, None
        t = a[0]
    return t, None


def one(rep, P, M, c, base, rng):
    short = c.rsplit('::', 1)[-1]
    chain = {x for x in P.rec if x == c or P.derives(c, x)}
    where = '%s:%d' % (P.rec[c]['file'], P.rec[c]['l'])
    preset = {}
    digits = 6 if base.endswith('Decimal') else None
    vf = set()
    for f in M.ctors(c):
        if len(f.params) > 1:
            rep.skip('constructed', short, 'constructor with several arguments')
            continue
        w = Walker(inline=inline, ctor_inline=lambda g: g.cls in chain)
        w.nan = True
        w.run(f, this=('this', c))
        rep.saw(f)
        isx = lambda t: t[0] == 'arg' and t[1] == 0 and t[3] == f.qn
        st = {}
        for e in w.events:
            if e.kind == 'assign' and e.a[0][0] == 'f' and e.a[0][1] == ('this', c) and e.a[0][3] in chain:
                st[e.a[0]] = (e.pc, e.a[1])
        fld = [k for k in st if k[3] == base]
        if len(fld) != 1:
            rep.skip('constructed', short, 'stored value not found')
            continue
        vf.add(fld[0])
        for k, (pc, v) in st.items():
            if k[3] != base and not any(isx(x) for x in [v] + list(subterms(v))) and not pc:
                if preset.setdefault(k, v) != v and v[0] != 'val':
                    preset[k] = None
        pc, v = st[fld[0]]
        v, d = holder(v)
        if d:
            digits = d
        judge(rep, 'constructed', short + ':ctor%d' % len(f.params), short, f.where, 'constructing a %s' % short, v, pc, isx, rng, d)
    preset = {k: v for k, v in preset.items() if v is not None}
    for name, rule in (('setValue', 'assigned'), ('parse', 'parsed')):
        f = M.method(c, name)
        if f is None:
            continue
        rep.saw(f)
        w = Walker(inline=inline)
        w.preset = preset
        w.nan = True
        w.run(f, this=('this', c))
        isx = (lambda t: t[0] == 'arg' and t[1] == 0 and t[3] == f.qn) if name == 'setValue' else (lambda t: t[0] == 'lv')
        n = 0
        for e in w.events:
            if e.kind == 'assign' and e.a[0] in vf:
                v, d = holder(e.a[1])
            elif e.kind == 'call' and e.a[2] in vf and e.a[0].rsplit('::', 1)[-1] == 'setValue' and len(e.a[3]) == 1:
                v, d = e.a[3][0], digits
            else:
                continue
            n += 1
            judge(rep, rule, '%s:%s' % (short, name), short, f.where, ('assigning to a %s' if name == 'setValue' else 'parsing a %s') % short, v, e.pc, isx, rng, d)
        if not n:
            rep.skip(rule, short, 'stored value not found')
    # the base class stores what it is given: a bounded type has to be reached through the virtual function
    bf = [f for f in P.by_cls.get(base, ()) if f.name == 'setValue']
    rep.ob(bool(bf) and all('v' in f.flags for f in bf) and M.method(c, 'setValue').cls != base or rng[1] is None and rng[3] is None, 'overridden', short, where,
           'a %s that is assigned through its base class stores any number' % short, short)


def judge(rep, rule, key, short, where, what, v, pc, isx, rng, digits):
    if v is None:
        rep.skip(rule, key, 'stored value not understood')
        return
    try:
        out, change = check(v, pc, isx, rng, digits)
    except Unknown as e:
        rep.skip(rule, key, 'arithmetic not understood: %s' % e)
        return
    rep.ob(out is None, rule, key, where, '' if out is None else '%s with %s stores %s; the range is %s' % (what, show_v(out[0]), show_v(out[1]), say(rng)), key)
    if rule == 'assigned' or rule == 'constructed' and not key.endswith('ctor0'):
        rep.ob(change is None, 'kept', key, where, '' if change is None else '%s with %s, which is in range, stores %s' % (what, show_v(change[0]), show_v(change[1])), key)
