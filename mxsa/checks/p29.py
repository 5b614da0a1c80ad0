"""P29: a record says that it holds something exactly when it does."""
import re
from ..prog import bare, is_cont
from ..sym import Walker, evalf, show
from .p15 import atoms, result

R = 'mx::api::'
NAME = re.compile(r'is(Used|Specified)$|is\w*Empty$|empty$|hasData$')
# where or when something stands does not make it hold anything
PLACE = {(R + 'DirectionData', 'placement'), (R + 'DirectionData', 'voice'), (R + 'DirectionData', 'tickTimePosition')}
# "only the following PositionData fields are supported: defaultX, defaultY, relativeX, relativeY, placement" (CurveData.h)
OF = {R + 'CurvePoints': {'isDefaultXSpecified', 'isDefaultYSpecified', 'isRelativeXSpecified', 'isRelativeYSpecified', 'placement'}}


def path(t, top):
    """names of the fields from the record to the one a term is about"""
    names = []
    while t[0] == 'f':
        names.append(t[2])
        t = t[1]
    return tuple(reversed(names)) if t == top else None


def about(t, top):
    """(path, value of the atom in a fresh record)"""
    if t[0] == 'has':
        p = path(t[1], top)
        return (p, 'unset') if p else None
    if t[0] == 'empty':
        p = path(t[1], top)
        return (p, 'isempty') if p else None
    if t[0] == 'f':
        p = path(t, top)
        return (p, 'flag') if p else None
    if t[0] == 'eq':
        for x, y in ((t[1], t[2]), (t[2], t[1])):
            p = path(x, top)
            if p and y[0] in ('e', 'n', 'fl', 's', 'bo'):
                return p, ('is', y)
    if t[0] == 'lt':
        for x, y in ((t[1], t[2]), (t[2], t[1])):
            p = path(x, top)
            if p and y[0] in ('n', 'fl'):
                return p, ('cmp', y)
    return None


def run(rep, P):
    rep.rule('fresh', 'a fresh record is said to hold nothing', 5)
    rep.rule('given', 'a record in which any one part has been given is said to hold something', 35)
    rep.rule('else', 'the answer depends on nothing but the fields of the record', 5)
    for f in sorted(P.fn.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or not f.qn.startswith(R) or bare(f.ret) != 'bool' or not NAME.search(f.name) or '/mx/api/' not in f.file:
            continue
        ops = ([f.cls] if f.cls else []) + [bare(t) for t in f.ptypes]
        if len(ops) != 1 or ops[0] not in P.rec:
            continue
        cls = ops[0]
        rep.saw(f)
        res = result(Walker(inline=lambda g, o, ts: True).run(f))
        top = ('this', cls) if f.cls else ('arg', 0, f.params[0][1], f.qn)
        if f.name.lower().endswith('empty'):
            res = ('not', res)
        info, other = {}, []
        for t in atoms(res, []):
            a = about(t, top)
            if a:
                info[t] = a
            else:
                other.append(t)
        leaves = {}
        content(P, cls, (), leaves, OF.get(cls))
        nums = {p for p, k in info.values() if p not in leaves}
        fresh = {}
        for t, (p, k) in info.items():
            d = default(P, cls, p)
            fresh[t] = False if k == 'unset' else True if k == 'isempty' else d if k == 'flag' else None
            if isinstance(k, tuple) and k[0] == 'is':
                fresh[t] = None if d is None else d == (k[1][1] if k[1][0] != 'e' else k[1][1])
            if isinstance(k, tuple) and k[0] == 'cmp' and isinstance(d, (int, float)):
                c = float(k[1][1])
                fresh[t] = d < c if t[2] == k[1] else c < d
        key = cls.rsplit('::', 1)[-1] + '::' + f.name
        if other:
            rep.skip('else', f.where, 'depends on ' + ', '.join(map(show, other[:3])))
        else:
            rep.ok('else', key)
        v = evalf(res, lambda t: fresh.get(t))
        if v is None:
            rep.skip('fresh', f.where, 'not determined')
            continue
        rep.ob(v is False, 'fresh', key, f.where, '%s says that a fresh %s holds something' % (f.qn, cls), key)
        for p in sorted(set(leaves) | nums):
            if (cls, p[0]) in PLACE or p not in leaves and p not in nums:
                continue
            v = evalf(res, lambda t: (not fresh[t] if fresh[t] is not None else None) if t in info and info[t][0] == p else fresh.get(t))
            if v is None:
                rep.skip('given', f.where, '.'.join(p))
                continue
            rep.ob(v is True, 'given', key + ':' + '.'.join(p), f.where, '%s says that a %s in which only %s has been given holds nothing' % (f.qn, cls, '.'.join(p)), '%s.%s' % (key, '.'.join(p)))
        # when the record has one number that counts, all of them do
        for p in sorted(siblings(P, cls, nums)):
            rep.ob(p in nums, 'given', key + ':' + '.'.join(p), f.where, '%s does not look at %s' % (f.qn, '.'.join(p)))


def siblings(P, cls, nums):
    out = set()
    for p in nums:
        c = cls
        for x in p[:-1]:
            c = bare(P.fields(c)[x][1])
        names = P.fields(c)
        for n, fl in names.items():
            if bare(fl[1]) in ('int', 'double', 'long double', 'float', 'long', 'unsigned int') and not any(flag(n) in names for flag in (lambda n: 'is%sSpecified' % (n[:1].upper() + n[1:]),)):
                out.add(p[:-1] + (n,))
    return out - {p for p in nums}


def content(P, cls, pre, out, only=None, depth=0):
    for n, fl in P.fields(cls).items():
        t = bare(fl[1])
        p = pre + (n,)
        if t.startswith('std::optional<') or is_cont(t) or t in ('std::string', 'std::map') or t.startswith(('std::map<', 'std::set<')):
            if only is None or not pre or n in only:
                out[p] = t
        elif t == 'bool':
            if re.match(r'is\w*Specified$', n) and default(P, cls, (n,)) is False and (only is None or not pre or n in only):
                out[p] = t
        elif t in P.enums:
            d = default(P, cls, (n,))
            if d is not None and str(d).endswith('::unspecified') and (only is None or not pre or n in only):
                out[p] = t
        elif t.startswith(R) and t in P.rec and depth < 5:
            content(P, t, p, out, only, depth + 1)


def default(P, cls, p):
    """value of a field in a record made without arguments"""
    for x in p[:-1]:
        fl = P.fields(cls).get(x)
        if fl is None:
            return None
        cls = bare(fl[1])
    n = p[-1]
    fl = P.fields(cls).get(n)
    if fl is None:
        return None
    vals, seen = set(), False
    for f in P.methods(cls):
        if 'k' not in f.flags or f.params or 'x' in f.flags:
            continue
        seen = True
        vals.add(made(P, f, n, {}, fl))
    if not seen and not any('k' in f.flags and 'i' not in f.flags for f in P.methods(cls)):
        vals.add(const(fl[2], {}) if fl[2] is not None else None)
    v = next(iter(vals)) if len(vals) == 1 else None
    if v is None and not vals and bare(fl[1]) in P.enums:       # the default of a constructor's parameter, which the facts do not have
        e = bare(fl[1]) + '::unspecified'
        v = e if any(c[0] == 'unspecified' for c in P.enums[bare(fl[1])]['c']) else None
    return v


def made(P, f, n, env, fl):
    for i in f.inits:
        if i[0] == n:
            return const(i[1], env)
        if i[0] == '<delegate>':
            g = P.fn.get(i[1][3])
            if g is None:
                return None
            return made(P, g, n, {q[0]: const(a, env) for q, a in zip(g.params, i[1][4] or [])}, fl)
    return const(fl[2], {}) if fl[2] is not None else None


def const(n, env):
    while n and n[0] in ('cast', 'k', 'il'):
        if n[0] == 'cast':
            n = n[-1]
        elif n[0] == 'k' and len(n[4] or []) == 1:
            n = n[4][0]
        elif n[0] == 'il' and len(n[3] or []) == 1:
            n = n[3][0]
        else:
            return None
    if not n:
        return None
    if n[0] in ('bo', 'n', 'fl', 's'):
        return n[2]
    if n[0] == 'e':
        return n[2]
    if n[0] == 'zero':
        return 0
    if n[0] == 'v':
        return env.get(n[2])
    return None
