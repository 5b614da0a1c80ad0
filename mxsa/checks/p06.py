"""P06: occurrence bounds of collections hold after every operation."""
from ..core import *
from ..rep import parallel
from ..xsd import schema, INF
from .p05 import Ctx, PUSH

# parts of an element that have no name of their own, as the schema bounds them
PARTS = {('Harmony', 'HarmonyChordGroup'): 1, ('TimeChoice', 'TimeSignatureGroup'): 1, ('NoteheadText', 'NoteheadTextChoice'): 1}
SHRINK = ('erase', 'pop_back', 'clear', 'remove')


def run(rep, P):
    rep.rule('initial', 'a collection the schema requires to be non-empty holds a member after construction', 15)
    rep.rule('minimum', 'no operation leaves such a collection empty', 30)
    rep.rule('maximum', 'no adding operation takes a collection beyond the bound the schema gives', 4)
    rep.rule('end', 'removing at the end of a collection changes nothing', 70)
    rep.rule('room', 'below that bound an adding operation can add a member', 80)
    M = Model(P)
    X = Ctx(P, M)
    B = bounds(P, M, X, schema())
    todo = {}
    for k in sorted(X.sets):
        todo.setdefault(k[0], []).append(k[1])
    parallel(sorted(todo.items()), lambda it, r: one(r, X, B, *it), rep)


def occurs(p, n, lo=1, hi=1):
    """(least, most) times n can stand at each of its places below p, once the alternatives leading there are chosen"""
    if p is None:
        return []
    lo, hi = lo * p[1], min(INF, hi * p[2])
    if p[0] == 'elem':
        return [(lo, hi)] if p[3] == n else []
    return [x for k in p[3] for x in occurs(k, n, lo, hi)]


def bounds(P, M, X, S):
    par = {}
    for c in M.elements:
        for n, fd in P.fields(c).items():
            for v in re.findall(r'mx::core::\w+', fd[1]):
                if v in M.elements:
                    par.setdefault(v, set()).add(c)

    def tops(c, seen=()):
        ns = [x for _, x in (M.names(c) or [])]
        if ns and ns[0] in S.types and not M.is_group(c):
            return {x for x in ns}
        out = set()
        for p in par.get(c, ()):
            if p not in seen:
                out |= tops(p, seen + (c,))
        return out

    B = {}
    for (c, n), t in X.sets.items():
        m = re.search(r'shared_ptr<([\w:]+)', t)
        v = m.group(1) if m else ''
        short = (c.rsplit('::', 1)[-1], v.rsplit('::', 1)[-1])
        if short in PARTS:
            B[c, n] = (PARTS[short], INF)
            continue
        vn = [x for _, x in (M.names(v) or [])] if v in M.elements else []
        occ = []
        if vn and not M.is_group(v):
            for pn in tops(c):
                for ty in S.types[pn]:
                    occ += occurs(ty.content, vn[0])
        occ = [o for o in occ if o[1] > 1]
        B[c, n] = (min(o[0] for o in occ), max(o[1] for o in occ)) if occ else (0, INF)
    return B


class Stop(Exception):
    pass


def simulate(w, F, size, choice, at_end):
    """size of the collection after the function, for one starting size and one choice of the unknown conditions"""
    seen = {}
    s = size
    touched = False

    def num(t):
        if t[0] == 'n':
            return t[1]
        if t == ('size', F):
            return s
        if t[0] == 'op' and t[1] in '+-' and len(t) == 4:
            a, b = num(t[2]), num(t[3])
            return None if a is None or b is None else a + b if t[1] == '+' else a - b
        return None

    def atom(t):
        k = t[0]
        if k == 'empty' and t[1] == F:
            return s == 0
        if k in ('lt', 'eq'):
            a, b = num(t[1]), num(t[2])
            if a is not None and b is not None:
                return a < b if k == 'lt' else a == b
            if k == 'eq' and any(x == ('endit', F) for x in t[1:3]):
                o = t[2] if t[1] == ('endit', F) else t[1]
                if o[0] == 'it' or o[0] == 'b':
                    return s == 0
                return at_end
        if t in choice:
            return choice[t]
        raise Stop(t)

    def step(e, seen):
        nonlocal s, touched
        go = True
        for l in e.pc:
            if l not in seen:
                seen[l] = evalf(l, atom)
            if not seen[l]:
                go = False
                break
        if not go:
            return True
        if e.kind == 'call' and e.a[2] == F:
            n = e.a[0].rsplit('::', 1)[-1]
            if n in PUSH:
                s += 1
            elif n == 'clear':
                s = 0
            elif n == 'pop_back':
                if s == 0:
                    return False
                s -= 1
            elif n == 'erase':
                if len(e.a[3]) != 1:
                    raise Stop(None)
                touched = True
                if at_end or s == 0:
                    return False
                s -= 1
            elif n in ('resize', 'assign', 'swap', 'insert', 'reserve') and n != 'reserve':
                raise Stop(None)
        elif e.kind == 'assign' and e.a[0] == F:
            v = e.a[1]
            if v[0] == 'val' and not v[2]:
                s = 0
            elif v[0] == 'val' and 'initializer_list' not in v[1] and len(v[2]) == 1 and v[2][0][0] == 'n':
                s = v[2][0][1]
            elif v[0] in ('il', 'init', 'list'):
                s = len(v[1])
            else:
                raise Stop(None)
        return True

    i = 0
    evs = w.events
    while i < len(evs):
        if not evs[i].loops:
            if not step(evs[i], seen):
                return None, True
            i += 1
            continue
        j = i
        while j < len(evs) and evs[j].loops[:1] == evs[i].loops[:1]:
            j += 1
        for turn in range(40):          # a loop over the size of the collection is followed as often as it runs
            s0, local = s, dict(seen)
            if not all(step(e, local) for e in evs[i:j]):
                return None, True
            if s == s0:
                break
        else:
            raise Stop(None)
        i = j
    return s, touched


def outcomes(w, F, size, at_end, limit=256):
    """all (choice, final size, erased) over the conditions that do not concern the collection"""
    todo, out = [{}], []
    while todo:
        ch = todo.pop()
        try:
            out.append((ch,) + simulate(w, F, size, ch, at_end))
        except Stop as e:
            t = e.args[0]
            if t is None or any(x == F for x in subterms(t)) or len(ch) > 7:
                return None
            todo += [dict(ch, **{}) | {t: True}, dict(ch) | {t: False}]
        if len(out) > limit:
            return None
    return out


def one(rep, X, B, c, fields):
    P = X.P
    short = c.rsplit('::', 1)[-1]
    for n in sorted(fields):
        lo, hi = B[c, n]
        F = ('f', ('this', c), n, c)
        ctor_ok = True
        for f in X.methods(c):
            w = X.walk(c, f)
            ctor = 'k' in f.flags
            if f.name == 'fromXElementImpl' or 'z' in f.flags or f.name.startswith('import'):
                continue
            muts = [e for e in w.events if e.kind == 'call' and e.a[2] == F and e.a[0].rsplit('::', 1)[-1] in PUSH + SHRINK + ('resize', 'assign', 'swap') or e.kind == 'assign' and e.a[0] == F]
            if not muts and not (ctor and lo):
                continue
            rep.saw(f)
            if ctor and not lo:
                continue
            key = '%s:%s' % (short, f.name) if not ctor else '%s:%s:%s' % (short, n, f.name)
            grows = any(e.kind == 'call' and e.a[0].rsplit('::', 1)[-1] in PUSH for e in muts)
            shrinks = any(e.kind == 'call' and e.a[0].rsplit('::', 1)[-1] in SHRINK for e in muts)
            erases = any(e.kind == 'call' and e.a[0].rsplit('::', 1)[-1] in ('erase',) for e in muts)
            res = {}
            sizes = [0] if ctor else range(lo, lo + 4) if hi >= INF else range(lo, hi + 1)
            if not ctor and hi >= INF:  # and around each number the function looks at
                ks = {t[1] for e in muts for l in e.pc for t in subterms(l) if t[0] == 'n' and isinstance(t[1], int) and 0 <= t[1] < 1 << 16}
                sizes = sorted(set(sizes) | {k + d for k in ks for d in (-1, 0, 1) if k + d >= lo})
            for s in sizes:
                for end in (False, True) if erases else (False,):
                    if erases and not end and s == 0:
                        continue
                    res[s, end] = outcomes(w, F, s, end)
            und = any(v is None for v in res.values())
            rules = (['initial'] if ctor else ['minimum'] if lo and (shrinks or not grows) else []) + (['maximum'] if hi < INF and grows and not ctor else []) + (['end'] if erases else []) + (['room'] if grows and not shrinks and not ctor else [])
            for rule in rules:
                bad = None
                if rule == 'room':
                    for (s, end), outs in res.items():
                        if outs is not None and s < hi and not any(t is not None and t > s for ch, t, touched in outs):
                            bad = bad or '%s::%s cannot add to %s when it has %d members, the schema allows %s' % (short, f.name, n, s, 'any number' if hi >= INF else hi)
                for (s, end), outs in res.items():
                    for ch, t, touched in outs or ():
                        if rule == 'room':
                            break
                        if rule == 'end':
                            if end and (t != s or touched):
                                bad = '%s::%s changes %s when it is given the end' % (short, f.name, n)
                        elif t is None:
                            if not end:
                                bad = '%s::%s removes from %s when it is empty' % (short, f.name, n)
                        elif rule in ('minimum', 'initial') and t < lo:
                            bad = '%s::%s leaves %s with %d members, the schema wants at least %d' % (short, f.name, n, t, lo)
                        elif rule == 'maximum' and t > hi:
                            bad = '%s::%s can leave %s with %d members, the schema allows %d' % (short, f.name, n, t, hi)
                if bad:
                    rep.bad(rule, key, f.where, bad)
                elif und:
                    rep.skip(rule, key, 'condition not understood')
                else:
                    rep.ok(rule, key)
