"""P10: the document registry is consistent under concurrent use."""
from ..core import *
from ..locks import *
from ..prog import walk
from .p09 import all_


def run(rep, P):
    rep.rule('locked', 'every access of state that is guarded by a mutex is made while that mutex is held', 5)
    rep.rule('derived', 'iterators and references into guarded state are used only in the critical section that produced them', 0)
    rep.rule('no-relock', 'no code that holds the mutex acquires it again', 1)
    rep.rule('fresh-id', 'a counter of ids only grows, and each id handed out is the one under which the entry was stored', 1)
    rep.rule('one-section', 'an id is taken and the counter advanced in one critical section', 1)
    rep.rule('absent-id', 'a call with an id that is not registered does nothing and returns the empty result', 1)
    rep.rule('entries', 'an entry is removed only by the id that was given, and added only under a new id', 1)
    rep.rule('form-kept', 'reading or writing out a registered document does not change it', 1)
    owners = {}
    for cls, r in P.rec.items():
        if not cls.startswith('mx::api'):
            continue
        mx = [f[0] for f in r['f'] if is_mutex(f[1])]
        if mx:
            owners[cls] = (mx, {f[0]: f[1] for f in r['f'] if not is_mutex(f[1])})
    if not owners:
        return
    fns = [f for f in P.fn.values() if f.body is not None and f.qn.startswith('mx::api')]
    info = {f.id: Locks(P, f) for f in fns}
    ent = entry_locks(P, fns, info)
    for f in sorted(fns, key=lambda f: (f.file, f.line)):
        L = info[f.id]
        if not any(a.cls in owners for a in L.acc):
            continue
        rep.saw(f)
        single = 'k' in f.flags or 'd' in f.flags
        locked(rep, P, f, L, ent, owners, single)
        derived(rep, P, f, L, owners)
    entry_rules(rep, P, fns, info, ent, owners)


def locked(rep, P, f, L, ent, owners, single):
    for i, a in enumerate(L.acc):
        if a.cls not in owners or a.field in owners[a.cls][0] or owners[a.cls][1].get(a.field, '').startswith('std::atomic'):
            continue
        key = '%s:%s:%d' % (f.qn.split('::', 2)[-1], a.field, sum(1 for b in L.acc[:i] if b.field == a.field))
        if single or any((a.cls, m) in {h[0] for h in a.held} | ent[f.id] for m in owners[a.cls][0]):
            rep.ok('locked', key)
        else:
            rep.bad('locked', key, '%s:%d' % (f.file, a.line), '%s accesses %s without holding %s' % (f.qn, a.field, ' or '.join(owners[a.cls][0])))


def is_ref(ty):
    return 'iterator' in ty or ty.endswith(('&', '*'))


def derived(rep, P, f, L, owners):
    """locals that point into guarded containers"""
    cont = {(c, x) for c, (m, fs) in owners.items() for x, t in fs.items() if t.startswith('std::')}
    pts = {}
    for vid, (name, ty, init, held) in L.decls.items():
        if not is_ref(ty):
            continue
        hit = []
        walk(init, lambda n: hit.append(n) if n[0] == 'm' and (n[4], n[3]) in cont or n[0] == 'v' and n[2] in pts else None)
        if hit:
            pts[vid] = (name, frozenset(h[2] for h in held))
    for vid, (name, sc) in pts.items():
        bad = [u for u in L.uses if u[0] == vid and not ({h[2] for h in u[2]} & sc) and sc]
        key = '%s:%s' % (f.qn.split('::', 2)[-1], name)
        if bad:
            rep.bad('derived', key, '%s:%d' % (f.file, bad[0][1]), '%s uses %s after the lock under which it was obtained was released' % (f.qn, name))
        else:
            rep.ok('derived', key)


def entry_rules(rep, P, fns, info, ent, owners):
    by_id = {f.id: f for f in fns}
    # mutexes that a function may acquire, itself or through calls
    may = {f.id: {a.mutex for a in info[f.id].acq} for f in fns}
    change = True
    while change:
        change = False
        for f in fns:
            for c in info[f.id].calls:
                if c.callee in may and not may[c.callee] <= may[f.id]:
                    may[f.id] |= may[c.callee]
                    change = True
    own = {(c, m) for c, (ms, _) in owners.items() for m in ms}
    n = 0
    for f in fns:
        for a in info[f.id].acq:
            if a.mutex not in own:
                continue
            n += 1
            key = '%s:%d' % (f.qn.split('::', 2)[-1], n)
            if a.mutex in {h[0] for h in a.held} | ent[f.id]:
                rep.bad('no-relock', key, '%s:%d' % (f.file, a.line), '%s acquires %s while it is already held' % (f.qn, a.mutex[1]))
            else:
                rep.ok('no-relock', key)
        for c in info[f.id].calls:
            h = {x[0] for x in c.held} | ent[f.id]
            for m in may.get(c.callee, ()):
                if m in h and m in own:
                    rep.bad('no-relock', '%s:%s' % (f.qn.split('::', 2)[-1], by_id[c.callee].name), '%s:%d' % (f.file, c.line), '%s calls %s, which acquires %s, while it is held' % (f.qn, by_id[c.callee].qn, m[1]))
    # --- behaviour of the entry points
    entry = [f for f in fns if f.cls in {c.rsplit('::', 1)[0] for c in owners} and not internal(P, f) and 'k' not in f.flags and 's' not in f.flags]
    counters = {(c, x) for c, (m, fs) in owners.items() for x, t in fs.items() if t.replace('const ', '') in ('int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'std::atomic<int>')}
    atomics = {(c, x) for c, (m, fs) in owners.items() for x, t in fs.items() if t.startswith('std::atomic')}
    maps = {(c, x) for c, (m, fs) in owners.items() for x, t in fs.items() if t.startswith(('std::map<', 'std::unordered_map<'))}
    offsets = {}
    for f in sorted(fns, key=lambda f: (f.file, f.line)):
        for cl in sorted(counters):
            acc = [a for a in info[f.id].acc if (a.cls, a.field) == cl]
            if not any(a.write for a in acc) or 'k' in f.flags or cl in atomics:
                continue
            scopes = [{h[2] for h in a.held} for a in acc]
            key = '%s:%s' % (f.name, cl[1])
            if len(acc) == 1 or set.intersection(*scopes) or all(not s for s in scopes):
                rep.ok('one-section', key)
            else:
                rep.bad('one-section', key, '%s:%d' % (f.file, acc[-1].line), '%s reads and advances %s in different critical sections' % (f.qn, cl[1]))
    for f in sorted(entry, key=lambda f: (f.file, f.line)):
        w = Walker(inline=lambda g, o, t: not (g.cls or '').startswith(('mx::core', 'mx::impl', 'ezxml', 'pugi')))
        try:
            w.run(f, this=('this', f.cls))
        except (Stop, RecursionError):
            rep.skip('absent-id', f.qn, 'too large')
            continue
        rep.saw(f)
        ids(rep, P, f, w, counters, maps, offsets)
        absent(rep, P, f, w, maps)
        form(rep, P, f, w, maps)


def field_of(t, fields):
    return t[0] == 'f' and len(t) > 3 and (t[3], t[2]) in fields


def offset(t, base):
    """k when t is base + k"""
    if t == base:
        return 0
    if t[0] == 'op' and t[1] in ('+', '-') and t[3][0] == 'n':
        k = offset(t[2], base)
        return None if k is None else k + (t[3][1] if t[1] == '+' else -t[3][1])
    if t[0] == 'op' and t[1] == '+' and t[2][0] == 'n':
        k = offset(t[3], base)
        return None if k is None else k + t[2][1]
    return None


def ids(rep, P, f, w, counters, maps, offsets):
    short = f.name
    wr = [e for e in w.events if e.kind == 'assign' and field_of(e.a[0], counters)]
    stores = []
    for e in w.events:
        if e.kind == 'assign' and e.a[0][0] == 'at' and field_of(e.a[0][1], maps):
            stores.append((e, e.a[0][2]))
        elif e.kind in ('mcall', 'call', 'insert') and isinstance(e.a[0], str) and e.a[0].rsplit('::', 1)[-1] in ('insert', 'emplace', 'insert_or_assign', 'try_emplace') and e.a[2] is not None and field_of(e.a[2], maps):
            stores.append((e, pair_key(e.a[3])))
    for e in w.events:
        if e.kind == 'index' and field_of(e.a[0], maps) and not any(s.a[0][0] == 'at' and s.a[0][2] == e.a[1] for s, k in stores if s.kind == 'assign'):
            rep.bad('entries', short + ':index', e.where, '%s may create an entry by looking it up' % f.qn)
    for e in w.events:
        if e.kind in ('call', 'mcall') and isinstance(e.a[0], str) and len(e.a) > 3 and e.a[2] is not None and field_of(e.a[2], maps):
            n = e.a[0].rsplit('::', 1)[-1]
            if n in ('clear', 'swap', 'extract', 'merge'):
                rep.bad('entries', short + ':' + n, e.where, '%s removes every entry' % f.qn)
            elif n == 'erase':
                a = e.a[3][0] if e.a[3] else ('void',)
                ok = len(e.a[3]) == 1 and (a[0] == 'arg' or a[0] == 'c' and a[1].endswith('::find') and a[3] and a[3][0][0] == 'arg' and field_of(a[2], maps))
                if a[0] == 'it' or a[0] == 'lv':
                    rep.skip('entries', short + ': erase of ' + show(a)[:40], 'iterator of unknown origin')
                elif ok:
                    rep.ok('entries', short + ':erase')
                else:
                    rep.bad('entries', short + ':erase', e.where, '%s removes %s, not the entry of the given id' % (f.qn, show(a)[:50]))
    rets = [e for e in w.events if e.kind == 'ret' and len(e.stack) == 1]
    for cl in sorted({(e.a[0][3], e.a[0][2]) for e in wr}):
        mine = [e for e in wr if (e.a[0][3], e.a[0][2]) == cl]
        base = mine[0].a[0]
        key = '%s:%s' % (short, cl[1])
        bad = None
        steps = []
        for e in mine:
            k = offset(e.a[1], base)
            if k is None or k <= 0:
                bad = (e, 'sets %s to %s, which may have been used before' % (cl[1], show(e.a[1])[:50]))
            else:
                steps.append(k)
        for r in rets:
            before = [e for e in mine if decide(all_(r.pc), lambda x: None) is not False and set(e.pc) <= set(r.pc) and e.seq < r.seq]
            k = offset(r.a[0], base) if r.a[0][0] != 'void' else None
            if not before:
                if k is not None or any(set(s.pc) <= set(r.pc) and s.seq < r.seq for s, _ in stores):
                    bad = bad or (r, 'hands out an id without advancing %s' % cl[1])
                continue
            if k is None:
                bad = bad or (r, 'advances %s but returns %s' % (cl[1], show(r.a[0])[:50]))
                continue
            end = max(offset(e.a[1], base) or 0 for e in before)
            if not 0 <= k < end and not 1 <= k <= end:
                bad = bad or (r, 'returns an id that the counter does not skip')
            offsets.setdefault(cl, (k, short))
            if offsets[cl][0] != k:
                bad = bad or (r, 'hands out ids in another way than %s, so that they can coincide' % offsets[cl][1])
            for s, kk in stores:
                if s.pc and not set(s.pc) <= set(r.pc):
                    continue
                if kk is None:
                    rep.skip('fresh-id', key, 'key not recognised')
                elif kk != r.a[0]:
                    bad = bad or (s, 'stores the entry under %s but returns %s' % (show(kk)[:40], show(r.a[0])[:40]))
        if bad:
            rep.bad('fresh-id', key, bad[0].where, '%s %s' % (f.qn, bad[1]))
        else:
            rep.ok('fresh-id', key)
    for s, k in stores:
        if k is not None and not any(offset(k, e.a[0]) is not None for e in wr):
            rep.bad('entries', short + ':store', s.where, '%s stores an entry under %s, which is not a new id' % (f.qn, show(k)[:50]))
        else:
            rep.ok('entries', short + ':store')


def pair_key(args):
    a = args[0] if args else None
    if a is None:
        return None
    if a[0] in ('val', 'new', 'pair') and isinstance(a[2], tuple) and len(a[2]) == 2:
        return a[2][0]
    if a[0] == 'c' and a[1].endswith('make_pair'):
        return a[3][0]
    return a if len(args) > 1 else None


def lookup_fails(x, maps):
    """value of an atom when no entry has the id"""
    if x[0] in ('isnull', 'eq', 'c') and any(isinstance(y, tuple) and y and y[0] == 'ite' for y in x[1:]):
        ys = []
        for y in x[1:]:
            while isinstance(y, tuple) and y and y[0] == 'ite':
                v = decide(y[1], lambda z: lookup_fails(z, maps))
                if v is None:
                    return None
                y = y[2] if v else y[3]
            ys.append(y)
        if x[0] == 'isnull' and ys[0][0] == 'null' or x[0] == 'eq' and ys[0] == ys[1]:
            return True
        return lookup_fails((x[0],) + tuple(ys), maps)

    def find(t):
        return t[0] == 'c' and t[1].rsplit('::', 1)[-1] == 'find' and t[2] is not None and field_of(t[2], maps)
    if x[0] == 'eq':
        for a, b in ((x[1], x[2]), (x[2], x[1])):
            if find(a) and b[0] in ('c', 'it', 'endit') and not find(b):
                return True
            if a[0] == 'c' and a[1].rsplit('::', 1)[-1] in ('count', 'contains') and a[2] is not None and field_of(a[2], maps) and b[0] == 'n':
                return b[1] == 0
    if x[0] == 'c' and x[1].rsplit('::', 1)[-1] in ('contains',) and x[2] is not None and field_of(x[2], maps):
        return False
    if x[0] == 'c' and x[1].rsplit('::', 1)[-1] == 'count' and x[2] is not None and field_of(x[2], maps):
        return False
    return None


PURE = ('find', 'end', 'cend', 'begin', 'cbegin', 'count', 'contains', 'size', 'empty', 'operator bool', 'getInstance')


def looks_up(w, maps):
    for e in w.events:
        if e.kind in ('call', 'mcall') and isinstance(e.a[0], str) and len(e.a) > 2 and e.a[2] is not None and field_of(e.a[2], maps) and e.a[0].rsplit('::', 1)[-1] in ('find', 'count', 'contains', 'at', 'lower_bound'):
            return e
    return None


def absent(rep, P, f, w, maps):
    first = looks_up(w, maps)
    if first is None:
        return
    key = f.name
    bad = None
    for e in w.events:
        if e.seq <= first.seq and e.kind in ('ctor', 'decl', 'call') and e.kind != 'assign':
            if e.kind == 'call' and not calm(P, e):
                bad = (e, 'calls %s before it knows whether the id is registered' % e.a[0])
                break
            continue
        if decide(all_(e.pc), lambda x: lookup_fails(x, maps)) is False:
            continue
        if e.kind == 'call' and not calm(P, e):
            bad = (e, 'calls %s although the id may not be registered' % e.a[0])
            break
        if e.kind == 'ret' and len(e.stack) == 1 and not empty(e.a[0]):
            bad = (e, 'returns %s although the id may not be registered' % show(e.a[0])[:50])
            break
        if e.kind == 'assign' and rooted(e.a[0]):
            bad = (e, 'changes %s although the id may not be registered' % show(e.a[0])[:50])
            break
    if bad:
        rep.bad('absent-id', key, bad[0].where, '%s %s' % (f.qn, bad[1]))
    else:
        rep.ok('absent-id', key)


def rooted(t):
    while t[0] in ('f', 'at'):
        t = t[1]
    return t[0] in ('this', 'arg')


def empty(v):
    if v[0] in ('void', 'null'):
        return True
    if v[0] in ('val', 'new'):
        return not v[-1] if isinstance(v[-1], tuple) else False
    return v in (('s', ''), ('b', False), ('bo', False))


def calm(P, e):
    n = e.a[0].rsplit('::', 1)[-1]
    if n in PURE or n.startswith('operator'):
        return True
    inf = P.info.get(e.a[1])
    # reading a value or making a local helper object changes nothing outside
    return inf is not None and ('c' in inf[4] and inf[2] != 'void') and e.a[0].startswith(('std::', 'mx::'))


def form(rep, P, f, w, maps):
    """functions that look up a document and do not hand over the right to change it"""
    if looks_up(w, maps) is None:
        return
    if 'c' not in f.flags:
        return
    key = f.name
    hit = []
    for e in w.events:
        if e.kind != 'call' or e.a[2] is None or not from_map(e.a[2], maps):
            continue
        inf = P.info.get(e.a[1])
        if inf is None or 'c' in inf[4] or 's' in inf[4] or not e.a[0].startswith('mx::'):
            continue
        hit.append(e)
    for e in w.events:
        if e.kind == 'assign' and from_map(e.a[0], maps):
            hit.append(e)
    if hit:
        e = hit[0]
        what = e.a[0] if isinstance(e.a[0], str) else show(e.a[0])[:60]
        rep.bad('form-kept', key + ':' + what.rsplit('::', 1)[-1], e.where, '%s changes the registered document (%s); it stays changed when a later step fails' % (f.qn, what))
    else:
        rep.ok('form-kept', key)


def from_map(t, maps):
    while True:
        if t[0] == 'f' and t[1][0] == 'c' and t[1][1].rsplit('::', 1)[-1] in ('find', 'at', 'lower_bound') and t[1][2] is not None and field_of(t[1][2], maps):
            return True
        if t[0] in ('f', 'at'):
            t = t[1]
        elif t[0] == 'ite':
            return from_map(t[2], maps) or from_map(t[3], maps)
        elif t[0] == 'c' and t[2] is not None and t[1].rsplit('::', 1)[-1] not in ('toString', 'getValue'):
            t = t[2]
        else:
            return False
