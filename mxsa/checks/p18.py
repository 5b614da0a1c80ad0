"""P18: what the API reader fills, the API writer writes, and vice versa."""
from ..apiflow import Flow, plain, scalar
from ..core import *
from ..prog import bare, walk

# fields that repeat what is said elsewhere, so that a document does not lose anything without them
REPEATED = {
    'NoteData.userRequestedVoiceNumber': 'the number of the voice that holds the note',
    'ClefData.location': 'follows from the tick position of the clef and the staff data that holds it',
    'CurveStart.tickTimePosition': 'the position of the note that holds the curve',
    'SpannerStart.tickTimePosition': 'the position of the direction that holds the spanner',
    'SpannerStop.tickTimePosition': 'the position of the direction that holds the spanner',
    'MarkData.tickTimePosition': 'the position of the note or direction that holds the mark',
}


# places of which the musical time is counted; when something happens is not compared here
TIME = {'Divisions', 'Duration', 'Staff', 'Staves', 'Offset'}
# further places from which a field may be filled when the place of its own is silent
AT = {
    'MarkData.name': {'AccidentalMark', 'ArticulationsChoice?', 'Dynamics', 'OrnamentsChoice?', 'TechnicalChoice?'},
    'TupletStart.actualNumber': {'ActualNotes'},
    'TupletStart.normalNumber': {'NormalNotes'},
    'TupletStart.actualDurationName': {'NormalType', 'Type'},
    'TupletStart.normalDurationName': {'NormalType', 'Type'},
}


def roots(P, name):
    return [f for f in P.fn.values() if f.cls == 'mx::api::DocumentManager' and f.name == name]


def run(rep, P):
    rep.rule('written', 'every public field that reading a document fills is used when a document is written', 100)
    rep.rule('read', 'every public field that is used when a document is written is filled when one is read', 100)
    rep.rule('same-place', 'what fills a public field is read from a place of the document which the field is written to', 80)
    rep.rule('looked-up', 'a lookup of an attribute by name finds it in at least one attributes class', 20)
    rep.rule('element', 'a lookup of an attribute by name is applied to an attributes object', 200)
    F = Flow(P)
    ours = lambda f: f.qn.startswith(('mx::impl::', 'mx::api::')) and not f.name.startswith('operator')
    R = sorted([f for f in F.reach(roots(P, 'getData')) if ours(f)], key=lambda f: (f.file, f.line, f.id))
    W = sorted([f for f in F.reach(roots(P, 'createFromScore')) if ours(f)], key=lambda f: (f.file, f.line, f.id))
    for f in R + W:
        rep.saw(f)
    if not R or not W:
        raise Broken('the entry points of the public API are not found')
    S = Sides(P, F, R, W)
    for c, r in sorted(P.rec.items()):
        if not c.startswith('mx::api::') or not r['f'] or c in ('mx::api::DocumentManager', 'mx::api::Version'):
            continue
        for fd in r['f']:
            a, short = ('api', c, fd[0]), '%s.%s' % (c[9:], fd[0])
            fill, use = S.filled.get(a), S.used.get(a)
            if fill is None and use is None:
                rep.skip('written', short, 'neither read nor written')
                continue
            if fill is not None:
                if short in REPEATED:
                    rep.skip('written', short, 'repeats other fields')
                else:
                    rep.ob(use is not None, 'written', short, '%s:%d' % (fill[0].file, fill[1]),
                           '%s is filled by %s and used nowhere when a document is written' % (short, fill[0].qn), c)
            if use is not None:
                rep.ob(fill is not None, 'read', short, '%s:%d' % (use[0].file, use[1]),
                       '%s is used by %s when a document is written and filled nowhere when one is read' % (short, use[0].qn), c)
            if fill is None or use is None or not scalar(P, fd[1]):
                continue
            S.compare(rep, a, short)
    lookups(rep, P)


class Sides:
    def __init__(self, P, F, R, W):
        self.P, self.F = P, F
        self.filled, self.used = {}, {}
        self.rfs, self.wfs = {}, {}
        for f in R:
            api = f.qn.startswith('mx::api::')
            for tgt, data, ctrl, line in F.of(f)[0]:
                if tgt[0] in ('api', 'f'):
                    self.rfs.setdefault(tgt, []).append((data, ctrl, f, line))
                if tgt[0] == 'api' and not api:
                    self.filled.setdefault(tgt, (f, line))
            for tgt, line in F.touch.get(f.id, {}).items():
                if not api:
                    self.filled.setdefault(tgt, (f, line))
        self.sinks = {}
        for f in W:
            for tgt, data, ctrl, line in F.of(f)[0]:
                if tgt[0] == 'f':
                    self.wfs.setdefault(tgt, []).append((data, ctrl, f, line))
                elif tgt[0] == 'core':
                    self.sinks.setdefault(tgt[1], []).append((data, ctrl, f, line))
            if not f.qn.startswith('mx::impl::'):
                continue

            def look(n):
                if n[0] == 'm' and isinstance(n[4], str) and n[4].startswith('mx::api::'):
                    self.used.setdefault(('api', n[4], n[3]), (f, n[1]))
            walk(f.body, look) if f.body is not None else None
            for i in f.inits or []:
                if i[1]:
                    walk(i[1], look)
        self.to = {}
        for place, evs in self.sinks.items():
            for data, ctrl, f, line in evs:
                s = set()
                for x in data:
                    s |= self.origin(x, self.wfs, 'api')
                for a in s:
                    self.to.setdefault(a, {})[place] = (f, line, True)
                for x in ctrl:
                    if x[0] == 'api':
                        self.to.setdefault(x, {}).setdefault(place, (f, line, False))

    def origin(self, a, fs, kind, seen=(), flags=False):
        if a[0] == kind:
            return {a}
        if a in seen or a[0] in ('p', 'u'):
            return set()
        out = set()
        for d, c, f, l in fs.get(a, ()):
            for x in d:
                out |= self.origin(x, fs, kind, seen + (a,), flags)
            if flags and not d:
                out |= {x for x in c if x[0] == kind}
        return out

    def unresolved(self, a, fs, seen=()):
        """depends on what some caller passes"""
        if a[0] in ('p', 'u'):
            return True
        if a in seen:
            return False
        return any(self.unresolved(x, fs, seen + (a,)) for d, c, f, l in fs.get(a, ()) for x in d)

    def compare(self, rep, a, short):
        to = self.to.get(a, {})
        strong = {p for p, x in to.items() if x[2]}
        for i, (data, ctrl, f, line) in enumerate(self.rfs.get(a, ())):
            if f.qn.startswith('mx::api::'):
                continue
            got = set()
            for x in data:
                got |= {y[1] for y in self.origin(x, self.rfs, 'core')}
            kind = 'data'
            flag = self.P.field_type(a[1], a[2]) in self.P.enums or self.P.field_type(a[1], a[2]) == 'bool'
            if not got and not any(self.unresolved(x, self.rfs) for x in data):
                kind = 'ctrl'
                got = {x[1] for x in ctrl if x[0] == 'core'} if flag else set()
                if flag and not got:
                    for x in data:
                        got |= {y[1] for y in self.origin(x, self.rfs, 'core', (), True)}
            got = {x.lstrip('*') for x in got} if any(not x.startswith('*') for x in got) else set()
            got -= AT.get(short, set())
            if got <= TIME:
                got = set()
            if not got or not to:
                rep.skip('same-place', short, 'no place to compare')
                continue
            have = strong if kind == 'data' and not flag and 'vector<' not in self.P.field_type(a[1], a[2]) else set(to)
            rep.ob(bool(got & have), 'same-place', '%s:%s' % (short, f.qn.split('::', 2)[-1]), '%s:%d' % (f.file, line),
                   '%s takes %s from %s, it is written to %s' % (f.qn, short, ', '.join(sorted(got)), ', '.join(sorted(have)) or 'nowhere'), kind)


def lookups(rep, P):
    """overload sets of which one takes an attribute from an object and another ignores the object it is given"""
    groups = {}
    for f in P.fn.values():
        if f.body is not None and f.qn.startswith('mx::impl::') and not f.cls and f.inst:
            groups.setdefault(f.qn, []).append(f)
    real, fall = {}, {}
    for qn, fs in groups.items():
        for f in fs:
            hit, used = [], set()

            def see(n):
                if n[0] == 'm' and isinstance(n[4], str):
                    hit.append(1)
                elif n[0] == 'c':
                    used.add('call')
                elif n[0] == 'cast' and n[3] == 'void':
                    return False
                elif n[0] == 'v':
                    used.add(n[2])
            walk(f.body, see)
            if hit:
                real.setdefault(qn, []).append(f)
            elif not used:
                fall.setdefault(qn, []).append(f)
    ids = {f.id: f for fs in fall.values() for f in fs}
    live = {}
    for g in sorted(P.fn.values(), key=lambda f: (f.file, f.line, f.id)):
        if g.body is None or not g.qn.startswith('mx::impl::'):
            continue
        types = {p[0]: p[2] for p in g.params}

        def look(n):
            if n[0] == 'd':
                for d in n[2]:
                    types[d[0]] = d[2]
            elif n[0] == 'rf':
                types[n[2]] = n[4]
            elif n[0] == 'c' and n[3] is None and n[4]:
                q = P.info[n[2]][0]
                if q not in fall or 'mx::' not in q:
                    return
                live.setdefault(q, (g, n[1]))
                for a in n[4]:
                    t = kind(a, types)
                    if t is None:
                        continue
                    rep.ob(t.startswith('mx::core::'), 'element', '%s:%s' % (g.qn.split('::', 2)[-1], P.q(n[2]).rsplit('::', 1)[-1]), '%s:%d' % (g.file, n[1]),
                           '%s looks an attribute up in a %s, which has none' % (g.qn, t), t)
        walk(g.body, look)
    for q, (g, line) in sorted(live.items()):
        rep.ob(q in real, 'looked-up', q.split('::', 2)[-1], '%s:%d' % (g.file, line),
               '%s calls %s, which never finds what it looks for in any class it is applied to' % (g.qn, q.rsplit('::', 1)[-1]), 'lookup')


def kind(n, types):
    """the class an argument that is a pointer points to"""
    while n and n[0] == 'cast':
        n = n[-1]
    if n and n[0] == 'u' and n[2] == '&' and n[3][0] == 'v':
        t = types.get(n[3][2])
        return bare(t) if t else None
    if n and n[0] == 'v':
        t = types.get(n[2])
        if t and '*' in t:
            return bare(t.replace('*const', '').replace('*', '').strip())
    return None
