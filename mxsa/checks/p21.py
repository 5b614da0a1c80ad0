"""P21: who may know whom. Include structure and references between the layers, and the public headers on their own."""
import os, re, subprocess, tempfile, concurrent.futures
from .. import db
from ..prog import walk

PUB = 'Sourcecode/include/'
PRIV = 'Sourcecode/private/mx/'
XML = PRIV + 'ezxml/src/private/'


def layer(f):
    if f.startswith(PUB):
        return 'public'
    if f.startswith(PRIV):
        return f[len(PRIV):].split('/', 1)[0]
    return 'outside'


BELOW = ('core', 'utility', 'ezxml')        # layers under the conversion layer and the public API
UP = {'public': 'the public API', 'api': 'the implementation of the public API', 'impl': 'the conversion layer'}


def run(rep, P):
    rep.rule('public-include', 'a public header includes only public headers and headers of the standard library', 60)
    rep.rule('alone', 'a public header compiles with nothing but the directory of the public headers', 40)
    rep.rule('together', 'all public headers compile together, in either order', 2)
    rep.rule('layer', 'the document model, the utilities and the XML wrapper do not include the conversion layer or the public API', 4000)
    rep.rule('refers', 'no function or class of those layers refers to the conversion layer or the public API', 4000)
    rep.rule('xml-library', 'the bundled XML library is included and called only by the private part of its wrapper', 4000)
    rep.rule('defined', 'what a public header declares, the library defines', 150)
    heads = sorted(f for f in db.tree() if f.startswith(PUB))
    includes(rep, P, heads)
    alone(rep, heads)
    refers(rep, P)
    defined(rep, P)


def includes(rep, P, heads):
    for k in sorted(P.d['includes']):
        f, line, spelled, angled, target = P.d['includes'][k]
        lf, lt = layer(f), layer(target or '')
        where, key = '%s:%d' % (f, line), '%s>%s' % (f.replace('Sourcecode/', ''), spelled)
        if lf == 'public':
            own = (target or '').startswith('Sourcecode/')
            rep.ob(not own or lt == 'public', 'public-include', key, where, 'the public header includes %s, which is not a public header' % spelled, key)
        elif lf in BELOW:
            rep.ob(lt not in UP, 'layer', key, where, '%s includes %s: %s depends on %s' % (f.rsplit('/', 1)[-1], spelled, lf, UP.get(lt)), key)
        if not f.startswith(XML):
            rep.ob('pugixml' not in spelled and not (target or '').startswith(XML) or (target or '').rsplit('/', 1)[-1].startswith(('Throw', 'Parse', 'XThrow')), 'xml-library', key, where, '%s includes %s, which belongs to the private part of the XML wrapper' % (f.rsplit('/', 1)[-1], spelled), key)


def compile_(name, text):
    cmd = [db.CLANG] + db.FLAGS + ['-I' + os.path.join(db.REPO, PUB), '-fsyntax-only', '-x', 'c++', '-ferror-limit=3', '-']
    r = subprocess.run(cmd, input=text, capture_output=True, text=True, timeout=300, env=db.ENV)
    return name, r.returncode, r.stderr


def alone(rep, heads):
    jobs = [(h, '#include "%s"\n' % h[len(PUB):]) for h in heads]
    for nm, hs in (('alphabetical', heads), ('reversed', heads[::-1])):
        jobs.append((nm, ''.join('#include "%s"\n' % h[len(PUB):] for h in hs)))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for name, rc, err in ex.map(lambda j: compile_(*j), jobs):
            if rc < 0 or rc > 1:
                raise db.Broken('compiler failed on ' + name)
            first = next((l for l in err.split('\n') if ' error: ' in l), err[:200]).replace(db.REPO + '/', '')
            if name in heads:
                m = re.match(r'(\S+?:\d+):\d+: (?:fatal )?error: (.*)', first)
                rep.ob(rc == 0, 'alone', name[len(PUB):], m.group(1) if m else name, '%s does not compile with the public headers alone: %s' % (name[len(PUB):], m.group(2) if m else first), name)
            else:
                rep.ob(rc == 0, 'together', name, PUB, 'the public headers do not compile together: %s' % first, name)


def refers(rep, P):
    def up(q):
        return q.startswith(('mx::api::', 'mx::impl::')) or 'mx::impl::' in q or 'mx::api::' in q
    for f in sorted(P.fn.values(), key=lambda f: (f.file, f.line)):
        if f.body is None:
            continue
        lf = layer(f.file)
        key = '%s/%d' % (f.qn, len(f.params))
        bad, pugi = [], []
        deep = lf in BELOW
        for t in [f.ret] + list(f.ptypes):
            if deep and up(t):
                bad.append((f.line, t))
            if 'pugi::' in t:
                pugi.append((f.line, t))

        def look(n):
            if n[0] in ('c', 'k'):
                inf = P.info.get(n[2] if n[0] == 'c' else n[3])
                if inf:
                    if deep and up(inf[0].split('<')[0]):
                        bad.append((n[1], inf[0]))
                    if inf[0].startswith('pugi::'):
                        pugi.append((n[1], inf[0]))
            elif n[0] == 'd':
                for d in n[2]:
                    if deep and up(d[2]):
                        bad.append((n[1], d[2]))
                    if 'pugi::' in d[2]:
                        pugi.append((n[1], d[2]))
            elif n[0] == 'g' and isinstance(n[2], str):
                if deep and up(n[2]):
                    bad.append((n[1], n[2]))
        walk(f.body, look)
        walk(f.inits or [], look)
        if deep:
            rep.saw(f)
            if bad:
                rep.bad('refers', key, '%s:%d' % (f.file, min(bad)[0]), '%s, which belongs to %s, refers to %s' % (f.qn, lf, min(bad)[1]))
            else:
                rep.ok('refers', key)
        if not f.file.startswith(XML):
            if pugi:
                rep.bad('xml-library', key, '%s:%d' % (f.file, min(pugi)[0]), '%s uses the XML library directly (%s)' % (f.qn, min(pugi)[1]))
            else:
                rep.ok('xml-library', key)
    for c, r in sorted(P.rec.items()):
        f = r.get('file') or ''
        if c.startswith(('mx::core::', 'mx::utility::', 'ezxml::')):
            bad = [x for x in r['f'] if up(x[1])] or [b for b in r['bases'] if up(b)]
            rep.ob(not bad, 'refers', c, f or c, '%s refers to %s' % (c, bad[0] if bad else ''), c)
        if c.startswith(('mx::',)):
            bad = [x for x in r['f'] if 'pugi::' in x[1]]
            rep.ob(not bad, 'xml-library', c, f or c, '%s holds an object of the XML library (%s)' % (c, bad[0] if bad else ''), c)


def defined(rep, P):
    for i, x in sorted(P.info.items(), key=lambda t: str(t[1][0])):
        q, cls, ret, pt, fl = x[:5]
        if not q.startswith('mx::api::') or any(c in fl for c in 'ixp'):
            continue
        f = P.fn.get(i)
        key = '%s(%s)' % (q, ', '.join(pt))
        rep.ob(f is not None and f.body is not None, 'defined', key, f.where if f else cls or q, '%s is declared for users of the library but not defined' % q, key)

