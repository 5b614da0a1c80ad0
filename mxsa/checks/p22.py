"""P22: documents and values are functions of each other, not of the process they are made in.

Sources of anything else (clock, randomness, environment, identity of threads and processes, addresses, hashes, earlier
documents, the locale and the format state of streams) are found where they are called, and must not be on the way between
a score and the text of its document."""
from ..core import *
from ..effects import Effects
from ..prog import walk, pointee, bare
from .p11 import pure, writes, const

LIB = ('mx::', 'ezxml::')
CLOCK = re.compile(r'^(std::)?(time|clock|localtime|gmtime|localtime_r|gmtime_r|ctime|mktime|gettimeofday|clock_gettime|timespec_get|rand|srand|random|drand48|rand_r|getrandom|getenv|secure_getenv|getpid|getppid|gettid|getuid|tmpnam|mkstemp|gethostname|getcwd|uname|sched_getcpu|pthread_self)$'
                   r'|^std::chrono::.*::now$|^std::random_device|^std::this_thread::get_id$|^std::thread::get_id|^std::filesystem::(current_path|temp_directory_path|last_write_time)$|_engine<.*::operator\(\)$|^std::locale::(locale|global|name)$|^std::setlocale$|^setlocale$|^localeconv$|^std::hash<|::hash_function$|^std::type_info::(name|hash_code|before)$|^std::type_index::')
PRINT = re.compile(r'^(std::)?(printf|puts|putchar|vprintf|perror|fputs|fprintf|fputc|fwrite|putc|print|println)$')
STD_STREAMS = ('std::cout', 'std::cerr', 'std::clog', 'std::wcout', 'std::wcerr', 'std::cin')
ARITH = re.compile(r'^(unsigned |signed )?(int|long|short|long long|char16_t|double|long double|float|__int128|bool)( &)?$|^unsigned$')
INTEGERS = re.compile(r'^(unsigned |signed )?(int|long|short|long long)( &)?$')
MANIP = ('hex', 'oct', 'dec', 'fixed', 'scientific', 'hexfloat', 'defaultfloat', 'uppercase', 'nouppercase', 'showpos', 'noshowpos', 'showbase', 'noshowbase', 'showpoint', 'noshowpoint', 'boolalpha', 'noboolalpha', 'left', 'right', 'internal', 'skipws', 'noskipws', 'unitbuf')
TEXTNUM = ('stod', 'stof', 'stold', 'strtod', 'strtof', 'strtold', 'atof', 'sprintf', 'snprintf', 'vsnprintf', 'vsprintf', 'sscanf', 'asprintf', 'put_money', 'get_money', 'put_time', 'get_time', 'strftime')

BYADDRESS = re.compile(r'std::(multi)?(map|set)<(const )?(std::(shared|unique)_ptr<|[\w:]+( const)? \*)')


def run(rep, P):
    rep.rule('source', 'the clock, randomness, the environment, the process and hashes are asked only by functions that exist to tell them, and nothing else calls those', 2500)
    rep.rule('history', 'nothing between a score and its document depends on what the process did before', 2500)
    rep.rule('numbers', 'numbers are written and read without the global locale', 8)
    rep.rule('format', 'format state of a stream that was handed in is not changed, or is put back', 1)
    rep.rule('address', 'no address is written, hashed, turned into a number or used as an order', 2500)
    rep.rule('unordered', 'nothing goes through a container whose order is not determined by its contents', 2500)
    rep.rule('silent', 'nothing is printed to the standard streams', 2500)
    rep.rule('const-pure', 'a const operation of a document or API object changes nothing that the object owns or refers to', 1500)
    rep.rule('readers-pure', 'nothing that runs when a score is read from a document changes the document', 300)
    rep.rule('writers-pure', 'nothing that runs when a document is written out changes it', 5)
    fns = [f for f in P.fn.values() if f.body is not None and f.qn.startswith(LIB)]
    callers, calls = {}, {}
    for f in fns:
        cs = set()

        def look(n):
            if n[0] == 'c' and isinstance(n[2], str):
                cs.add((n[2], n[1]))
            elif n[0] == 'k' and n[3]:
                cs.add((n[3], n[1]))
            elif n[0] == 'c':
                cs.add((n[2], n[1]))
        walk(f.body, look)
        walk(f.inits or [], look)
        calls[f.id] = cs
        for i, l in cs:
            callers.setdefault(i, set()).add(f.id)
            for o in P.overriders.get(i, ()):
                callers.setdefault(o, set()).add(f.id)
    for f in fns:
        rep.saw(f)
    sources(rep, P, fns, calls, callers)
    history(rep, P, fns, calls)
    for f in sorted(fns, key=lambda f: (f.file, f.line)):
        texts(rep, P, f)
        addresses(rep, P, f)
        silent(rep, P, f)
    held(rep, P)
    own = [f for f in fns if f.qn.startswith('mx::')]
    mut = {(c, fl[0]) for c, r in P.rec.items() for fl in r['f'] if 'm' in fl[3]}
    pure(rep, P, own, Effects(P, own, mut))


def label(f):
    return '%s/%d' % (f.qn, len(f.params))


def name(P, fid):
    inf = P.info.get(fid)
    return inf[0] if inf else ''


def teller(f):
    """a function that exists to tell something about the surroundings: it is given nothing and belongs to no object"""
    return not f.params and ('s' in f.flags or not f.cls) and 'k' not in f.flags and bare(f.ret) != 'void'


def sources(rep, P, fns, calls, callers):
    fn = {f.id: f for f in fns}
    for f in sorted(fns, key=lambda f: (f.file, f.line)):
        hits = [(l, name(P, i)) for i, l in calls[f.id] if CLOCK.search(name(P, i))]
        if not hits:
            rep.ok('source', label(f))
            continue
        l, what = min(hits)
        if 'locale' in what and what.endswith('::locale') and not what.endswith('global'):
            rep.ok('source', label(f))      # copies of locales are judged where a number is written
            continue
        up, todo = [], [f.id]
        while todo:
            x = todo.pop()
            if x in up:
                continue
            up.append(x)
            todo += callers.get(x, ())
        bad = [fn[x] for x in up if x in fn and not teller(fn[x])]
        rep.ob(not bad, 'source', label(f), '%s:%d' % (f.file, l), '%s asks %s%s' % (f.qn, what, ', on the way of %s' % bad[-1].qn if bad and bad[-1] is not f else ''), label(f))


def history(rep, P, fns, calls):
    wrote = {}
    for f in fns:
        for what, line in writes(P, f):
            wrote.setdefault(what, (f, line))
    for f in sorted(fns, key=lambda f: (f.file, f.line)):
        bad = []
        if not (f.cls or '').startswith('mx::api::DocumentManager'):
            for i, l in calls[f.id]:
                inf = P.info.get(i)
                if inf and (inf[1] or '').startswith('mx::api::DocumentManager'):
                    bad.append((l, 'depends on the registry of documents (%s)' % inf[0]))

        def look(n):
            if n[0] == 'g' and isinstance(n[2], str) and n[2].startswith(LIB) and ('g', n[2]) in wrote:
                bad.append((n[1], 'uses the global %s, which %s changes' % (n[2], wrote[('g', n[2])][0].qn)))
            elif n[0] == 'd':
                for vid, nm, ty, init, fl in n[2]:
                    if fl and 's' in fl and ('v', f.id, vid) in wrote:
                        bad.append((n[1], 'keeps %s from call to call and changes it' % nm))
            elif n[0] == 'm' and False:
                pass
        if not (f.cls or '').startswith('mx::api::DocumentManager'):
            walk(f.body, look)
            walk(f.inits or [], look)
        if bad:
            l, what = min(bad)
            rep.bad('history', label(f), '%s:%d' % (f.file, l), '%s %s' % (f.qn, what))
        else:
            rep.ok('history', label(f))


def var(n):
    """the variable (or place) a stream expression ends at"""
    while n:
        k = n[0]
        if k == 'cast':
            n = n[-1]
        elif k == 'v':
            return ('v', n[2])
        elif k == 'm':
            return ('m', n[3]) if n[2] and n[2][0] == 'this' else var(n[2])
        elif k == 'c':
            a = n[3] if n[3] is not None else (n[4] or [None])[0]
            n = a
        elif k == 'u':
            n = n[3]
        elif k == 'k' and n[4]:
            n = n[4][0]
        else:
            return None
    return None


def strtype(t):
    return 'basic_' in t and 'stream' in t or t.endswith(('basic_ios<char, std::char_traits<char>> &', 'ios_base &'))


def texts(rep, P, f):
    """numbers in and out of streams, and the state of streams that belong to somebody else"""
    imbued, put, own, fmt, restored, bad = {}, [], set(), [], set(), []

    def look(n):
        if n[0] == 'd':
            for vid, nm, ty, init, fl in n[2]:
                if 'stream<' in ty and not ty.endswith(('&', '*')):
                    own.add(('v', vid))
        if n[0] != 'c':
            return
        inf = P.info.get(n[2])
        if not inf or inf[0].startswith(LIB):
            return
        nm = inf[0].rsplit('::', 1)[-1]
        if '<' in nm and not nm.startswith('operator'):
            nm = nm.split('<')[0]
        recv = n[3] if n[3] is not None else (n[4] or [None])[0]
        if nm == 'imbue':
            v = var(recv)
            good = False

            def cl(x):
                nonlocal good
                if x[0] == 'c' and name(P, x[2]) == 'std::locale::classic':
                    good = True
            walk(n[4] or [], cl)
            if v is not None and good:
                imbued.setdefault(v, n[1])
        elif nm in ('operator<<', 'operator>>') and inf[3]:
            ty = inf[3][-1]
            if ARITH.match(ty):
                put.append((n[1], var(recv), ty, nm))
            elif 'ios_base &(*)' in ty:
                w = manip(P, n[4][-1] if n[4] else None)
                if w:
                    fmt.append((n[1], var(recv), w))
            elif '_Set' in ty and '_Setw' not in ty or '_Resetiosflags' in ty:
                fmt.append((n[1], var(recv), ty.split('_Set')[-1].split('<')[0]))
        elif nm in ('flags', 'copyfmt', 'fill', 'precision', 'setf', 'unsetf') and n[4] and 'ios' in inf[0]:
            v = var(recv)
            if nm in ('setf', 'unsetf') or not saved(f, n[4][0]):
                fmt.append((n[1], v, nm))
            else:
                restored.add(v)
        elif nm in TEXTNUM:
            bad.append((n[1], 'converts numbers with %s, which follows the global locale' % nm))
        elif nm == 'to_string' and any(x in (inf[3] or [''])[0] for x in ('double', 'float')):
            bad.append((n[1], 'converts a number with to_string, which follows the global locale'))
    walk(f.body, look)
    spoken = messages(P, f, own)
    for l, v, ty, op in put:
        if v in spoken:
            continue
        if v is None or v not in imbued:
            bad.append((l, '%s a number (%s) %s a stream that follows the locale of the process or of its user' % ('writes' if op == 'operator<<' else 'reads', ty.rstrip(' &'), 'to' if op == 'operator<<' else 'from')))
    if bad:
        l, what = min(bad)
        if feeds(P, f):
            rep.bad('numbers', label(f), '%s:%d' % (f.file, l), '%s %s' % (f.qn, what))
        else:
            rep.skip('numbers', label(f), 'text for people, not part of a document')
    elif put:
        rep.ok('numbers', label(f))
    changed = [(l, v, w) for l, v, w in fmt if v not in own and v not in restored]
    if changed:
        rep.bad('format', label(f), '%s:%d' % (f.file, changed[0][0]), '%s leaves its format setting (%s) on a stream it was handed' % (f.qn, changed[0][2]))
    elif fmt:
        rep.ok('format', label(f))


def messages(P, f, own):
    """local streams whose text is only thrown"""
    uses = {v: 0 for v in own}
    if not own:
        return set()

    def look(n):
        if n[0] == 'throw':
            return False
        if n[0] == 'c':
            nm = name(P, n[2]).rsplit('::', 1)[-1]
            if nm in ('operator<<', 'imbue', 'fill', 'flags', 'precision', 'width', 'clear', 'setf'):
                return None
            for a in [n[3]] + list(n[4] or ()):
                v = var(a) if a else None
                if v in uses:
                    uses[v] += 1
    walk(f.body, look)
    thrown = set()

    def inside(n):
        if n[0] == 'throw':
            walk(n, lambda x: thrown.add(('v', x[2])) if x[0] == 'v' else None)
    walk(f.body, inside)
    return {v for v, k in uses.items() if k == 0 and v in thrown}


def feeds(P, f):
    """what the function makes can be part of a document (the version and description texts of the API are not)"""
    return f.qn.startswith(('mx::core', 'mx::impl', 'ezxml')) and not diagnostic(P, f)


def diagnostic(P, f):
    """its text only ever goes into exceptions: nothing of the library uses it for anything else"""
    us = users(P, f.id)
    return f.ret.startswith('std::basic_string') and not us


_users = {}


def users(P, fid):
    if not _users:
        for g in P.fn.values():
            if g.body is None or not g.qn.startswith(LIB):
                continue

            def look(n):
                if n[0] == 'throw':
                    return False
                if n[0] == 'c':
                    _users.setdefault(n[2], set()).add(g.id)
            walk(g.body, look)
    return _users.get(fid, ())


def manip(P, n):
    while n and n[0] == 'cast':
        n = n[-1]
    if n and n[0] == 'fn':
        for x in n[1:]:
            q = name(P, x) if not isinstance(x, list) else ''
            if q:
                return q.rsplit('::', 1)[-1]
    return '?'


def saved(f, n):
    """the value is one that was taken from a stream before"""
    while n and n[0] == 'cast':
        n = n[-1]
    if not n:
        return False
    if n[0] == 'c' and n[3] is not None:
        return True
    if n[0] != 'v':
        return False
    hit = []

    def look(x):
        if x[0] == 'd':
            for vid, nm, ty, init, fl in x[2]:
                if vid == n[2] and init is not None:
                    i = init
                    while i and i[0] == 'cast':
                        i = i[-1]
                    if i and (i[0] == 'c' or 'basic_ios' in ty):
                        hit.append(1)
    walk(f.body, look)
    return bool(hit)


def addresses(rep, P, f):
    bad, order = [], []

    def look(n):
        if n[0] == 'c':
            inf = P.info.get(n[2])
            if inf and not inf[0].startswith(LIB):
                nm = inf[0].rsplit('::', 1)[-1]
                if nm == 'operator<<' and inf[3] and inf[3][-1] in ('const void *', 'void *', 'const volatile void *'):
                    bad.append((n[1], 'writes an address'))
                elif nm.startswith('operator<<') and any('shared_ptr<' in t or 'unique_ptr<' in t for t in inf[3]):
                    bad.append((n[1], 'writes the address a smart pointer holds'))
                elif nm in ('owner_before', 'owner_hash'):
                    bad.append((n[1], 'orders by address'))
                elif nm.startswith(('operator<', 'operator>')) and not nm.startswith(('operator<<', 'operator>>')) and inf[3] and any(t.startswith(('const std::shared_ptr<', 'std::shared_ptr<', 'const std::unique_ptr<')) for t in inf[3]):
                    bad.append((n[1], 'orders by address'))
                elif 'unordered_' in inf[0] and nm in ('begin', 'cbegin', 'end', 'cend'):
                    order.append((n[1], inf[0].split('<')[0]))
        elif n[0] == 'd':
            for d in n[2]:
                if BYADDRESS.search(d[2]):
                    bad.append((n[1], 'orders %s by address' % d[1]))
        elif n[0] == 'cast' and 'PointerToIntegral' in n[2]:
            bad.append((n[1], 'turns an address into a number'))
        elif n[0] == 'rf' and 'unordered_' in str(rangetype(P, f, n)):
            order.append((n[1], 'an unordered container'))
    walk(f.body, look)
    if bad:
        l, what = min(bad)
        rep.bad('address', label(f), '%s:%d' % (f.file, l), '%s %s' % (f.qn, what))
    else:
        rep.ok('address', label(f))
    if order:
        l, what = min(order)
        rep.bad('unordered', label(f), '%s:%d' % (f.file, l), '%s goes through %s, whose order is not determined' % (f.qn, what))
    else:
        rep.ok('unordered', label(f))


def rangetype(P, f, n):
    r = n[5]
    while r and r[0] == 'cast':
        if 'unordered_' in str(r[3]) or 'unordered_' in str(r[4]):
            return r[3]
        r = r[-1]
    if not r:
        return ''
    if r[0] == 'm':
        return P.field_type(r[4], r[3]) if isinstance(r[4], str) else ''
    if r[0] == 'c':
        inf = P.info.get(r[2])
        return inf[2] if inf else ''
    if r[0] == 'v':
        for vid, nm, ty in f.params:
            if vid == r[2]:
                return ty
        t = []

        def look(x):
            if x[0] == 'd':
                t.extend(d[2] for d in x[2] if d[0] == r[2])
            elif x[0] == 'rf' and x[2] == r[2]:
                t.append(x[4])
        walk(f.body, look)
        return t[0] if t else ''
    return ''


def held(rep, P):
    """containers that are ordered by address"""
    for c, r in sorted(P.rec.items()):
        if not c.startswith(LIB):
            continue
        bad = [fl for fl in r['f'] if BYADDRESS.search(fl[1])]
        if bad:
            rep.bad('address', c, '%s' % c, '%s::%s is ordered by address' % (c, bad[0][0]))


def silent(rep, P, f):
    bad = []

    def look(n):
        if n[0] == 'g' and n[2] in STD_STREAMS:
            bad.append((n[1], n[2]))
        elif n[0] == 'c' and PRINT.match(name(P, n[2])):
            bad.append((n[1], name(P, n[2])))
    walk(f.body, look)
    walk(f.inits or [], look)
    if bad:
        l, what = min(bad)
        rep.bad('silent', label(f), '%s:%d' % (f.file, l), '%s uses %s' % (f.qn, what))
    else:
        rep.ok('silent', label(f))
