"""Fact database: builds the extractor, runs it over every library translation unit of /repo's current
working tree, merges the per-unit dumps and keeps the result, keyed by the content of every file a
unit depends on.  A check always re-hashes the tree; what changed is parsed again."""
import glob, hashlib, json, marshal, os, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MXSA_REPO', '/repo')
SRC = 'Sourcecode/'
CACHE = os.environ.get('MXSA_CACHE', os.path.join(VERIF, '.cache'))
CLANG = '/usr/bin/clang++-18'
LLVM = '/usr/lib/llvm-18'
ENV = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'HOME': os.environ.get('HOME', '/root'), 'LC_ALL': 'C.UTF-8'}
INCLUDES = ['Sourcecode/private', 'Sourcecode/private/mx/ezxml/src/include',
            'Sourcecode/private/mx/ezxml/src/private', 'Sourcecode/include']
DIRS = ['api', 'core', 'impl', 'utility', 'ezxml']
# the thorough runs: everything is parsed anew, and expressions may grow four times as large before they are given up
DEEP = 4 if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 1
FLAGS = ['-std=c++17', '-w', '-include', 'cstdint', '-resource-dir', LLVM + '/lib/clang/18']
SKIP = ('pugixml.cpp',)

class Broken(Exception):
    """the analysis cannot give an answer (exit 2, never a verdict)"""


def sha(b):
    return hashlib.sha1(b).hexdigest()


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def run(cmd, **kw):
    return subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def tool():
    """path of the extractor, built when its source changed"""
    src = os.path.join(VERIF, 'tool', 'mxfacts.cpp')
    key = sha(read(src))[:16]
    out = os.path.join(CACHE, 'mxfacts-' + key)
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        r = run([CLANG, '-O1', '-std=c++17', '-fno-rtti', '-I' + LLVM + '/include', '-D_GNU_SOURCE',
                 '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', '-w', src, '-o', tmp,
                 '-L' + LLVM + '/lib', '-L/usr/lib/x86_64-linux-gnu', '-l:libclang-cpp.so.18.1', '-lLLVM-18'])
        if r.returncode != 0:
            raise Broken('extractor does not build: ' + r.stdout.decode('utf-8', 'replace')[-2000:])
        os.rename(tmp, out)
    return out, key


def pch(key):
    out = os.path.join(CACHE, 'std-%s.pch' % (key + sha(read(os.path.join(VERIF, 'tool', 'std.h')))[:8]))
    if not os.path.exists(out):
        h = os.path.join(VERIF, 'tool', 'std.h')
        tmp = out + '.%d.tmp' % os.getpid()
        r = run([CLANG, '-std=c++17', '-w', '-Xclang', '-fno-pch-timestamp', '-x', 'c++-header', h, '-o', tmp])
        if r.returncode != 0:
            return None
        os.rename(tmp, out)
    return out


def tree():
    """relative path -> content hash of every source file the build globs"""
    h = {}
    base = os.path.join(REPO, SRC)
    roots = [os.path.join(base, 'include')] + [os.path.join(base, 'private', 'mx', d) for d in DIRS]
    for r in roots:
        for d, dn, fn in os.walk(r):
            for f in fn:
                if f.rsplit('.', 1)[-1] in ('h', 'hpp', 'cpp', 'c', 'cc', 'cxx', 'hxx', 'inl', 'ipp', 'tpp'):
                    p = os.path.join(d, f)
                    h[os.path.relpath(p, REPO)] = sha(read(p))
    return h


def units(files):
    return sorted(f for f in files if f.endswith(('.cpp', '.cc', '.cxx')) and not f.endswith(SKIP))


def extract(todo, outdir, tl, pchfile):
    """todo: list of relative sources; writes outdir/<sha of name>.json"""
    flags = ['-std=c++17', '-w', '-resource-dir', LLVM + '/lib/clang/18']
    flags += ['-include-pch', pchfile] if pchfile else ['-include', 'cstdint']
    flags += ['-I' + os.path.join(REPO, i) for i in INCLUDES]
    n = min(os.cpu_count() or 4, 8)
    # biggest first, dealt one at a time
    todo = sorted(todo, key=lambda f: (0 if '/elements/' not in f else 1, -os.path.getsize(os.path.join(REPO, f))))
    lock = threading.Lock()
    it = iter(range(0, len(todo)))
    err = []
    chunk = 1 if len(todo) < 64 else 4

    def work():
        while True:
            with lock:
                ids = [i for i in (next(it, None) for _ in range(chunk)) if i is not None]
            if not ids:
                return
            fd, lst = tempfile.mkstemp(dir=outdir, suffix='.lst')
            with os.fdopen(fd, 'w') as f:
                for i in ids:
                    f.write(os.path.join(REPO, todo[i]) + '\t' + os.path.join(outdir, sha(todo[i].encode()) + '.json') + '\n')
            r = run([tl, REPO.rstrip('/') + '/', lst, '--'] + flags)
            os.unlink(lst)
            if r.returncode != 0:
                err.append(r.stdout.decode('utf-8', 'replace')[-3000:])

    ts = [threading.Thread(target=work) for _ in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if err and pchfile:
        return extract(todo, outdir, tl, None)
    if err:
        raise Broken('a translation unit does not parse:\n' + '\n'.join(err)[:1500])


def merge_into(base, unit, data):
    if not data.get('ok'):
        raise Broken('translation unit does not parse: ' + unit)
    fns = base['fns']
    for k, v in data['fns'].items():
        k = int(k)
        old = fns.get(k)
        if old is None or ('r' in v[4] and 'r' not in old[4]):
            fns[k] = v
    for f in data['functions']:
        i = f['i']
        if i not in base['functions']:
            base['functions'][i] = f
        if f.get('inst'):
            base['by'].setdefault(i, []).append(unit)
    for r in data['records']:
        base['records'].setdefault(r['n'], r)
    for e in data['enums']:
        base['enums'].setdefault('%s|%s|%d' % (e['n'], e['file'], e['l']), e)
    for g in data['globals']:
        k = '%s|%s|%d' % (g['n'], g['file'], g['l'])
        old = base['globals'].get(k)
        if old is None or ('d' in g['fl'] and 'd' not in old['fl']):
            base['globals'][k] = g
    for i in data['includes']:
        base['includes'].setdefault('%s|%d|%s' % (i[0], i[1], i[2]), i)
    base['deps'][unit] = data['deps']


def empty():
    return {'fns': {}, 'functions': {}, 'records': {}, 'enums': {}, 'globals': {}, 'includes': {}, 'deps': {}, 'by': {}}


def load_unit(outdir, u):
    with open(os.path.join(outdir, sha(u.encode()) + '.json')) as f:
        return json.load(f)


_DB = None


def load(verbose=False, persist=False):
    """the merged facts of the current tree"""
    global _DB
    if _DB is not None:
        return _DB
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    tl, key = tool()
    pc = pch(key)
    files = tree()
    us = units(files)
    if len(us) < 600:
        raise Broken('only %d translation units found' % len(us))
    with open(os.path.abspath(__file__), 'rb') as f:
        key += sha(f.read())
    tag = sha((key + ' '.join(FLAGS) + REPO).encode())[:12]
    basefile = os.path.join(CACHE, 'base-%s.marshal' % tag)
    base = None
    if os.path.exists(basefile) and DEEP == 1:
        try:
            with open(basefile, 'rb') as f:
                base = marshal.load(f)
        except (ValueError, EOFError, TypeError):
            base = None
    if base is None:
        out = tempfile.mkdtemp(dir=CACHE, prefix='x-')
        try:
            extract(us, out, tl, pc)
            base = empty()
            for u in us:
                merge_into(base, u, load_unit(out, u))
        finally:
            subprocess.run(['rm', '-rf', '--', out])
        base['hash'] = files
        if DEEP == 1:
            tmp = basefile + '.%d.tmp' % os.getpid()
            with open(tmp, 'wb') as f:
                marshal.dump(base, f)
            os.rename(tmp, basefile)
        base['reparsed'] = len(us)
    else:
        old = base['hash']
        changed = {f for f in set(old) | set(files) if old.get(f) != files.get(f)}
        base['reparsed'] = 0
        if changed:
            redo = [u for u in us if u not in base['deps'] or u in changed or any(d in changed for d in base['deps'][u])]
            # per-state overlay so that repeated runs on one state parse once
            okey = sha(json.dumps([tag, sorted((f, files.get(f)) for f in changed)]).encode())[:16]
            odir = os.path.join(CACHE, 'ov-' + okey)
            done = os.path.join(odir, 'done')
            if not os.path.exists(done):
                tmpd = tempfile.mkdtemp(dir=CACHE, prefix='x-')
                extract(redo, tmpd, tl, pc)
                open(os.path.join(tmpd, 'done'), 'w').close()
                try:
                    os.rename(tmpd, odir)
                except OSError:
                    odir = tmpd if not os.path.exists(done) else odir
            fresh = empty()
            for u in redo:
                merge_into(fresh, u, load_unit(odir, u))
            gone = {u for u in base['deps'] if u not in files}
            # instantiations that no unit asks for any more
            out = gone | set(redo)
            for i, by in list(base['by'].items()):
                left = [u for u in by if u not in out]
                if left:
                    base['by'][i] = left
                else:
                    del base['by'][i]
                    base['functions'].pop(i, None)
            for i, by in fresh['by'].items():
                base['by'].setdefault(i, []).extend(by)
            for sec in ('functions', 'records', 'enums'):
                base[sec] = {k: v for k, v in base[sec].items() if v['file'] not in changed}
                base[sec].update(fresh[sec])
            base['globals'] = {k: v for k, v in base['globals'].items() if v['file'] not in changed}
            base['globals'].update(fresh['globals'])
            base['includes'] = {k: v for k, v in base['includes'].items() if v[0] not in changed}
            base['includes'].update(fresh['includes'])
            for k, v in fresh['fns'].items():
                base['fns'][k] = v
            base['deps'] = {k: v for k, v in base['deps'].items() if k not in gone}
            base['deps'].update(fresh['deps'])
            base['reparsed'] = len(redo)
    base['files'] = files
    base['units'] = us
    base['load_s'] = time.time() - t0
    _DB = base
    return base


if __name__ == '__main__':
    d = load()
    print({k: len(v) for k, v in d.items() if hasattr(v, '__len__')}, 'reparsed', d['reparsed'], '%.1fs' % d['load_s'])
