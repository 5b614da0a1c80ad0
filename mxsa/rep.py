"""Result collection: obligations, violations, known findings, evidence."""
import json, os, sys, time
from .db import Broken

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.txt')


def load_known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            # property=<id> key=<key> :: text
            head, _, text = line.partition(' :: ')
            d = dict(x.split('=', 1) for x in head.split(' ', 1)[0:1])
            if d.get('property') != pid:
                continue
            out[head.split(' ', 1)[1].split('key=', 1)[1]] = text
    return out


class Rep:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.n = {}            # rule -> obligations decided
        self.bads = {}         # key -> (rule, where, msg)
        self.skips = {}        # rule -> {reason: count}
        self.skip_samples = []
        self.samples = {}
        self.functions = set()
        self.notes = []
        self.rules = {}
        self.floors = []

    def rule(self, name, text, floor=1):
        """declare a rule: its text, and how many obligations it must find at least to be believed"""
        self.rules[name] = text
        self.floors.append((name, floor))
        self.n.setdefault(name, 0)

    def ok(self, rule, what=None):
        self.n[rule] = self.n.get(rule, 0) + 1
        if what and len(self.samples.setdefault(rule, [])) < 3:
            self.samples[rule].append(what)

    def bad(self, rule, key, where, msg):
        self.n[rule] = self.n.get(rule, 0) + 1
        k = rule + '/' + key
        self.bads.setdefault(k, (rule, where, msg))

    def ob(self, cond, rule, key, where, msg, what=None):
        if cond:
            self.ok(rule, what)
        else:
            self.bad(rule, key, where, msg)

    def skip(self, rule, what, why):
        d = self.skips.setdefault(rule, {})
        d[why] = d.get(why, 0) + 1
        if len(self.skip_samples) < int(os.environ.get("MXSA_SAMPLES", 40)):
            self.skip_samples.append('%s: %s (%s)' % (rule, what, why))

    def saw(self, *fns):
        for f in fns:
            if f is not None:
                self.functions.add((f.qn + "@" + f.where) if hasattr(f, "qn") else f)

    def merge(self, o):
        for k, v in o.n.items():
            self.n[k] = self.n.get(k, 0) + v
        for k, v in o.bads.items():
            self.bads.setdefault(k, v)
        for r, d in o.skips.items():
            dd = self.skips.setdefault(r, {})
            for k, v in d.items():
                dd[k] = dd.get(k, 0) + v
        self.skip_samples = (self.skip_samples + o.skip_samples)[:int(os.environ.get("MXSA_SAMPLES", 40))]
        for k, v in o.samples.items():
            s = self.samples.setdefault(k, [])
            s.extend(v[:max(0, 3 - len(s))])
        self.functions |= o.functions

    def finish(self, extra=None):
        known = load_known(self.pid)
        new = {k: v for k, v in self.bads.items() if k not in known}
        old = [k for k in self.bads if k in known]
        ev = os.path.join(ROOT, 'evidence')
        os.makedirs(ev, exist_ok=True)
        obligations = sum(self.n.values())
        cov = {
            'explanation': 'Static analysis of every translation unit of the library as clang 18 type-checks it now; each obligation below is decided from the source alone. ' + ' '.join('[%s] %s' % kv for kv in self.rules.items()),
            'obligations': obligations,
            'discharged': obligations - len(self.bads),
            'obligations_by_rule': self.n,
            'functions_analysed': len(self.functions),
            'not_analysed': self.skips,
            'not_analysed_samples': self.skip_samples,
            'samples': [{'rule': r, 'discharged': s} for r, s in self.samples.items()],
            'thin_rules': [{'rule': r, 'decided': self.n.get(r, 0), 'expected': fl} for r, fl in self.floors if self.n.get(r, 0) < fl],
            'known_findings': old,
            'violations': [{'key': k, 'rule': v[0], 'where': v[1], 'what': v[2]} for k, v in new.items()],
        }
        cov.update(extra or {})
        doc = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov,
               'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        path = os.path.join(ev, self.pid + '.json')
        json.dump(doc, open(path, 'w'), indent=1)
        for k in old:
            print('KNOWN-FINDING: property=%s %s %s' % (self.pid, k, known[k]))
        print('%s: %d obligations, %d rules, %d functions, %d skipped, %.1fs' % (self.pid, obligations, len(self.rules), len(self.functions), sum(sum(d.values()) for d in self.skips.values()), time.time() - self.t0))
        for r in self.rules:
            print('  %-28s %6d obligations  %s' % (r, self.n.get(r, 0), self.skips.get(r) or ''))
        if new:
            for k, (rule, where, msg) in sorted(new.items()):
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
                print('   [%s] %s: %s   (key %s)' % (rule, where, msg, k))
            return 1
        # rules that find less than expected are named; when a large rule does, or most of them do, the analysis lost its footing
        thin = [(r, self.n.get(r, 0), fl) for r, fl in self.floors if self.n.get(r, 0) < fl]
        for r, n, fl in thin:
            print('  THIN: rule %s decided only %d obligations, %d were expected' % (r, n, fl))
        lost = [t for t in thin if t[2] >= 40 and t[1] < t[2] // 2]
        if lost or len(thin) * 2 > len(self.floors) and sum(t[1] for t in thin) * 2 < sum(t[2] for t in thin):
            raise Broken('rule %s decided only %d obligations, expected at least %d' % (lost or thin)[0])
        return 0


def parallel(items, fn, rep, workers=8):
    """run fn(item, rep) over items in forked workers and merge the results"""
    import multiprocessing as mp
    items = list(items)
    if len(items) < 16 or os.environ.get('MXSA_SERIAL'):
        for it in items:
            fn(it, rep)
        return
    chunks = [items[i::workers] for i in range(workers)]
    ctx = mp.get_context('fork')
    global _job
    _job = (fn, rep, chunks)
    with ctx.Pool(workers) as pool:
        for r in pool.imap(_work, range(workers)):
            if isinstance(r, str):
                raise Broken('analysis failed:\n' + r)
            n, bads, skips, ss, samples, functions = r
            o = Rep(rep.pid, rep.tier, rep.seed)
            o.n, o.bads, o.skips, o.skip_samples, o.samples, o.functions = n, bads, skips, ss, samples, functions
            rep.merge(o)


def _work(i):
    import traceback
    try:
        fn, rep, chunks = _job
        r = Rep(rep.pid, rep.tier, rep.seed)
        for it in chunks[i]:
            fn(it, r)
        return (r.n, r.bads, r.skips, r.skip_samples, r.samples, r.functions)
    except Exception:
        return traceback.format_exc()
