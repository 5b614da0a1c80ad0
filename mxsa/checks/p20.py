"""P20: no input can make the score conversion crash.

Every partial operation of the library is an obligation of the forward analysis in guard.py: on each path to it the fact it
needs is established by a test, by construction, or by every caller."""
from ..core import *
from ..guard import Analysis

RULE = {'some': 'occupied', 'in': 'found', 'val': 'set', 'nz': 'divisor', 'below': 'index'}
WHY = {'some': 'without knowing that the collection holds anything', 'in': 'without knowing that the iterator is not at the end',
       'val': 'without knowing that there is a value', 'nz': 'without knowing that the divisor is not zero',
       'below': 'without knowing that the index is below the size', 'fit': 'without knowing that the number fits the integer type'}


def run(rep, P):
    rep.rule('occupied', 'front() and back() are taken from collections that hold something', 5)
    rep.rule('found', 'an iterator is used, or erased, only where it is known not to be at the end', 150)
    rep.rule('set', 'an optional or a pointer that can be null is used only where it is known to hold something', 15)
    rep.rule('divisor', 'the divisor is known not to be zero', 5)
    rep.rule('index', 'an index is known to be below the size', 0)
    rep.rule('convert', 'a floating point number is converted to an integer type only where it is known to fit', 1)
    A = Analysis(P, lambda f: f.qn.startswith(('mx::', 'ezxml::')))
    seen = {}
    order = {}

    def report(f, kind, line, what, n, k, ok):
        rule = RULE.get(kind, 'convert')
        at = (f.file, line, kind, what, str(n))
        if ok is None:
            seen.setdefault(at, (f, rule, kind, what, line, None))
            return
        if at not in seen or not ok:
            seen[at] = (f, rule, kind, what, line, ok)
    for f in sorted(P.fn.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or not A.mine(f):
            continue
        rep.saw(f)
        try:
            A.judge(f, report)
        except RecursionError:
            rep.skip('found', f.qn, 'too deep')
    for at in sorted(seen, key=lambda a: a[:2]):
        f, rule, kind, what, line, ok = seen[at]
        g = f.qn.split('::', 1)[-1]
        i = order[g, kind] = order.get((g, kind), 0) + 1
        if ok is None:
            rep.skip(rule, '%s:%d' % (f.file, line), 'the operand is computed in a way that is not followed')
            continue
        rep.ob(ok, rule, '%s:%s:%d' % (g, kind.split()[0], i), '%s:%d' % (f.file, line),
               '%s: %s %s' % (f.qn, what, WHY[kind.split()[0]]), f.cls or g)
