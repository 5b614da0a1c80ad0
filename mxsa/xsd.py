"""The MusicXML schema as data: elements, attributes (with use and type), content models, simple types."""
import os
import xml.etree.ElementTree as ET
from functools import lru_cache

XS = '{http://www.w3.org/2001/XMLSchema}'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INF = 10 ** 9


class Type:
    """a complex (or simple) type: attributes, content particle, value type of simple content"""

    def __init__(self):
        self.attrs = {}      # name -> (required, type)
        self.content = None  # particle or None
        self.value = None    # simple type name of the text
        self.mixed = False
        self.name = None


class Schema:
    def __init__(self, path):
        r = ET.parse(path).getroot()
        self.ct, self.st, self.grp, self.ag, self.top = {}, {}, {}, {}, {}
        for x in r:
            n = x.get('name')
            d = {XS + 'complexType': self.ct, XS + 'simpleType': self.st, XS + 'group': self.grp, XS + 'attributeGroup': self.ag, XS + 'element': self.top}.get(x.tag)
            if d is not None:
                d[n] = x
        self._t = {}
        self.types = {}      # element name -> list of Type (distinct definitions)
        self._seen = set()
        for n, x in self.top.items():
            self._element(x)

    def _element(self, x):
        n = x.get('name')
        key = id(x)
        t = self.type_of(x)
        if key in self._seen:
            return n, t
        self._seen.add(key)
        l = self.types.setdefault(n, [])
        if not any(o is t for o in l):
            l.append(t)
        return n, t

    def type_of(self, x):
        tn = x.get('type')
        if tn:
            return self.named(tn)
        for c in x:
            if c.tag == XS + 'complexType':
                return self._complex(c, id(c))
            if c.tag == XS + 'simpleType':
                t = Type()
                t.value = c
                return t
        return Type()

    def named(self, tn):
        if tn in self.ct:
            return self._complex(self.ct[tn], tn)
        if tn not in self._t:
            t = Type()
            t.value = tn
            t.name = tn
            self._t[tn] = t
        return self._t[tn]

    def _complex(self, node, key):
        if key in self._t:
            return self._t[key]
        t = Type()
        t.name = node.get('name')
        t.mixed = node.get('mixed') == 'true'
        self._t[key] = t
        self._fill(t, node)
        return t

    def _fill(self, t, node):
        for c in node:
            if c.tag in (XS + 'simpleContent', XS + 'complexContent'):
                for e in c:
                    if e.tag in (XS + 'extension', XS + 'restriction'):
                        b = e.get('base')
                        bt = self.named(b)
                        t.attrs.update(bt.attrs)
                        if bt.content and not t.content:
                            t.content = bt.content
                        if bt.value is not None:
                            t.value = bt.value
                        self._fill(t, e)
            elif c.tag == XS + 'attribute':
                self._attr(t, c)
            elif c.tag == XS + 'attributeGroup':
                self._agroup(t, c.get('ref'))
            elif c.tag in (XS + 'sequence', XS + 'choice', XS + 'all', XS + 'group'):
                t.content = self.particle(c)

    def _attr(self, t, c):
        n = c.get('name') or c.get('ref')
        ty = c.get('type')
        if not ty:
            for s in c:
                if s.tag == XS + 'simpleType':
                    ty = s
        t.attrs[n] = (c.get('use') == 'required', ty or c.get('ref'))

    def _agroup(self, t, ref):
        for c in self.ag[ref] if ref in self.ag else ():
            if c.tag == XS + 'attribute':
                self._attr(t, c)
            elif c.tag == XS + 'attributeGroup':
                self._agroup(t, c.get('ref'))
        if ref not in self.ag:
            raise KeyError(ref)

    def particle(self, c):
        lo = int(c.get('minOccurs', '1'))
        hi = c.get('maxOccurs', '1')
        hi = INF if hi == 'unbounded' else int(hi)
        if c.tag == XS + 'element':
            if c.get('ref'):
                n, t = self._element(self.top[c.get('ref')])
            else:
                n, t = self._element(c)
            return ('elem', lo, hi, n, t)
        if c.tag == XS + 'group':
            if c.get('ref'):
                g = self.grp[c.get('ref')]
                inner = [self.particle(x) for x in g if x.tag in (XS + 'sequence', XS + 'choice', XS + 'all')]
                return ('seq', lo, hi, inner)
        kids = [self.particle(x) for x in c if x.tag in (XS + 'element', XS + 'sequence', XS + 'choice', XS + 'group', XS + 'all')]
        return ('choice' if c.tag == XS + 'choice' else 'seq', lo, hi, kids)

    # ---- queries
    def children(self, p):
        """all child element names of a particle"""
        if p is None:
            return set()
        if p[0] == 'elem':
            return {p[3]}
        s = set()
        for k in p[3]:
            s |= self.children(k)
        return s

    def min_count(self, p, n):
        """the least number of times child n occurs in any valid content"""
        if p is None:
            return 0
        if p[0] == 'elem':
            return p[1] if p[3] == n else 0
        xs = [self.min_count(k, n) for k in p[3]]
        if p[0] == 'choice':
            return p[1] * (min(xs) if xs else 0)
        return p[1] * sum(xs)

    def max_count(self, p, n):
        if p is None:
            return 0
        if p[0] == 'elem':
            return p[2] if p[3] == n else 0
        xs = [self.max_count(k, n) for k in p[3]]
        v = (max(xs) if xs else 0) if p[0] == 'choice' else sum(xs)
        return min(INF, p[2] * v)

    def can_precede(self, p, a, b):
        """can a child a occur (anywhere) before a child b in valid content"""
        if p is None or p[0] == 'elem':
            return p is not None and p[3] == a == b and p[2] > 1
        ks = [(self.children(k), k) for k in p[3]]
        if p[2] > 1:
            alls = set().union(*[c for c, _ in ks]) if ks else set()
            if a in alls and b in alls:
                return True
        if p[0] == 'choice':
            return any(self.can_precede(k, a, b) for c, k in ks)
        for i, (c, k) in enumerate(ks):
            if a in c:
                if self.can_precede(k, a, b):
                    return True
                if any(b in c2 for c2, _ in ks[i + 1:]):
                    return True
        return False

    # ---- simple types
    def enum_values(self, tn):
        """the strings of an enumeration type (None if it is not one)"""
        node = self.st.get(tn) if isinstance(tn, str) else tn
        if node is None:
            return None
        r = node.find(XS + 'restriction')
        if r is None:
            return None
        vs = [x.get('value') for x in r.findall(XS + 'enumeration')]
        return vs or None

    def bounds(self, tn):
        """(kind, lo, lo_open, hi, hi_open) of a numeric simple type, else None"""
        kind = {'xs:decimal': ('dec', None, False, None, False), 'xs:integer': ('int', None, False, None, False),
                'xs:positiveInteger': ('int', 1, False, None, False), 'xs:nonNegativeInteger': ('int', 0, False, None, False)}.get(tn)
        if kind:
            return kind
        node = self.st.get(tn) if isinstance(tn, str) else tn
        if node is None:
            return None
        r = node.find(XS + 'restriction')
        if r is None:
            return None
        b = self.bounds(r.get('base'))
        if b is None:
            return None
        k, lo, loo, hi, hio = b
        for x in r:
            v = x.get('value')
            if x.tag == XS + 'minInclusive':
                lo, loo = float(v), False
            elif x.tag == XS + 'minExclusive':
                lo, loo = float(v), True
            elif x.tag == XS + 'maxInclusive':
                hi, hio = float(v), False
            elif x.tag == XS + 'maxExclusive':
                hi, hio = float(v), True
        return k, lo, loo, hi, hio


@lru_cache(None)
def schema(v='3.0'):
    return Schema(os.path.join(ROOT, 'spec', 'musicxml.xsd' if v == '3.0' else 'musicxml-3.1.xsd'))
