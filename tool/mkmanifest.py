"""writes /verif/MANIFEST.json from the checks that exist"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'P01': 'guarded-event dataflow over the attribute sets: writer and reader tables extracted from the typed AST and compared',
 'P02': 'abstract interpretation of every reader to a set of state effects, evaluated against the guards of the writer',
 'P03': 'order and vocabulary of the writers\' output events compared with the content model of the XSD',
 'P04': 'extraction of enum-to-string and string-to-enum tables from the typed AST, compared with each other and with the XSD',
 'P05': 'non-null dataflow: construction, first access and guarded assignment of every shared pointer field an accessor returns',
 'P06': 'effect analysis of adders, removers and constructors: dominating size guards compared with XSD occurrence bounds',
 'P07': 'interval analysis of constructors, setters and parsers of bounded types, bounds compared with the XSD',
 'P08': 'taint analysis from caller-supplied text to output sinks, with a check of the escaping table',
 'P09': 'failure-propagation dataflow: every bool result of a reading step must flow into the result of its caller',
 'P10': 'lockset analysis of the registry, typestate of its iterators, exception-path analysis of conversions',
 'P11': 'lockset and effect analysis of const members, mutable fields and static storage',
 'P12': 'typestate analysis of input cursors: end test before every use, progress in every pass',
 'P13': 'extraction and inversion of the converter tables between API and document enumerations',
 'P14': 'partition check of the mark classification, evaluated for every enumerator',
 'P15': 'evaluation of the extracted equality formulas over every field',
 'P16': 'definite-initialisation dataflow over every constructor and every creation site',
 'P17': 'typestate of presence flags and choices along every writer path',
 'P18': 'field-use symmetry of API records between the reader and writer call graphs',
 'P19': 'structural dataflow of the transposition loops: bounds, index agreement and header copies',
 'P20': 'dominating-guard analysis of partial operations in the conversion layer',
 'P21': 'layering rules over resolved includes and references; every public header type-checked on its own',
 'P25': 'completeness of the element classes against the schema over their symbolically walked writers',
 'P26': 'symbolic summaries of all accessors compared per name: place returned, place stored, condition of storing',
 'P27': 'symbolic summaries of hand-written copies compared field by field; structural rule on the fields of values',
 'P29': 'the answer of every emptiness predicate as a formula over the fields of the record, evaluated with one part given at a time',
 'P28': 'lifetime analysis of references, interprocedural region summaries; flow-sensitive invalidation and move typestate',
 'P22': 'effect analysis: banned sources over the call graph, locale and format state of streams, address order, purity',
}
NOTE = 'Decides the listed rules for every function, path and call site of the library as it is now; trusts clang\'s AST, the path-merging event walker in mxsa/sym.py (loops seen once, value classes and std containers modelled) and counts what it could not interpret in the evidence. '
EXTRA = {}
NA = {
 'P23': 'Whole-document semantic equality quantifies over musical timing: measure positions, voices, tuplets and durations computed in loops from runtime data; no static rule in reach bounds those values. Its static parts are P01-P03, P13, P14, P17 and P18.',
 'P24': 'Exactness of divisions/ticks arithmetic depends on the runtime values of every duration in a document (LCM of all divisions, remainders, overflow); the values are unbounded inputs, so only execution or a solver could settle it.',
}
PROPS = {json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))}
checks, na = [], []
for i in range(1, 40):
    p = 'P%02d' % i
    if p not in PROPS:
        continue
    if p in NA:
        na.append({'property': p, 'reason': NA[p]})
    elif os.path.exists(os.path.join(ROOT, 'mxsa/checks/%s.py' % p.lower())):
        checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py %s --thorough' % p, 'evidence_file': 'evidence/%s.json' % p,
                       'technique': T[p], 'level': 'other', 'level_note': NOTE + EXTRA.get(p, '')})
    else:
        na.append({'property': p, 'reason': 'the check for this property is not built yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 -m mxsa.db', 'checks': checks, 'not_applicable': na}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
