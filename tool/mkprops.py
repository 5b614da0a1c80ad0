"""writes /verif/properties.jsonl (the text of the properties lives here)"""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})


EL = "Sourcecode/private/mx/core/elements/"
CO = "Sourcecode/private/mx/core/"
IM = "Sourcecode/private/mx/impl/"
AP = "Sourcecode/include/mx/api/"
PA = "Sourcecode/private/mx/api/"
EZ = "Sourcecode/private/mx/ezxml/src/"

p("P01", "Every XML attribute is written and read back consistently",
  "For every element type, an attribute that is present is written under its own MusicXML name with its own value, an attribute that is absent is not written at all, and an attribute that is read from XML lands in the same value and marks the same value present. The set of attributes an element writes and the set it reads are the same, and an element that has any attribute present reports that it has attributes. A freshly created element has exactly its schema-required attributes present.",
  ["inputs"], "all element types, all combinations of present and absent attributes",
  "About 280 attribute sets with several fields each; the tests write a handful of combinations per element and never read most of them back, so a crossed flag, name or field in one of them goes unseen.",
  [EL, CO + "FromXElement.h", CO + "AttributesInterface.h"],
  [("streamAttribute / hasValues / toStream of each *Attributes struct", EL), ("parseAttribute / fromXElementImpl", CO + "FromXElement.h")])

p("P02", "Every child element is written and read back consistently",
  "For every element type, each kind of child the element can write is also recognised when the element is read from XML, and reading it stores it where the writer takes it from and makes the writer emit it again (presence flags, chosen alternatives and collections included). A child element read is never stored in a different child's place and never discards the state another child of the same parent has established. Optional children that were never set or read are not written.",
  ["inputs"], "all element types, all documents that are valid MusicXML",
  "There are more than 300 element classes with hand-written reading code; the corpus round-trip tests of this repository are never run, and unit tests read only some classes.",
  [EL, CO + "FromXElement.h"],
  [("streamContents", EL), ("fromXElementImpl and the import helpers", EL + " and " + CO + "FromXElement.h")],
  [("myHasX / myXSet / myChoice", "which children are present", EL)])

p("P03", "Written documents follow the schema's element order and vocabulary",
  "Every element writes only children and attributes that the MusicXML schema allows for it, writes its children in the order the schema's content model demands, and always writes the children and attributes the schema requires. The element name an object writes is the name the schema gives to that element.",
  ["inputs"], "all element types and every combination of children a caller can build",
  "Unit tests compare a few literal strings per class; whether every class agrees with the schema for every combination is never compared with the schema itself.",
  [EL, "Documents/musicxml.xsd"], [("streamName / streamContents", EL), ("content models", "Documents/musicxml.xsd")])

p("P04", "Enumerations and their strings correspond one to one",
  "Every value of every MusicXML enumeration is written as a distinct string, parsing that string gives back the same value, and the set of strings is the one the MusicXML schema lists. A string outside the list is never accepted as one of the listed values by the strict parser.",
  ["inputs"], "all enumerations, all values, all strings",
  "More than a hundred hand-maintained tables; tests sample a few values of each.",
  [CO + "Enums.cpp", CO + "Enums.h", CO + "EnumsBuiltin.cpp", CO + "PlaybackSound.cpp"],
  [("parseX / tryParseX / toString", CO + "Enums.cpp")])

p("P05", "Element accessors never hand out null",
  "A child, attribute set or collection member obtained from an element is never a null pointer, whatever was assigned or added before: setters and adders ignore null arguments, and construction (or first access) creates the object. Looking up the end of a collection is the one case in which a null result is allowed.",
  ["histories"], "every sequence of set, add, remove and get calls on every element type",
  "The guarantee is documented for all accessors; tests assign null to a few of them.",
  [EL, "README.md"], [("constructors, MX_JIT_ALLOCATE getters, null guards in setters and adders", EL)])

p("P06", "Occurrence bounds of collections hold after every operation",
  "A collection that the schema requires to be non-empty holds at least one member from construction on and after every remove and clear, and a collection with an upper bound never grows beyond it through the adding operations, while below its bound a collection takes what is added. Removing an iterator that is the end of the collection changes nothing.",
  ["histories"], "every sequence of add, remove and clear calls on every element type",
  "Bounds are enforced by hand-written guards in some 150 methods; tests exercise one short sequence for each of a few classes.",
  [EL], [("guards in add*/remove*/clear*", EL)])

p("P07", "Bounded numeric types always hold a value in range",
  "Every bounded integer or decimal type of the document model holds a value inside its documented range after construction, assignment and parsing, whatever value or text it is given, keeps in-range values unchanged, and its range is the one the MusicXML schema gives.",
  ["inputs"], "all numeric types, all values and strings",
  "Tests try a few values around the limits of a few types.",
  [CO + "Integers.cpp", CO + "Integers.h", CO + "Decimals.cpp", CO + "Decimals.h"],
  [("clamping in setValue", CO + "Integers.cpp and " + CO + "Decimals.cpp")])

p("P08", "All text written into the document is escaped",
  "Caller-supplied text that ends up in element content or in an attribute value is written with every character that is special in XML at that place escaped, so that no content can change the structure of the document.",
  ["inputs"], "all strings stored anywhere in the document",
  "Tests write a few plain strings; the property ranges over every output path and every string.",
  [CO + "XsString.cpp", CO + "UnusedXsTypes.h", CO + "XsToken.cpp", EL], [("escaping in XsString::toStream", CO + "XsString.cpp")])

p("P09", "Reading failures are reported, never swallowed",
  "When the reader of a part of an element (a child element, a group or an attribute set) reports failure, or a reader complains about a child or attribute that it does not know, reading of every enclosing element reports failure on every path, up to the call that loads the document; input that is not well-formed XML makes loading throw; and creating a document from input that fails to load throws and registers nothing.",
  ["inputs"], "all malformed inputs, all positions in the document tree",
  "Each of hundreds of reading functions combines results by hand; tests feed few malformed inputs.",
  [EL, CO + "FromXElement.h", CO + "Document.cpp", PA + "DocumentManager.cpp"],
  [("isSuccess accumulation", EL), ("throw on failure before registration", PA + "DocumentManager.cpp")])

p("P10", "The document registry is consistent under concurrent use",
  "Every access to the shared document registry and its id counter happens while its lock is held, ids are unique and never reused, and calls with an id that is not registered have no effect other than the documented null result or exception. Calls that only read or write out a document leave the registered document in the form it had, including when they fail.",
  ["schedules", "histories"], "all interleavings of calls from several threads, all call sequences",
  "Interleavings and exceptional exits are not explored by the tests.",
  [PA + "DocumentManager.cpp", "Sourcecode/private/mx/utility/Lock.h"], [("MX_LOCK on the registry mutex", PA + "DocumentManager.cpp")],
  [("myMap, myCurrentId", "the registry", PA + "DocumentManager.cpp")])

p("P11", "Reading from several threads is safe",
  "Const operations on document objects may run concurrently: any state they change lazily is changed only under a lock that all its accesses share, and the library keeps no mutable global or static state that is written outside a lock.",
  ["schedules"], "all interleavings of const calls on shared objects",
  "No test runs const calls concurrently.",
  [EL, CO, IM, PA, "Sourcecode/private/mx/utility/JitAllocate.h"], [("MX_MUTEX / MX_LOCK / MX_JIT_ALLOCATE", "Sourcecode/private/mx/utility")])

p("P12", "Reading never walks past the end of the input tree",
  "While reading, the child currently looked at exists: a cursor over children or attributes is never read after it has reached the end, each pass over the children makes progress, and no child is skipped or handled twice because a helper moved the cursor.",
  ["inputs"], "all XML documents, including truncated and reordered children",
  "Crashes need specific missing or last-position siblings that tests do not contain.",
  [EL, CO + "FromXElement.cpp", EZ + "private/private/PugiElementIterImpl.cpp"], [("end checks in import groups", EL)])

p("P13", "API values and document values convert without loss",
  "For every enumeration shared between the public API and the document model, every API value maps to a document value that maps back to the same API value, two API values never map to the same document value, and every document value has a mapping; documented many-to-one exceptions are the only exceptions; and no branch of the conversion is unreachable because it repeats the condition of an earlier branch.",
  ["inputs"], "all values of all converted enumerations",
  "Tests convert some values of some enumerations.",
  [IM + "Converter.cpp", PA + "SoundID.cpp"], [("conversion tables", IM + "Converter.cpp")])

p("P14", "Every kind of mark is classified and handled once",
  "Every mark kind of the public API belongs to exactly one family (dynamic, articulation, ornament, fermata, technical, ...), every kind of a family that the library converts is accepted by that family's conversion in both directions, every kind that is produced when a document is read is written again, and readers and writers handle each alternative of the document under the case that stands for it.",
  ["inputs"], "all mark kinds",
  "Tests touch few of more than a hundred kinds.",
  [PA + "MarkData.cpp", IM + "Converter.cpp", IM + "NotationsWriter.cpp"], [("isMark* predicates", PA + "MarkData.cpp")])

p("P15", "Equality of API values looks at every field",
  "Two values of a public data type compare equal exactly when all of their public fields are equal (floating point fields within the documented tolerance), and != is the negation of ==.",
  ["inputs"], "all public data types and all fields",
  "Tests compare values that differ in a few fields only.",
  [AP], [("MXAPI_EQUALS_MEMBER lists", AP)])

p("P16", "Fresh values are fully initialised",
  "A newly created object of any public or document type has a defined value in every field, however it is created; no field is left uninitialised.",
  ["histories"], "all types, all constructors",
  "Reading an uninitialised field usually yields a plausible value, so tests pass.",
  [AP, EL, IM], [("constructors and member initialisers", AP)])

p("P17", "What the API writer sets is switched on, what the reader takes is present",
  "When a score is turned into a document, every optional child or attribute for which a value is stored is also marked present, and values are only stored into the alternative that is selected, so that nothing the writer stores is silently left out of the document; every element the writer makes and fills becomes part of the document, and does so once, and every record the reader makes and fills becomes part of the score; and when a document is turned into a score, an optional child or attribute is taken over only where it was found present.",
  ["inputs"], "all scores and all optional fields",
  "Requires setting each optional field and inspecting the output; tests set few of them.",
  [IM], [("setHasX / hasX next to each stored value", IM)])

p("P18", "What the API reader fills, the API writer writes, and vice versa",
  "Every public score field that is filled when a document is read is taken into account when a document is written, every field that is written is filled on reading, and both use the same element or attribute of the document for it (positions in musical time, and fields that only repeat what another field or the containing object says, are not meant). An attribute that the conversion looks up by name in an element's attributes is one that exists under that name.",
  ["inputs"], "all public data fields",
  "Round-trip tests cover a part of the fields.",
  [IM, AP], [("reader and writer classes", IM)])

p("P19", "Converting between partwise and timewise loses nothing",
  "Converting a partwise document to timewise or back moves every part, measure, attribute and music item to the transposed place, keeps the header, works for parts of unequal length and for empty documents, and converting a document that already has the wanted form changes nothing.",
  ["inputs"], "all documents of either kind, including ragged ones",
  "Tests convert a document or two with equal part lengths.",
  [CO + "ScoreConversions.cpp", CO + "Document.cpp"], [("partwiseTimewise / timewisePartwise", CO + "ScoreConversions.cpp")])

p("P20", "No input can make the score conversion crash",
  "While a document or score is loaded, converted or written, no element is taken from a possibly empty collection, no failed lookup and no absent pointer or optional is dereferenced, no index exceeds its collection, nothing is divided by a number that can be zero, and no floating point number is converted to an integer type that cannot hold it.",
  ["inputs"], "all documents and all scores",
  "Tests use well-formed music; the crash needs an absent part, a zero or an extreme number.",
  [IM, CO, PA], [("emptiness, end, zero and range guards", IM)])

p("P21", "The public API is independent of the document model and XML library",
  "The public headers depend only on each other and the standard library, the document model, the utilities and the XML wrapper depend neither on the conversion layer nor on the public API, the bundled XML parser is used only by the XML wrapper, and every public function is defined, so that every public header compiles on its own and a user can build against the public headers alone.",
  ["configurations"], "all headers and all sources",
  "The tests are compiled with the private directories on the include path, so a leak goes unnoticed.",
  ["Sourcecode/include/mx/api", CO, IM, EZ], [("include structure", "Sourcecode")])

p("P22", "Documents are a function of their contents alone",
  "Writing the same score or document twice gives the same bytes, and reading the same text twice gives the same document: nothing that ends up in either depends on addresses, hashing order, time, randomness, the environment, documents handled earlier, the global locale or format state left on a stream; writing and reading do not change what they look at, and the library writes nothing to the standard streams. (Asking for today's date is an explicit call of the user.)",
  ["histories", "configurations"], "all documents, all processes, all locales",
  "Tests compare a single run in one process in the C locale.",
  [CO, IM, PA, EZ], [("no such sources in the library", "Sourcecode/private/mx")])

p("P25", "The document model holds everything the MusicXML schema allows",
  "For every element, attribute, child element and text the MusicXML schema allows, the document model has a place for it and writes it: no element is without a class, no attribute or child of an element is without a place, a child that may be repeated is held in a collection (or in as many places as the schema allows), and children that may stand together can be held and written together.",
  ["inputs"], "all elements of the schema with all their attributes, children, repetitions and pairs of children",
  "Tests write and read the elements somebody thought of; what is missing from class and test alike goes unnoticed.",
  [CO + "/elements"], [("schema against model", "Sourcecode/private/mx/core/elements")])

p("P26", "What is set on or added to an element is what is got from it",
  "For every element and value of the document model: what a setter is given is what the getter of the same name returns from then on, whether it is stored depends on nothing but the argument, and the getters of other names return what they returned before; adding to, removing from and clearing a collection act on the collection that the getter of that name returns; getters of different names return different state.",
  ["inputs", "histories"], "all accessors of all elements and values",
  "There are some two and a half thousand accessors; the tests call a fraction of them, and rarely look at the neighbours of what they set.",
  [CO + "/elements", CO], [("accessors", "Sourcecode/private/mx/core/elements")])

p("P27", "Copies are complete and independent",
  "Copying or moving a value or a cursor into another by construction or assignment makes the target equal to the original in every field, on every path and whatever the target held before, and changing one of the two afterwards does not change the other: values of the public API and of the document model share nothing with their copies.",
  ["inputs", "histories"], "all copyable values and cursors",
  "Tests rarely assign over a value that is already in use, or look at a copy after the original changed.",
  [CO, "Sourcecode/include/mx/api", EZ], [("copying", CO + "Date.cpp")])

p("P28", "What is referred to is still there when it is used",
  "No function returns or keeps a reference, pointer, view or iterator into an object that ends before its last use: not into a local object, not into a temporary, not into a collection that has changed since in a way that moves or removes the element. Nothing is read from a variable or field after its content was moved elsewhere, unless it was given a new value first.",
  ["inputs", "histories"], "all functions of the library, all references, pointers and iterators they make",
  "A dangling reference usually still reads the old bytes in a test; only some allocator states and compilers expose it.",
  ["Sourcecode/private/mx", EZ], [("readers keep references to what they read", IM)])

p("P29", "A record says that it holds something exactly when it does",
  "A public predicate that tells whether a score record holds anything (isUsed, isSpecified, isDirectionDataEmpty) answers so exactly when one of its parts was given: a fresh record holds nothing, and a record in which any one optional value, collection, text, enumeration other than 'unspecified', or is...Specified / is...Used flag was given holds something, nested records included. Where or when something stands (placement, voice and tick of a direction) does not count as holding something.",
  ["inputs"], "all public records with such a predicate, all their fields",
  "Tests ask the predicates for a few filled fields; each field alone, in every record, is not tried.",
  [AP], [("predicates of the API records", AP)])

p("P23", "Reading and then writing a document preserves its musical content",
  "For every document the library can load, loading it into a score, writing the score and loading again yields an equal score, including all times, durations and tuplets.",
  ["inputs"], "all MusicXML documents",
  "Only a sample of documents can be tested; the corpus suites are not run.",
  [IM], [("reader and writer", IM)])

p("P24", "Tick arithmetic is exact",
  "Times and durations that are representable in the chosen ticks per quarter are converted between divisions and ticks without rounding error and without integer overflow, and the events of each measure end at the measure's end.",
  ["inputs"], "all divisions values, all rhythms",
  "Tests use a few divisions values.",
  [IM + "LcmGcd.cpp", IM + "MeasureReader.cpp", IM + "MeasureWriter.cpp", IM + "Cursor.cpp"], [("LCM scaling", IM + "LcmGcd.cpp")])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x) + '\n')
    print(len(P))
