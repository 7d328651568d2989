#!/usr/bin/env python3
# Writes properties.jsonl (one JSON object per line) from the table below.
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                   observe_at=observe or [], hook_needed=None)))

p("C01","Parsing is total: any text yields a value or an error, never a crash",
  "For every byte sequence, parsing it as one document, as a document at an offset, or as a stream of documents returns either a usable value (rendering, inspecting and copying it cannot crash) or an error. It never panics and never loops, and on success the reported end offset lies within the text, not before the start.",
  ["inputs"],"every byte sequence up to the length bound, plus longer texts with arbitrary bytes in structurally interesting places",
  "tests parse a few dozen fixed texts; a crash on an unusual byte sequence (empty token, malformed node id) is invisible to them",
  ["jsonutils.go","parse_session.go","errors.go","jsonpointer.go"],
  [("recursive descent parser","jsonutils.go parseDict/parseArray/parseJSONValue/parseString"),("error construction","errors.go NewJSONError"),("pointer bookkeeping","parse_session.go")],["Parse","ParseString","ParseStream","ParseJsonStreams"])
p("C02","Compact text round trip preserves every JSON value",
  "For every JSON value built from nulls, booleans, 64-bit integers, finite floats, byte strings, arrays and objects with arbitrary keys, parsing the value's compact text succeeds, consumes all of it, and gives a value equal to the original (numbers by numeric value). The text is a pure function of the value: rendering it again, or rendering the reparsed value, gives the same text.",
  ["inputs"],"every JSON tree within the shape bound, with arbitrary leaf integers, string bytes and object keys",
  "tests check a handful of literals; control characters, quotes, non-UTF-8 bytes and int64 extremes at every position are not sampled",
  ["string.go","write.go","jsonutils.go"],
  [("escaping","jsonutils.go quoteString/escapeJsonChar"),("writer","write.go buildString"),("reader","jsonutils.go parse*")],["String","Parse","Equals"])
p("C03","Pretty-printed text denotes the same value as compact text",
  "For every JSON value, parsing its pretty-printed text succeeds and gives a value equal to the original, whatever bytes occur in strings and object keys.",
  ["inputs"],"every JSON tree within the shape bound with arbitrary string and key bytes",
  "no test pretty-prints a value whose keys need escaping or compares the reparsed value",
  ["jsonutils.go"],[("pretty printer","jsonutils.go prettyString"),("escaping","jsonutils.go quoteString")],["PrettyString","Parse"])
p("C04","Rendered text is standard JSON that any decoder reads as the same value",
  "The compact text of every JSON value (finite numbers) is grammatical under RFC 8259: quotes, backslashes and all control characters in strings and keys are escaped with standard escapes, separators and brackets are placed correctly, and an independent RFC 8259 decoder recovers exactly the original strings, keys, integers, booleans, nulls and structure.",
  ["inputs"],"every JSON tree within the shape bound with arbitrary string and key bytes",
  "the package's own lenient parser hides non-standard output; tests never run an independent decoder over arbitrary bytes",
  ["jsonutils.go","write.go","string.go"],[("escaping","jsonutils.go escapeJsonChar"),("writer","write.go")],["String"])
p("C05","Standard JSON text is read with its standard meaning",
  "For every RFC 8259 document (nested at most 10000 levels deep; a deeper one may be refused), parsing succeeds and yields exactly the value the standard assigns: every escape sequence (including \\u escapes and surrogate pairs) denotes the right characters, whitespace between tokens is insignificant, members and elements appear with the right names and order, and 64-bit integers are exact.",
  ["inputs"],"every standard document within the bounds: string literals with arbitrary escapes and raw bytes, numbers, literals, nested containers, arbitrary whitespace",
  "tests contain few escapes and no surrogate pairs; conformance is a statement about all documents",
  ["jsonutils.go"],[("string literal decoding","jsonutils.go parseQuoteString/hexstr2rune"),("token classification","jsonutils.go parseJSONValue"),("containers","jsonutils.go parseDict/parseArray")],["Parse"])
p("C06","Truncated or structurally malformed documents are rejected",
  "No proper prefix of the text of an array, object or quoted string is ever accepted as a complete document: parsing it reports an error. Text in which a separator between elements or members, the colon of a member, or the matching closing bracket is missing or wrong is likewise reported as an error rather than being turned into a different value.",
  ["inputs"],"every truncation point of every document within the shape bound, and every wrong byte at a structural position",
  "tests cover a few malformed literals; truncation at every point of every document is not sampled",
  ["jsonutils.go"],[("truncation checks","jsonutils.go parseDict/parseArray/parseQuoteString")],["Parse","ParseStream"])
p("C07","Concatenated documents are recovered one by one, in order",
  "Parsing at an offset consumes exactly one document and reports the offset just past it, and depends only on the text from that offset on. A stream that is a concatenation of array/object documents, separated by any bytes that are not opening brackets, yields exactly those documents in order.",
  ["inputs"],"every sequence of documents within the bound, with arbitrary separators, prefixes and suffixes",
  "tests use a few literal streams; offset arithmetic must hold for all documents and separators",
  ["jsonutils.go"],[("offset threading","jsonutils.go ParseStream/ParseJsonStreams")],["ParseStream","ParseJsonStreams"])
p("C08","Equality is an equivalence that sees exactly the JSON content",
  "Equality between JSON values is reflexive (except NaN), symmetric and transitive, and two values are equal exactly when they have the same kind and the same content: same scalar, same elements in the same order, or the same set of keys with equal values regardless of insertion order. Changing any leaf, key or length makes values unequal. References to nodes are equal when they name the same node, also in values converted from cyclic structures.",
  ["inputs"],"every pair/triple of JSON trees within the shape bound",
  "tests compare a few literal pairs; equivalence laws quantify over all pairs and triples",
  ["equals.go"],[("structural comparison","equals.go")],["Equals"])
p("C09","Copies equal the original and are independent of it",
  "A deep copy equals its source and renders identically, and no later modification of either (adding, replacing or removing members or elements at any depth) is visible in the other. A shallow copy (whole, including or excluding some keys) contains exactly the selected entries, and changing the membership of the copy or of the source does not affect the other.",
  ["inputs","histories"],"every source tree within the shape bound and every single mutation at any depth of either side",
  "tests copy a few literals and never mutate both sides at every depth",
  ["clone.go"],[("copying","clone.go DeepCopy/Copy/CopyIncludes/CopyExcludes")],["DeepCopy","Copy","CopyIncludes","CopyExcludes"])
p("C10","An object behaves as a finite map under every operation history",
  "Under any sequence of set and remove operations an object behaves as a map from keys to values: lookup and containment return the last value set for a key that was not removed since, removal reports whether the key was present, the size is the number of distinct keys, keys are listed in ascending byte order without duplicates, and the map view and rendered text show exactly these entries. The object holds the very value that was stored, so a later change of a stored container shows.",
  ["histories","inputs"],"every operation sequence within the length bound over arbitrary key strings",
  "tests exercise a few fixed sequences; ordering and binary search errors need particular key sets and histories",
  ["access.go","dict.go","jsonutils.go","size.go","length.go"],[("sorted storage","access.go Set/remove/_get, yunion.io/x/pkg/sortedmap")],["Set","Remove","Get","Contains","GetMap","SortedKeys","Length","Size"])
p("C11","Case-insensitive access agrees with the set of case-variants of the key",
  "A case-insensitive lookup or containment test succeeds exactly when some key of the object equals the requested one up to letter case, prefers an exact match, and returns the value of a matching key. Case-insensitive removal removes all matching keys and nothing else, and reports whether any existed; case-sensitive operations ignore other variants.",
  ["inputs","histories"],"every object within the size bound and every key string",
  "tests use one or two ASCII keys",
  ["access.go"],[("case folding","access.go _get/remove/RemoveIgnoreCase")],["GetIgnoreCases","ContainsIgnoreCases","RemoveIgnoreCase"])
p("C12","Path access follows the nesting, and path insertion is readable back",
  "Reading along a path of keys succeeds exactly when each step is a member of an object, returns the value found there, and reports a missing key or a non-object step as an error rather than crashing. Inserting a value at a path creates missing (or null) intermediate objects, makes the value readable at that path, leaves all other entries unchanged, and reports an error without damage if an intermediate value is not an object; indexed access accepts exactly the indices from minus length to length minus one.",
  ["inputs","histories"],"every nested object within the bound, every path up to depth 3, every index value",
  "tests read and insert at a few fixed paths and indices",
  ["access.go"],[("path walk","access.go _get/Add/GetAt")],["Get","Add","GetAt","Contains"])
p("C13","Merging objects takes the right value per key and leaves the source alone",
  "After updating an object with another, it holds exactly the union of the keys, with the other object's value winning on common keys; a default-update is the same with the receiver's value winning. The other object is unchanged and stays independent: later membership changes to either do not show in the other, and updating with a non-object changes nothing.",
  ["inputs","histories"],"every pair of objects within the size bound over arbitrary keys, every later mutation",
  "tests merge one or two literal pairs and never check aliasing",
  ["dict.go","update.go"],[("merge","dict.go Update/UpdateDefault")],["Update","UpdateDefault"])
p("C14","Diff partitions the two objects exactly",
  "Comparing objects A and B places every key of A or B in exactly one of four results: only in A, in both but different (as the pair of both values), in both and equal, only in B, each with the right value(s). A and B themselves are unchanged.",
  ["inputs"],"every pair of objects within the size bound over arbitrary keys and values",
  "one test with one literal pair",
  ["dict.go"],[("split and compare","dict.go Diff")],["Diff"])
p("C15","Arrays behave as sequences and hand out independent snapshots",
  "Under any sequence of append and replace operations an array holds exactly the appended elements in order with replacements applied; length, indexed reads, the element list, the string list and the rendered text agree with that sequence. Element lists handed out by, or used to build, an array are snapshots: changing them does not change the array.",
  ["histories","inputs"],"every operation sequence within the length bound",
  "tests build a few arrays and never mutate handed-out lists",
  ["access.go","utils.go","size.go","length.go","clone.go","values.go"],[("storage","access.go JSONArray")],["Add","SetAt","GetAt","GetArray","GetStringArray","Length","Size"])
p("C16","Typed reads convert exactly or report an error",
  "Reading a value as integer, float, boolean or string returns exactly the value its content denotes under the documented conversions (integers from integers and decimal strings, floats from numbers and numeric strings, booleans from booleans and the words true/on/yes/1 and false/off/no/0 in any case) and an error for everything else; it never returns a made-up value with no error. Reads through a key path give the same answer as reading the member directly.",
  ["inputs"],"every scalar value, every string within the length bound, every kind of value for every typed read",
  "tests read a few literals; conversions quantify over all strings and integers",
  ["access.go","values.go"],[("conversions","access.go Int/Float/Bool/GetString")],["Int","Float","Bool","GetString","GetArray"])
p("C17","Go values survive marshal and unmarshal",
  "For every value of the supported Go types (booleans, all integer widths, floats, strings, slices, arrays, string-keyed maps, nested and embedded structs, pointers), converting it to JSON and filling a zero value of the same type from that JSON gives back an equal value, also when the JSON passes through its text form (for valid UTF-8 strings). Integer-typed fields keep all their bits, and the JSON of a scalar, at any place, is the value it denotes: every integer that fits 64 signed bits is that number, a boolean, text or float is itself, nil is null. Nil and empty slices and maps count as equal, a pointer to a value whose member is omitted may come back nil, and map entries with a nil value may be dropped.",
  ["inputs"],"every field value of a family of struct types covering all supported kinds",
  "tests round-trip a few literal structs; extremes of every integer width, arbitrary strings and nil/empty distinctions are not sampled",
  ["marshal.go","unmarshal.go"],[("reflection walk","marshal.go _marshalValue, unmarshal.go _unmarshalValue")],["Marshal","Unmarshal"])
p("C18","Filling a Go value from JSON never crashes on any JSON",
  "Filling any supported Go destination (basic kinds, tri-state, time, slices, arrays, maps, structs, pointers, interfaces, JSON value types) from any JSON value, including values and node references parsed from arbitrary text, returns normally with either success or an error; a kind mismatch is reported as an error and never as a panic.",
  ["inputs"],"every JSON kind with arbitrary content against every supported destination kind",
  "the kind-by-kind matrix of source and destination is far larger than the pairs the tests contain",
  ["unmarshal.go","unmarshal_session.go","jsonpointer.go","std_json.go"],[("dispatch on kind","unmarshal.go"),("node references","unmarshal_session.go setPointerValue")],["Unmarshal"])
p("C19","Cyclic Go structures marshal finitely and are rebuilt with the same shape",
  "Converting a pointer structure with cycles to JSON terminates, and filling a new value from the result (directly or through its text) rebuilds a structure in which following any path of pointers gives the same contents and the same cycles as the original; in any text, every reference to a node, before, inside or after it, becomes a pointer to that node. (A value is only named in JSON when it is an object, so a cycle is one that passes through a struct or map.)",
  ["inputs","configurations"],"every pointer graph over up to 3 nodes with up to 2 pointer fields each",
  "tests use two literal graphs; identity bookkeeping depends on the order in which shared and cyclic nodes are met",
  ["json_pointer_trace.go","jsonpointer.go","marshal_session.go","unmarshal_session.go","parse_session.go"],[("identity trace","json_pointer_trace.go find/pop"),("node ids","jsonpointer.go"),("reference resolution","unmarshal_session.go")],["Marshal","Unmarshal"])
p("C20","Omission tags remove exactly the members they name",
  "Marshalling omits a member exactly when its field is ignored, or its value is empty/zero/false and the field's omission option for that kind is in effect (strings, times, containers and structs by default when empty, also JSON values held as plain structs; numbers and booleans only when asked; nil pointers, interfaces, slices and maps and the none tri-state always); all other fields appear under their declared names with their values. Marshal-all keeps every non-ignored member, null where there is no value.",
  ["inputs"],"every field value of struct types covering each tag option and kind",
  "tests cover a few tag/value combinations",
  ["marshal.go"],[("omission logic","marshal.go marshalInt64/marshalString/...")],["Marshal","MarshalAll"])
p("C21","Deprecated names mirror their replacement, for every tag graph",
  "Marshalling emits each deprecated field name with the value of the (transitively) replacing field when that field is present, and filling a struct from a deprecated name also fills the replacing field. Both terminate for every graph of deprecation tags, including self-references and cycles, and the result does not depend on iteration order.",
  ["inputs","configurations","schedules"],"every deprecation graph over the fields of a small struct, every field value, every map iteration order",
  "tests have one or two tag graphs and one iteration order per run",
  ["marshal.go","unmarshal.go"],[("deprecation chain","marshal.go struct2JSONPairs"),("deprecation fill","unmarshal.go setStructFieldAt")],["Marshal","Unmarshal"])
p("C22","Query-string round trip preserves nested string data",
  "For every object whose keys are non-empty, dot-free and non-numeric and whose leaves are non-empty strings, nested in objects and arrays, parsing its query string gives an equal object; integers and booleans come back as their text. Reserved characters, spaces and arbitrary bytes in keys and values are preserved.",
  ["inputs"],"every such object within the shape bound, with arbitrary bytes in keys and values",
  "tests round-trip a few literals",
  ["querystring.go","stringsegment.go"],[("escaping","querystring.go simpleQueryString"),("key segments","stringsegment.go")],["QueryString","ParseQueryString"])
p("C23","Query parsing is total and loses no parameter",
  "Parsing any text as a query string returns an object or an error and never crashes. On success every parameter of the query is represented in the result at the path its key spells (repeated parameters as a list in order, which keys ending in an index may extend); a parameter that cannot be placed because it conflicts with another is reported as an error, and the result does not depend on iteration order.",
  ["inputs","schedules"],"every query text within the length bound, every pair of keys over a conflict-prone alphabet, every map iteration order",
  "tests parse a few well-behaved queries",
  ["querystring.go","stringsegment.go"],[("placement","querystring.go addQueryStringSeg"),("ordering","stringsegment.go Less")],["ParseQueryString"])
p("C24","Read-only operations write nothing, so concurrent readers are safe",
  "Rendering (compact, pretty, query, YAML), looking up, typed reads, comparing, copying, converting and diffing never modify the values they are given nor any package-wide state (other than under a lock or once), so any number of concurrent readers of the same value, parsed or built, race with nobody and see the same result.",
  ["inputs","schedules"],"every value within the shape bound, every read-only operation; absence of any write implies the claim for every interleaving",
  "tests are single-threaded and cannot see a benign-looking write",
  ["string.go","write.go","access.go","equals.go","clone.go","interface.go","querystring.go","marshal.go"],[("absence of caching writes","all read paths")],["String","PrettyString","QueryString","Get*","Equals","DeepCopy","Interface","Unmarshal (source)"])
p("C25","Conversions to plain Go data mirror the JSON content",
  "Converting a JSON value to plain Go data yields nil, bool, int64, float64, string, a list of the converted elements in order, or a map with exactly the converted members; the reference that closes a cycle becomes the map of the object it refers to; apart from that the parts of the result are separate, so changing one changes neither another nor the value. Zero tests report true exactly for null, false, 0, the empty string and empty containers; map and element views contain exactly the entries.",
  ["inputs"],"every JSON tree within the shape bound",
  "tests convert one literal per kind",
  ["interface.go","iszero.go","values.go","access.go"],[("conversion","interface.go"),("zero test","iszero.go")],["Interface","IsZero","Value","GetMap"])
p("C26","Filling Go fields converts scalars faithfully",
  "Filling a scalar destination from a scalar JSON value stores the value the source denotes: integers and numeric strings keep their exact value in destinations able to hold them, booleans become 1/0 or true/false, tri-states become true, false or none, strings keep their bytes, numbers filled into strings keep all their digits, and JSON-typed destinations receive the content. Null resets the destination to its zero value, and for a numeric destination an unparsable string is an error that leaves the destination unchanged (an empty string leaves it unchanged without an error).",
  ["inputs"],"every int64, every boolean, every string within the bound, against every scalar destination kind",
  "tests fill a few literals into a few kinds",
  ["unmarshal.go","currency.go"],[("scalar conversions","unmarshal.go _unmarshalValue")],["Unmarshal"])
p("C27","Time values survive marshal and unmarshal to the microsecond",
  "For every instant with a four-digit year, in any zone and held as a value or through a pointer, marshalling it and filling a time from the result gives the same instant truncated to microseconds; the zero time marshals to an empty string or is omitted and comes back as the zero time.",
  ["inputs"],"every instant with a four-digit year",
  "tests use a few instants",
  ["marshal.go","unmarshal.go","utils.go"],[("format","marshal.go marshalTime, pkg timeutils.FullIsoTime"),("parse","pkg timeutils.ParseTimeStr")],["Marshal","Unmarshal","NewTimeString","GetTime"])
p("C28","Currency-formatted numbers are read by value, plain numbers unchanged",
  "A numeric destination filled from a plain decimal string gets exactly that number. A string in US grouping (1,234,567.89) or European grouping (1.234.567,89) - groups of up to three digits, each later group of exactly three - gets the grouped number with grouping removed and the decimal mark interpreted, and a European decimal comma is also read after at most three ungrouped integer digits; any other text is an error.",
  ["inputs"],"every string over digits, sign and separators within the length bound",
  "tests normalise a few literals",
  ["currency.go","unmarshal.go"],[("normalisation","currency.go")],["Unmarshal"])
p("C29","Lookup helpers agree with direct access",
  "The required-fields check succeeds exactly when every named field is present and not null; first-non-empty-string lookup returns the first key in order with a non-empty text; list extraction from a query value returns the elements of an array, the single string, or the members 0,1,2,... of an object until the first gap; boolean query lookup returns the default exactly when the key is absent.",
  ["inputs"],"every object within the bound and every list of keys",
  "tests use a few literals",
  ["utils.go","querystring.go"],[("helpers","utils.go, querystring.go QueryBoolean")],["CheckRequiredFields","GetAnyString2","GetQueryStringArray","GetArrayOfPrefix","QueryBoolean","GetStringArray"])
p("C30","YAML round trip preserves JSON values",
  "Parsing the YAML text of any JSON value (with valid UTF-8 strings, finite numbers and no member named \"<<\") gives a value equal to the original, whatever characters or YAML-significant words its strings and keys consist of, and rendering leaves the value as it is. Reading any text as YAML gives a value or an error.",
  ["inputs"],"every JSON tree with valid UTF-8 strings",
  "tests convert a few literals",
  ["yamlutils.go"],[("delegation to a YAML library","yamlutils.go")],["YAMLString","ParseYAML"])
p("C31","User-supplied hooks are honoured exactly once with the right data",
  "A type with its own JSON encoder is rendered as the value its encoder produces, and a type with its own decoder receives exactly the text of the JSON value at its place, wherever it occurs (top level, field, pointer, slice element, map value); null resets the destination without asking the decoder; a decoder error is reported. A struct's after-unmarshal callback, also of embedded structs, runs exactly once after its fields are filled.",
  ["inputs"],"every encoder result and every JSON value within the bound, at each place of use",
  "tests use one type at one or two places",
  ["std_json.go","marshal.go","unmarshal.go"],[("hook dispatch","std_json.go tryStdMarshal/tryStdUnmarshal"),("callback","unmarshal.go callStructAfterUnmarshal")],["Marshal","Unmarshal"])
p("C32","Parsed values do not share memory with the input text",
  "A value returned by parsing depends only on the bytes given at the time of the call: overwriting the input buffer afterwards changes nothing in the value, and parsing never modifies the buffer. Parsing the same bytes twice gives equal but independent values.",
  ["inputs","histories"],"every text within the length bound, every later overwrite of the buffer",
  "tests never reuse the input buffer",
  ["jsonutils.go"],[("copying of tokens","jsonutils.go parseQuoteString/parseString")],["Parse","ParseStream","ParseJsonStreams"])
p("C33","Every catalogued error message resolves in every language",
  "For every language of the message catalogue and every string, looking up the message returns either nothing or a complete message text belonging to that key, without ever indexing out of range; every error message the package can produce is present in the catalogue's default language with its own text.",
  ["inputs"],"every message key string and every catalogue language",
  "no test touches the catalogue",
  ["locales/locales.go","errors.go"],[("index tables","locales/locales.go Lookup")],["locales.Catalog"])
p("C34","Error values point into the text without crashing",
  "Building a parse error from any text and any position succeeds, and its message shows the given reason, a position within the text, and at most ten bytes of context on each side with the marker at the position.",
  ["inputs"],"every text within the length bound and every integer position",
  "tests cover a few positions",
  ["errors.go"],[("context window","errors.go NewJSONError")],["NewJSONError","Error"])
p("C35","Registered interface types are read back as their implementation",
  "The text of a value whose type is registered as serializable deserializes to a new, equal value of the registered implementation, transformed exactly once where a transformer is registered; fields, slice elements and map values of a registered interface type are filled the same way, also nested. JSON object, dictionary and array types give what the text denotes, a text of another kind is an error, and a type nobody registered is an error that leaves the rest of the destination filled.",
  ["inputs"],"every content of the registered implementation within the bound, at each place of use, and every short text",
  "tests register one type and deserialize one literal",
  ["reflect.go","unmarshal.go"],[("type registration","reflect.go JSONDeserialize and the gotypes registration"),("interface destinations","unmarshal.go")],["JSONDeserialize","Unmarshal"])
p("C36","Updating a value from another takes exactly what the source holds",
  "Updating a destination from a source (struct, map or JSON object) replaces, by field name and recursively, exactly the fields the source emits, keeps all others (in maps the union results), leaves the source unchanged and, where both are plain Go data, shares no memory with it; a member that does not fit its field is reported as an error, leaves that field alone and does not stop the others.",
  ["inputs"],"every pair of destination and source within the bound",
  "tests update one struct from one literal",
  ["update.go","marshal.go","unmarshal.go"],[("update by marshal and unmarshal","update.go Update")],["Update"])
p("C37","Members reach exactly the struct fields they name",
  "Filling a struct from a JSON object puts every member into every field whose name (the tag's name, else the words of the Go name joined with underscores) it has, also in embedded structs, and into no other; a member that names no field exactly fills a field of a like name (the same words in another spelling) or is ignored. Ignored, unexported and differently named fields keep their values, and an embedded pointer is allocated only for a member of it. Marshalling writes exactly one member of that name per field name.",
  ["inputs"],"every member name within the bound, every pair of members",
  "tests use the exact names",
  ["unmarshal.go","marshal.go"],[("member to field","unmarshal.go setStructFieldAt, pkg reflectutils"),("field to member","marshal.go struct2JSONPairs")],["Unmarshal","Marshal"])
p("C38","Equal content shows the same text and keys however it was made",
  "Two values of equal content are equal and have the same compact, pretty and query text, the same sorted keys and the same size, irrespective of how they were made: the order in which members were set, replaced and removed, insertion at paths, parsing in any member order and with any white space, conversion from maps in any iteration order or from structs of other layout, copying, merging and splitting. No output depends on history, memory layout or chance.",
  ["inputs","histories"],"every order of members and every map iteration order within the bound, for arbitrary keys and values",
  "tests build each value in one way, and a map of two entries takes another order only now and then",
  ["dict.go","querystring.go","marshal.go","jsonutils.go","string.go"],[("ordered members","JSONDict over sortedmap"),("writers","String, PrettyString, QueryString"),("conversion of maps","marshal.go map2JSON")],["NewDict","Set","Update","ParseString","Marshal","String","PrettyString","QueryString","SortedKeys"])
p("C39","A refused operation names its reason, spares the rest and changes nothing",
  "An operation that cannot be done fails with the documented error value as its cause: a path through a missing key (key not found) or through a value that is no object, a path on a scalar, an index outside the array, a typed read of a value that is not of the type or does not denote one, an insertion below a value that is no object, a required field that is missing or null, and a member that does not fit the kind, length or key type of its destination at any depth. The value read or refused stays as it was, a refused insertion or removal changes nothing, and members that do not fit are all named in the error while all other members are filled and the callbacks run.",
  ["inputs"],"every object, path, value and combination of fitting and unfitting members within the bound",
  "tests ask for an error at most, and rarely for which",
  ["errors.go","access.go","unmarshal.go","utils.go","dict.go"],[("error values","errors.go"),("path walk and typed reads","access.go"),("collected errors","unmarshal.go unmarshalStruct"),("required fields","utils.go CheckRequiredFields")],["Get","GetAt","Int","Bool","Add","Unmarshal","CheckRequiredFields"])
p("C40","A reference in a value reads as the node it refers to",
  "A pointer back to a struct that is being marshalled becomes a reference, and every read of the reference (presence, by path, by index, typed, as time, as map or array, as Go value, unmarshalling the whole or a part) gives what the same read of the node gives, or fails for the same reason, also after the node is changed. A reference is written as the id of its node in all formats and adds nothing to a query string; the node is written with that id. References are equal exactly if their ids are, and never equal another kind of value. A reference in a parsed text keeps its id and reads as null.",
  ["inputs"],"every ring of pointers of the shapes, every value in the node and every read and path within the bound",
  "tests print a marshalled cycle, but do not read through its references",
  ["jsonpointer.go","json_pointer_trace.go","interface.go"],[("reference reads","jsonpointer.go getNode and the reads"),("ids","jsonpointer.go setAllNodeId"),("conversion of cycles","interface.go interfaceOf")],["Marshal","Get","GetAt","Equals","Interface","Unmarshal"])
p("C41","JSON values held by Go values pass through unchanged",
  "Converting a Go value that holds JSON values (of any JSON type, as plain structs, pointers or interfaces; at the top, in slices, arrays, maps, members and nested structs) writes at each place the content the JSON value has, null where there is none, omits at most empty members, leaves the held values as they are, and never fails; filling a zero value of the same Go type from the result gives the same contents.",
  ["inputs"],"every JSON scalar and small containers at every place of a Go value",
  "tests marshal a few structs with a dictionary or an array in them",
  ["marshal.go","unmarshal.go"],[("JSON types","marshal.go _marshalValue, marshalInterface"),("JSON destinations","unmarshal.go _unmarshalValue")],["Marshal","MarshalAll","Unmarshal"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
