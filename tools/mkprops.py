#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the long records stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))
BW = "src/bin_write_plugin.cpp"; BWH = "include/binary_xml/bin_write_plugin.h"
XB = "src/bin_xml.cpp"; CR = "src/bin_xml_creator.cpp"; PK = "src/bin_xml_packer.cpp"
TY = "src/bin_xml_types.cpp"; UT = "src/utils.cpp"; JS = "src/bin_json_plugin.cpp"; JM = "src/jsmn/jsmn.c"
XP = "src/bin_xml_plugin.cpp"; MI = "src/missings.cpp"

prop("C01", "Element lists of a shared-memory document are exactly what was edited",
 "After any sequence of creating, adding, joining, removing, replacing and re-valuing elements of a shared-memory (.xbw) document, every element's children and attributes are exactly the ordered list those operations define. Forward iteration, reverse iteration, callbacks and lookups by id all show that same list; a removed element stands alone, and elements not mentioned by an operation keep their place.",
 ["histories"], "all finite histories of valid list operations over any number of elements, depth and list length, including re-adding removed elements, replacing only/first/last elements and joining multi-element rings",
 "The tests build one fixed document by appending; remove, replace, join of multi-element rings, reverse iteration and lookups after edits are never run, and a broken link only shows in particular operation orders.",
 [BW, BWH], [("circular list splice", BW+" BW_element::join/add"), ("unlink", BW+" BW_element::remove"), ("substitution", BW+" BW_element::replace, setStr, tagSet*"), ("iteration", BW+" NextChild/PrevChild/ForAllChildren/ForAllBinParams")],
 ["NextChild/PrevChild, ForAllChildren, ForAllChildrenRecursively, ForAllBinParams, tagGet, findChildByTag, attrGet, findAttr"],
 [("next/prev/first_child/first_attribute", "circular sibling rings", BWH+" BW_element")])
prop("C02", "Typed values are stored and read back exactly; wrong types are refused",
 "A value written to an element or attribute of a shared-memory document through any typed create or set function is returned unchanged by every read function until it is set again, whatever else is done to the document. A create or set call whose type does not suit the registered type of the name is refused and changes nothing; a set that needs a bigger slot keeps the element's position and attributes.",
 ["inputs", "histories"], "all implemented (create/set function, registered type) pairs, all values of each type including boundary lengths and extreme numbers, in any history of other operations",
 "The tests write a handful of values of a few types once and never overwrite, retype or mis-type them.",
 [BW, BWH, TY], [("type check per create function", BW+" attr*/tag*/tagSet*"), ("size and alignment", TY+" XBT_Size2/XBT_Align"), ("getters", BW+" get*/getData")],
 ["getInt32/getInt64/getUInt64/getFloat/getGUID/getStr/getData/tagGetInt32/tagGetStr/findAttrInt32/getNodeBinValue"])
prop("C03", "Pool space is never overlapped, overrun or lost when the file grows or fills",
 "Storage given to live elements and dictionary entries of a shared-memory document never overlaps, lies inside the current file, and the file never exceeds the configured maximum. Growing the file, or refusing an operation because the maximum is reached, leaves everything already stored unchanged and the document usable.",
 ["histories", "configurations"], "all histories of allocations of any size and alignment, for every configured maximum size, up to and beyond exhaustion",
 "The tests never fill a pool or cross a page boundary on purpose; alignment gaps and the failing allocation need exact sizes.",
 [BW, BWH], [("bump allocation", BW+" BW_pool::allocate/allocate8"), ("growth", BW+" BW_plugin::makeSpace, BW_pool::new_element")],
 ["offsets and sizes of elements, pool header counters, fstat of the file"],
 [("allocator/allocator_limit/file_size/mmap_size", "bump allocator and its limits", BWH+" BW_pool")])
prop("C04", "Name dictionary is a stable one-to-one map between names and ids",
 "Registering tag and attribute names yields dense ids such that name-to-id and id-to-name are inverse, an id once given never changes its name, and registering a known name again returns the same id with the type widened to one that fits both uses. The tag and attribute dictionaries do not influence each other, and a type may be altered only to one that can represent every old value.",
 ["histories"], "all histories of registration by id and by name, re-registration with other types, type alteration, import from an .xb file, index building and re-opening, for small and large dictionaries (more than 127 and 255 names)",
 "Tests register a few tags once in one order; re-registration, interleaving tags with attributes, alteration and large dictionaries are not exercised.",
 [BW, BWH, TY], [("registration", BW+" registerTag/registerAttr/registerParam/importTags/importParams"), ("index", BW+" makeTable/allRegistered"), ("relocation", BW+" BW_symbol_table_16B::Open"), ("type widening", TY+" XBT_JoinTypes/XBT_ConvertableType")],
 ["getByName, getTagName/getAttrName, getTagType/getAttrType, getSymbol, getSymbolCount"],
 [("max_id/names_offset/index", "symbol table header", BWH+" BW_symbol_table_16B")])
prop("C05", "A shared-memory document survives restart and is visible to other processes",
 "At every point between operations, whether the writer closes cleanly or is killed, opening the file again (in the same or in another process) shows exactly the dictionary and document the completed operations define, and writing can go on from there. On re-opening, the registration of names that disagree with the stored dictionary is reported, and a file that holds at least a header but is not a compatible document is refused without being changed (a shorter one is made anew).",
 ["histories", "crash_points"], "all histories with a close, kill or second mapping after every operation, re-registration lists that match or differ, and files of foreign or inconsistent content",
 "Tests write a file once and convert it; none reopens, kills the writer or re-registers.",
 [BW, BWH], [("mapping", BW+" BW_plugin::Initialize/Finalize"), ("validation", BW+" CheckExistingFile/InitEmptyFile"), ("check-only registration", BW+" registerTag/registerAttr/allRegistered")],
 ["Initialize/registerTag/registerAttr/allRegistered results, document read through a fresh mapping"])
prop("C06", "Clearing a document forgets all data and keeps the dictionary",
 "Clearing a shared-memory document succeeds in every reachable state, leaves no root and no data, gives the space back, and preserves every name, id and type of both dictionaries. Building a new document afterwards works as on a fresh file, any number of times.",
 ["histories"], "all histories of registration order (tags first, interleaved, extended later by import), document building and repeated clearing",
 "No test calls it; the failure needs particular layouts of the two dictionaries in the file.",
 [BW], [("compaction", BW+" BW_plugin::Clear"), ("index rebuild", BW+" BW_pool::makeTable")],
 ["getRoot, getDataSize, dictionary lookups, allocator position"])
prop("C07", "Documents open at the same time are independent",
 "Any number of shared-memory documents, up to the documented limit, may be open at once: an operation on one document, including growth, close and destruction in any order, never affects the content, size or usability of another.",
 ["histories", "schedules"], "all interleavings of operations on several open documents, opened and closed in any order",
 "Tests open one document per process.",
 [BW], [("registry of open documents", BW+" BW_plugins::registerPlugin/unregisterPlugin/getPlugin"), ("growth through the registry", BW+" BW_pool::new_element")],
 ["document dumps and file sizes of all open documents after each step"])
prop("C08", "Copying parts of a binary document into a shared-memory one merges by key",
 "Copying the path to an element of an .xb document (alone, or with the whole element at its end) into a shared-memory document creates exactly the missing elements: elements of the path that already exist with the same name and equal keys are reused (a key is an attribute the source declares as key; no keys at all are equal), new elements of the path get only their key attributes, and a subtree copied whole has the same names, order, attributes and values as the source. Values keep their type, a text may get the type its name has in the target. Names are matched by name, whatever number they have in either document; a copy that needs a name the target has not, or a path with a different root, fails. Nothing else in the target changes, and what is made of it later (.xb) has the same content.",
 ["inputs", "histories"], "all source trees, key definitions and sequences of path copies into the same target",
 "No test calls the copy functions.",
 [BW, TY], [("path merge", BW+" CopyPath_/CopyKeys/EqualKeys"), ("deep copy", BW+" CopyAll/attrCopy/tagData"), ("value equality", TY+" XBT_Equal")],
 ["target document dump after each copy"])
prop("C09", "XML to binary and back keeps the document",
 "Converting any supported XML document to .xb and reading it through the reader gives the same elements, attributes, nesting and order, with every text and attribute value equal up to the documented normalisation of its detected type. Printing it as XML gives well-formed text that denotes the same document, and converting that text again gives the same document.",
 ["inputs"], "all element trees with any names, any number and order of attributes, any values (including empty and markup characters), depth and fan-out",
 "The tests convert two fixed documents and compare once.",
 [CR, XB, XP, TY], [("two-pass encoder", CR+" XStoreParamsEvent/FillData"), ("reader", XB+" XML_Item accessors"), ("text output", XB+" XML_Item::write"), ("XML source", XP)],
 ["reader API dump, xb2xml output"])
prop("C10", "Every name gets a type that represents all of its values",
 "For every tag and attribute name the type recorded by a conversion is the least type of the type hierarchy that can represent every value the name has in the document (a mixed type when no single one can), independent of the order of the values. Joining types is commutative, associative and idempotent and never loses a value.",
 ["inputs"], "all multisets and orders of values per name, over all detectable value classes and boundary values",
 "Tests see only the type combinations of two documents.",
 [TY, CR], [("detection", TY+" XBT_Detect/XBT_Detect2"), ("join", TY+" XBT_JoinTypes"), ("accumulation", CR+" Bin_xml_creator::XStore*/FindOrAddTyped")],
 ["symbol types of the produced .xb, XBT_Detect/XBT_JoinTypes results"])
prop("C11", "Text and binary forms of typed values are inverse",
 "For every value type and every value, converting the canonical text to binary and back gives the same text, and converting a binary value to text and back gives the same binary value (for floating point numbers: a short decimal text that denotes that number). Text that does not denote a value of the type, or whose value does not fit, is never accepted as a different value, and nothing is written outside the given space.",
 ["inputs"], "all values of the integer, scaled decimal, finite floating point, date and time (years 0 to 9999), IPv4, GUID, SHA-1, hexadecimal, blob and string types, and all malformed texts",
 "XBT_Test samples one to three values per type, and several types not at all.",
 [TY, UT], [("parsers", TY+" XBT_FromString; "+UT+" Scan*"), ("printers", TY+" XBT_ToString/XBT_ToStringChunk/XBT_ToXMLStream; "+UT+" *2Str")],
 ["XBT_FromString, XBT_ToString, XBT_SizeFromString"])
prop("C12", "Output in chunks equals output at once",
 "Reading the text of any value piece by piece with buffers of any size above the library's documented minimum (256 bytes) yields, concatenated, exactly the text read at once, terminates, and never writes outside the given buffer.",
 ["inputs", "schedules"], "all values of all types and all sequences of buffer sizes",
 "No test reads in chunks.",
 [TY, XB], [("chunk state machine", TY+" XBT_ToStringChunk"), ("accessors", XB+" XML_Item::getStringChunk, XML_Param_Description::getStringChunk")],
 ["getStringChunk, XBT_ToStringStream"])
prop("C13", "Sharing of equal subtrees is invisible and complete",
 "A packed .xb denotes exactly the same document as the unpacked one: the same tree is read, whichever subtrees are equal. Equal subtrees are stored once and different ones never share storage.",
 ["inputs"], "all trees with any pattern of equal and nearly equal subtrees, in any nesting, with values of any alignment",
 "The tests pack two documents with little repetition.",
 [PK, MI, CR], [("hash matching", PK+" MarkReferences"), ("relocation", PK+" PackNode"), ("sorting", MI+" mergesort_r2/qsort_r2")],
 ["reader dump, file size, node addresses"])
prop("C14", "An open-ended binary document grows by whole elements",
 "Appending elements to an open-ended .xb leaves the existing content unchanged, and readers, also ones already open before or a copy cut at any byte, see the original children followed by the completely appended elements in order, and nothing else.",
 ["histories", "crash_points"], "all sequences of appends of any elements, with the file observed after each append or cut at any byte of one",
 "The only test of appending does not run at this commit.",
 [CR, XB, BW], [("append", CR+" Bin_xml_creator::Append; "+BW+" BW_plugin::Write"), ("extended iteration", XB+" XML_Item::getNextChild")],
 ["getNextChild over the extended document"])
prop("C15", "Binary document dictionaries are sorted, unique and searchable",
 "In every produced .xb each name occurs once per dictionary, looking up any present name gives its id, looking up an absent name gives none, and every id used in the document is in range and resolves to the name that was converted.",
 ["inputs"], "all sets of names: any count, common prefixes, case, one being the prefix of another, names used both as tag and attribute",
 "Tests have about a dozen well separated names.",
 [CR, XB], [("symbol table build", CR+" Bin_xml_creator::FindOrAdd/Find/Make symbol table"), ("lookup", XB+" _XB_symbol_table::getID/getSymbol")],
 ["getNodeID, getParamID, getNodeName, getParamName, counts"])
prop("C16", "Damaged or foreign binary documents are rejected, not misread",
 "Opening a file that is not a complete, consistent .xb document fails cleanly or exposes only data inside the file: header, dictionary and item fields that point outside, are negative, overlap the end or contradict the file size make the open or check fail, and no such input makes the library read outside the file.",
 ["inputs", "fault_sequences"], "all single-field corruptions, combinations of them, and truncations at any byte of valid documents",
 "No test opens a damaged file.",
 [XB], [("open-time checks", XB+" XB_reader::Initialize, _XB_symbol_table::Load"), ("item checks", XB+" XML_Item::Check")],
 ["Initialize/Check results, traversal under memory checking"])
prop("C17", "The JSON tokenizer accepts and nests exactly as specified",
 "For every input text the tokenizer reports the same tokens (kind, extent, child count, parent) as the documented pushdown grammar, counting tokens without storage gives the number storing needs, and insufficient storage, incomplete or invalid input give the documented error without writing outside the token array.",
 ["inputs"], "all texts over the JSON alphabet up to a length bound exhaustively, random beyond, all token capacities, text split over several calls",
 "Tests parse one sample by hand and assert nothing.",
 [JM, "include/jsmn/jsmn.h"], [("pushdown machine", JM+" jsmn_parse/jsmn_parse_string/jsmn_parse_primitive")],
 ["jsmn_parse result and tokens"])
prop("C18", "JSON documents convert to the equivalent binary document",
 "Converting any supported JSON document to .xb gives the documented element structure: members become elements in order under their name, array items repeat, and scalar values (with their escape sequences translated) are read back equal; two JSON texts that differ only in white space give the same document; a text whose structure is invalid is refused and never crashes the conversion.",
 ["inputs"], "all JSON values: nested objects and arrays, empty containers, strings with escapes, numbers, literals",
 "No test checks a JSON conversion result.",
 [JS, CR], [("JSON source", JS), ("encoder", CR)], ["reader dump of the produced .xb"])
prop("C19", "A shared-memory document converts to the same document",
 "Converting a shared-memory document to .xb (plain or packed) at any moment of its life, or printing it, yields the same elements, attributes, order, names, dictionaries, types and values as its element tree has, and leaves it unchanged.",
 ["inputs", "histories"], "all documents built by any history of operations, with every storable type",
 "The only test of this conversion fails at this commit.",
 [BW, CR, PK], [("source adaptor", BW+" ForAllBinParams/getNodeBinValue/getSymbol"), ("encoder", CR)], ["reader dump of the .xb, printed XML"])
prop("C20", "Traversals visit every item once in the documented order",
 "Index access, next-child iteration, lookup by name and the pre-order and post-order traversals of an .xb document all describe the same tree: each child once, in document order, parents before (or after) children, with correct depth and ancestor path, and by-name lookup returns the first match or nothing.",
 ["inputs"], "all trees, including leaves, wide and deep nodes, shared subtrees and appended elements",
 "Tests only print documents by one traversal.",
 [XB], [("traversals", XB+" ForAllChildrenRecursively*, getChildByIndex/Name, getNextChild")], ["callback sequences and return values"])
prop("C21", "Sorting routines return the stable ordered permutation",
 "The library's sort routines return, for every array, element size and consistent comparison, a permutation of the input in non-decreasing order; the merge sort keeps equal elements in input order, and the caller's context reaches every comparison.",
 ["inputs"], "all arrays up to a length bound over a small key alphabet exhaustively, random beyond, several element sizes",
 "No test calls them directly.",
 [MI], [("merge sort", MI+" mergesort_r2"), ("quick sort", MI+" qsort_r2")], ["output array, comparator arguments"])
prop("C22", "Comparing typed values is a consistent order",
 "Comparing two stored values is antisymmetric and transitive, says equal exactly for values that denote the same value, and agrees with the numeric, chronological or lexical order of the values; values of types that have no common order (and NaN) are reported as not comparable, never as ordered or equal. So lookups by attribute value find an element exactly if one with that value exists.",
 ["inputs"], "all pairs and triples of values of every supported type, over boundary values",
 "Comparison is never tested.",
 [TY, BW], [("ordering", TY+" XBT_Compare/XBT_Equal"), ("lookup", BW+" findChildByParam")], ["XBT_Compare, XBT_Equal, findChildByParam"])
prop("C23", "An XML document converts to the same shared-memory document",
 "Converting an XML document to a shared-memory one (.xbw) yields the same elements, attributes, order, names and values as the XML, every value having the type of its name (its own type where the values of the name have no common one, none where it is empty), and converting that to .xb, packed or not, yields them again with the same types; when anything cannot be stored the conversion fails, it never stores a part silently.",
 ["inputs"], "all XML documents, with values of every detected type, empty and mixed values",
 "The only test of this conversion fails at this commit.",
 [CR, BW, PK], [("conversion", CR+" Bin_xml_creator::Make_xbw and its callbacks"), ("storage", BW+" tagAny/attrAny, registration of names")], ["dump of the .xbw, reader dump of the .xb made of it"])
prop("C24", "A conversion writes the whole document under the documented name or fails",
 "A conversion (XML, JSON or .xbw to .xb, XML to .xbw, GetXB, opening a text through the reader) that reports success has written the whole document to the given or default target: the name with the extension of its last part replaced, in the same directory. When the source cannot be converted or the result cannot be written completely (no such directory, no space at any point), it reports failure, never crashes and never leaves anything that opens as a document other than the one that was there. No other file is changed.",
 ["faults", "histories", "inputs"], "all histories of conversions in a directory, all names, every limit of space",
 "No test lets a conversion fail or looks at other files.",
 [CR, PK, UT, XB, BW], [("names of targets", UT+" AllocFilenameChangeExt"), ("writing of the result", CR+" Make_xb, Make_xbw"), ("GetXB", PK), ("opening of texts", XB+" XB_reader::Initialize")], ["return values, content of every file in the directory"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
