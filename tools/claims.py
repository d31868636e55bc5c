NA = {}
CLAIM["C17"] = ("TLA+ specification of the tokenizer as a pushdown automaton (spec/Jsmn.tla), its laws checked by TLC; every text of the bounded models and random longer texts go through the real tokenizer (counting, full parse, every small storage with continuation, every cut of the text) and TLC compares the results with the specification",
                "model_checking", "exhaustive over five alphabets up to length 3..5 (thorough: one longer), random texts up to about 60 characters")
CLAIM["C21"] = ("TLA+ specification of sorting (spec/Sort.tla); both algorithms are model checked as state machines over every array of the model (spec/SortAlg.tla); every generated array is sorted by the real routines and TLC compares the result with the specification",
                "model_checking", "every array up to length 6 over 3 keys and 5 over 5 keys, random arrays up to 250 elements, element sizes 1..200, four orders")
TV = "TLA+ specification of typed values (spec/XbValues.tla: arbitrary precision numbers, exact floating point rounding, calendar, base64, hexadecimal); texts and values generated from it by TLC go through the real conversions and TLC checks every result against the specification"
CLAIM["C11"] = (TV, "model_checking", "all texts of up to 3..5 tokens per type, all days 1970 +- some years (thorough: 1586..2408), bytes over edge values, random texts and values of all types, all alignments and all spaces that are too small")
CLAIM["C12"] = (TV + "; pieces are read with every sequence of buffer sizes", "model_checking", "random values of all types, texts and blobs around multiples of the buffer size; buffer sizes 257..4096")
CLAIM["C22"] = (TV + "; the specified order is compared with XBT_Compare, XBT_Equal and findChildByParam", "model_checking", "random pairs (equal, nearly equal, same value in another type, foreign types) and documents with up to 6 children")
TD = "TLA+ specification of documents (spec/XbDoc.tla over spec/XbValues.tla and XbwTypes.tla: structure, traversals, dictionaries, types of names, sharing), its laws checked by TLC on all small documents; these documents and random ones, written as XML in many ways, go through the real conversions and readers, and TLC compares every observation with the specification"
CLAIM["C09"] = (TD, "model_checking", "all documents of up to 3 elements (thorough: 4), all of up to 2 elements with up to 2 attributes, random documents of up to 12 elements with values of all types; printed XML is also read by libxml2")
CLAIM["C10"] = (TD, "model_checking", "all sequences of up to 3 (attributes: 2) of 14 boundary values under one name, random documents; join laws over all types")
CLAIM["C13"] = (TD, "model_checking", "all documents of up to 4 elements (thorough: 5) and up to 3 with attributes, random documents of up to 16 elements with repeated and nearly repeated subtrees; storage addresses are compared with the specified sharing")
CLAIM["C15"] = (TD, "model_checking", "all small sets of prefix-related names, random documents, dictionaries up to the limit of 32768 names and beyond; lookups of all names and of their neighbours")
CLAIM["C20"] = (TD, "model_checking", "all shapes of up to 4 elements (thorough: 5), random documents of up to 16 elements, plain and packed, wide and deep ones")
CLAIM["C18"] = ("TLA+ specification of JSON texts, their tokens, decoding and the document they mean (spec/JsonDoc.tla over spec/XbDoc.tla), its laws checked by TLC; all short texts over an alphabet of lexemes, all small JSON values in two writings, random and damaged ones go through the real conversion, and TLC compares the document read back, its dictionary and what is refused with the specification",
                "model_checking", "all texts of up to 5 lexemes (thorough: 6), all JSON values of up to 12 lexemes (thorough: 14), random values with escapes, deep nesting and mixed types, damaged texts")
CLAIM["C16"] = ("TLA+ specification of the bytes of documents (spec/XbImage.tla: every field of the storage, which documents are well formed, what a reader shows of them) with images written out of the specification; TLC generates every cut and change of each field of small images, combinations and changes of really converted documents; a build with AddressSanitizer opens and reads each of them and TLC decides whether it had to be accepted and what had to be read",
                "model_checking", "3 small images with every byte cut and every field set to every edge value (quick: 60 % of them), 22 larger ones (quick: 10 %), combinations of up to 4 changes, changes at random places of converted documents")
CLAIM["C19"] = ("TLA+ specification of shared-memory documents and their operations (spec/Xbw.tla) extended with the document an .xb and a printed text have to show (spec/XbwTrace.tla Image, ConvOk); histories generated by TLC from the specification run in the real library, which converts (plain and packed) and prints the document; TLC compares what a reader and an XML parser find with the specified tree",
                "model_checking", "one attribute, root or child of every type and value; all structures of up to 4 (thorough: 5) elements; random histories of 120 operations converted every 25 operations")
CLAIM["C14"] = ("TLA+ specification of growing documents (spec/XbwImage.tla View, spec/XbwTrace.tla AppendTo, over spec/Xbw.tla): histories of shared-memory documents written as .xb and appended to are generated by TLC and run in the real library, also with space for a part of an element only; what a fresh reader, readers opened before, an XML parser and readers of copies cut at every byte see is compared with the specification by TLC",
                "model_checking", "every list of up to 3 small elements appended to 5 kinds of documents, random histories of 120 operations with values of all types; copies cut at every byte of an append up to 300 bytes and at about 230 places of longer ones")
CLAIM["C23"] = (TD.replace("go through the real conversions", "are converted to shared-memory documents, and those to plain and packed .xb, by the real library", 1),
                "model_checking", "all documents of up to 3 elements (thorough: 4), up to 2 with attributes, all sequences of 14 boundary values under one name, random documents of up to 12 elements with values of all types; big documents, more names than a dictionary holds; documents with elements without name have to be refused")
CLAIM["C08"] = ("TLA+ specification of the target as a function of the source and of the copies (spec/XbCopy.tla), its laws checked by TLC over every small document and every sequence of copies of its elements (spec/XbCopyMC.tla); every such history and random ones with two sources are run by the real library and TLC accepts the dump of the target after each copy only if the specification allows it (spec/XbCopyTrace.tla)",
                "model_checking", "all documents of up to 3 elements and all sequences of 2 (one name: 3) copies, documents with values and two attributes, random documents of up to 10 elements with values of all types, random keys, two sources whose names have different numbers, targets with missing names and with a transaction around the document")
CLAIM["C24"] = ("TLA+ specification of a directory of files changed by conversions (spec/XbDisk.tla: target names, what success and failure may leave), its laws checked by TLC over all short histories where every conversion may run out of space (spec/XbDiskMC.tla); histories generated by TLC are run by the real library under limits of the file size and the content of every file after every call is checked by TLC (spec/XbDiskTrace.tla)",
                "model_checking", "all names of 66 sources and 22 targets, all limits from nothing to enough in tenths, conversions over existing files, random histories of up to 20 calls over missing, damaged and unsupported sources")
