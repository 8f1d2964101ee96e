TRUST = ["clang 18 with AddressSanitizer and libc are trusted; memory errors are seen as far as AddressSanitizer sees them",
         "the bounds named in the rule: nothing is said about inputs outside them"]
ENUM = "bounded exhaustive enumeration of executions of the real code against a reference model (explicit, no sampling)"

prop("C10", "Scalar values survive text -> binary -> text for every type",
     "For every scalar type (integers of 32 and 64 bits, decimal fixed point types, FLOAT, DOUBLE, IPv4, GUID, SHA1, STRING), converting a valid text to binary stores exactly the denoted value and printing that value through any output path (string, chunk, stream, XML stream) gives back the canonical text, XML-escaped where the output is XML. Text that is malformed or out of the type's range is refused instead of stored as a different value, and comparing two values of the same type agrees with their natural order; two values are equal exactly if their contents are, whatever lies in unused space behind them.",
     ["inputs"], "every value of each type's range reduced to all boundary values (powers of two and ten +-3, sign and carry positions), every character and byte position for strings and hashes; all texts up to length 5 (thorough 6) over 12 characters against each of 12 types, limits of every numeric type in all their notations, all edits of GUID/SHA1/HEX/IPv4 texts; comparison and equality of all pairs of a value set for every type; BLOB, HEX and text values of 32 lengths up to 100000 printed in every way one after another",
     "the tests convert one or two values per type; the property is over the whole value range including the extremes of each type",
     ["src/bin_xml_types.cpp", "src/utils.cpp"],
     [("XBT_FromString / XBT_ToString / XBT_ToStringChunk / XBT_ToStringStream / XBT_ToXMLStream", "src/bin_xml_types.cpp"), ("Scan*/Int64ToStr/str2dec", "src/utils.cpp"), ("XBT_Compare", "src/bin_xml_types.cpp")],
     observe=["XBT_FromString", "XBT_ToString*", "XBT_Compare", "ScanInt*", "Int64ToStr"],
     technique=ENUM, drivers=["codec"], note="Every value in the enumerated ranges and all boundary values of all 32 and 64 bit types are run through the real codecs (thorough: all 2^32 INT32 values); acceptance is judged by an independent grammar (harness/textref.h: must be stored as this value / must be refused / free); values outside the enumerated set are not covered.",
     rule="a case is a block of raw values (512 blocks of 256 consecutive values, every boundary value within 3 of a power of two or 2 of d*10^e, 1024 float blocks, all combinations of 17 octets^4, every byte value at every byte position of GUID/SHA1, every character in strings, string lengths around the chunk size); non-trivial: a value that was stored, printed by every output path and compared with the reference", assumptions=TRUST)

prop("C11", "Type detection never chooses a type that changes or loses the value",
     "Whatever text is given, the automatically detected type can hold it: the text converts, occupies the announced size and prints back as a text denoting the same value. Joining the types of several values is commutative, idempotent and yields an upper bound, so that a column's common type stores each of its values unchanged (to floating precision when joined with a floating type) or refuses it.",
     ["inputs"], "all strings up to length 6 (thorough 7) over the 15 characters the detector distinguishes, all single edits (thorough: double edits) of 55 well-known shapes, all pairs of types, all columns of three values out of 32",
     "tests detect one sample per type; a wrong answer needs a text that looks like one type but is another",
     ["src/bin_xml_types.cpp"], [("XBT_Detect, XBT_Detect2, XBT_JoinTypes, XBT_SizeFromString", "src/bin_xml_types.cpp")],
     observe=["XBT_Detect", "XBT_JoinTypes"], technique=ENUM, drivers=["codec"],
     note="Complete for the stated string space (over 11 million texts in the quick tier) and type space; longer texts only as edits of known shapes.",
     rule="a case is a string prefix with all its continuations, an edit position of a shape, a pair of types or a column of 3 texts; non-trivial: a text whose detected type was converted, printed and compared", assumptions=TRUST)

prop("C12", "Dates and times convert exactly and nonexistent ones are refused",
     "Every calendar day of the supported range, every 32-bit UNIX time and 64-bit millisecond time converts to and from its text exactly, including leap years, pre-epoch and far dates, time zone offsets and fractional seconds. Text that does not denote an existing date or clock time is refused and never detected as one. The current time (GetCurrentTime64) is the clock's milliseconds.",
     ["inputs"], "every day of 28000 years (thorough: all 735439 years of the scanner's range), 20 times of day on each of the 49711 days of 32-bit time (thorough: all 2^32 seconds), milliseconds on every day 1900..2106 and six days of each year 0..9999, all zone offsets, 4 million moments of years of every number of digits (up to those where 32 and 64 bit arithmetic wraps), all field values 0..99, all single and double (thorough: triple) edits of 16 shapes of date and time texts",
     "tests convert a handful of dates; calendar faults sit at leap days, century years, range ends and negative values",
     ["src/utils.cpp", "src/bin_xml_types.cpp"], [("ScanUnixDate, ScanUnixTime, ScanUnixTime64msec, UnixDate2Str, UnixTime642Str", "src/utils.cpp"), ("XBT_FromString/XBT_ToString of UNIX_DATE, UNIX_TIME, UNIX_TIME64_MSEC", "src/bin_xml_types.cpp")],
     observe=["Scan*", "UnixDate2Str", "XBT_FromString", "XBT_ToString"], technique=ENUM, drivers=["calendar"],
     note="Complete over days in the stated ranges and over field values; times of day are a fixed grid in the quick tier and complete in the thorough tier. Reference: proleptic Gregorian days-from-civil arithmetic.",
     rule="a case is a year, a day, an hour, a base instant or an edit position; non-trivial: an instant or text converted and compared with the reference calendar", assumptions=TRUST + ["second 60 (leap second notation) is left unspecified"], hang=60)

prop("C18", "SHA-1 and the two sorts are correct for every input",
     "The SHA-1 of any byte string is the standard digest, however the input is split into pieces and whether it comes from memory or from a file. Both sorts return a permutation of their input in non-decreasing order for every input order and element size, the merge sort keeps equal elements in input order, and no byte outside the array is touched.",
     ["inputs"], "message lengths 0..1499 (thorough 20000) and around page sizes with 4 contents, all three-way splits of 260 lengths at block-boundary points and byte by byte; 8 lengths between 512 MB and 1 GB (thorough also up to 4 GB) around every carry of the bit count; all element sequences up to length 7 (thorough 8), all two-valued sequences up to length 16 (thorough 20), 14 shapes x 8 element sizes of every length up to 300 (thorough 3000); for up to 12000 elements (thorough 40000) the order that is worst for the sort, found by an adversary while it runs; all orders of up to 4 elements of 64 KB to 16 MB (thorough arrays over 2 GB)",
     "tests check one digest and no sort; padding, block and merge boundaries depend on length and order",
     ["src/missings.cpp"], [("SHA1, blk_SHA1_*, file_getsha1", "src/missings.cpp"), ("mergesort_r2, qsort_r2", "src/missings.cpp")],
     observe=["SHA1", "file_getsha1", "mergesort_r2", "qsort_r2"], technique=ENUM, drivers=["algo"],
     note="Complete for the stated lengths, splits and sequences; the reference digest and sort are independent implementations.",
     rule="a case is a message length (with all its splits) or a residue class of the element sequences; non-trivial: a digest or sorted output compared with the reference", assumptions=TRUST)

prop("C19", "Byte-string codecs (base64, hex, chunked output) are lossless and bounded",
     "Encoding any byte string in base64 or hexadecimal and decoding it returns the same bytes, with the standard text, with or without padding; the chunked, stream and string outputs of BLOB and HEX values agree for every length. No destination size ever leads to a write past it, and decoding stops at the first invalid character.",
     ["inputs"], "all byte groups, all lengths 0..1100 (thorough 9500) with 4 to 6 contents, all destination sizes, all pairs of invalid characters",
     "tests never encode a BLOB; faults depend on length modulo the group and chunk sizes and on destination size",
     ["src/bin_xml_types.cpp", "src/utils.cpp", "src/missings.cpp"], [("base64_encode/base64_decode", "src/utils.cpp"), ("XBT_ToStringChunk of BLOB/HEX", "src/bin_xml_types.cpp"), ("Hex2Str/Hex3Str", "src/utils.cpp")],
     observe=["base64_encode", "base64_decode", "XBT_ToStringChunk"], technique=ENUM, drivers=["codec"],
     note="Complete for the stated lengths and contents; byte values inside longer strings are fixed patterns.",
     rule="a case is a leading byte, a length or a destination size; non-trivial: an encoded/decoded string compared with the reference", assumptions=TRUST)

SEQ = "explicit-state exploration of the real code: every operation sequence up to a depth, each reached state compared with an abstract model (no sampling)"
BWF = ["src/bin_write_plugin.cpp", "include/binary_xml/bin_write_plugin.h"]

prop("C04", "The write pool's DOM behaves as an ordered tree under every operation sequence",
     "After any sequence of creating, adding, joining, removing, replacing, retyping and setting elements and attributes (tagX, attrX, tagSetX, setStr, add, join, remove, replace, tag find-or-create, retype), the document in a BW_plugin is exactly the ordered tree those operations denote: every list is a consistent circle in both directions, all traversals (NextChild/PrevChild, ForAllChildren*, ForAll(Bin)Params, tagGet/findChildByTag/attrGet/findAttr/findChildByParam) see the same members in the same order, and every value reads back with its type and content. Creators and setters of raw data refuse symbols of another type (reserved symbols have their fixed types) and leave the tree unchanged; removed and replaced elements are marked deleted; retyping an element or attribute keeps it where it is and gives it the new type; setters never damage neighbouring elements.",
     ["histories", "inputs"], "all sequences of 38 operations up to length 5 (thorough 6); every creator with every symbol type, all pairs of types for retyping, at both 4/8 byte phases and at 4 distances from the end of the committed file; all trees of up to 3 children for the parameter search; setStr with every pair of lengths 0..40 after each other in 8 places; every creator with every reserved symbol",
     "the tests build one tree; list and value faults need particular orders of removal, replacement and reuse",
     BWF, [("BW_element::add/remove/replace/join/tagSet*/setStr/attr*", "src/bin_write_plugin.cpp"), ("BW_pool::new_element/tag*", "src/bin_write_plugin.cpp"), ("BW_plugin::ForAll*", "src/bin_write_plugin.cpp")],
     state=[("BW_element.next/prev/first_child/first_attribute", "circular lists of offsets into the pool", "include/binary_xml/bin_write_plugin.h")],
     observe=["BW_element traversal and getters"], technique=SEQ, level="model_checking", drivers=["bw"],
     note="7.0 million states in the quick tier, the whole tree is compared with the model in each; sequences beyond the depth and documents of more than a handful of elements are not covered by this property (C07 covers big ones).",
     rule="a case is a pair of first operations (all extensions are explored in it), a creator with its value, or a coded list of children; non-trivial: a state whose whole tree was compared with the model", assumptions=TRUST, hang=60)

prop("C06", "A reopened .xbw file is the same document and accepts only its own dictionary",
     "Closing and reopening a write pool in any process gives the same document and symbols, under the limit stored in the file (settings made while it is open change nothing); registering the same symbols succeeds and the document can be extended further, whatever happened before (writes, growth, Clear, earlier reopenings). Registering a symbol with a different id, name or type is reported and allRegistered fails, leaving the file unchanged. A file that is truncated or whose identification, version or sizes disagree is refused unmodified, and a damaged symbol index is never followed (one shorter than a header is taken as new; one only longer than its header says, left by a writer killed while growing it, is cut back and accepted), and ALWAYS_CREATE_NEW starts empty.",
     ["histories", "inputs"], "all sequences of 7 (thorough 8) of {write, big write, reopen, create new, Clear}; dictionaries of 1..6 tags and 1..5 attributes with every single deviation of 10 kinds at every position; every truncation to 0..399 bytes, the last 64 bytes and every 509 bytes; files longer by 17 sizes; all pairs of stored and requested types (20x20) for tags, attributes and both; all changes by 4 masks of identification, version and file size; 12 damaged values of both allocation limits and of every entry of the symbol indexes in 3 documents",
     "tests create a file once and never reopen or damage it",
     BWF, [("BW_plugin::Initialize, CheckExistingFile, InitEmptyFile, Finalize", "src/bin_write_plugin.cpp"), ("registerTag/registerAttr in check mode, allRegistered, Clear", "src/bin_write_plugin.cpp")],
     state=[("BW_pool header", "sizes, allocator, symbol tables and root", "include/binary_xml/bin_write_plugin.h")], observe=["BW_plugin::Initialize", "registerTag", "registerAttr", "allRegistered", "getRoot"],
     technique=SEQ, level="model_checking", drivers=["bw"], note="Damage of the pool's content behind the header (elements, symbol text) is not part of this property.",
     rule="a case is an operation sequence, a dictionary with a deviation, or a truncation/change; non-trivial: a reopening whose acceptance and content were compared with the model", assumptions=TRUST)

prop("C07", "Growing write pools keep their content, their limit and their independence",
     "Whatever sizes are written in whatever order through any creation path, a pool grows as needed: nothing written earlier changes, the file and its header always agree, it never exceeds its size limit, allocations never pass the end of the file, an element that does not fit (or whose size is impossible: negative or beyond any file) is refused without consuming space and one that fits well is not refused, and everything is found after reopening. A limit too small for a pool is refused and the file left as it was; an existing pool keeps its own limit whatever limit is asked for. Several pools open at once stay independent however their writes, growth, destruction and recreation interleave.",
     ["histories", "interleavings"], "15x15 alternating value sizes x 6 pool limits x 4 creation paths, each until three refusals; 16 creators x 157 impossible or extreme sizes x 4 limits x 3 fill states; 24 limits from negative to 256 kB over 6 states of the file, then filled; all sequences of 5 (thorough 6) of {write, big write, destroy/recreate} x 3 plugins",
     "tests never fill a pool nor open more than one",
     BWF, [("BW_plugin::makeSpace, BW_pool::allocate/allocate8/new_element", "src/bin_write_plugin.cpp"), ("BW_plugins registry", "src/bin_write_plugin.cpp")],
     state=[("allocator, allocator_limit, file_size, mmap_size", "allocation bounds", "include/binary_xml/bin_write_plugin.h")], observe=["tag*/attr* results", "file size", "reopened content"],
     technique=SEQ, level="model_checking", drivers=["bw"], note="For creators of the plugin and attributes 'fits well' means 24 kB plus twice the value size are left (they keep a reserve, what happens between that and the limit is left open); elements made directly in the pool fit as long as 32 bytes are left beside them. Single threaded interleavings: the library takes no locks.",
     rule="a case is a pair of sizes with limit and path, or a sequence over three plugins; non-trivial: a filled pool or sequence whose whole content was compared", assumptions=TRUST)

prop("C13", "The symbol dictionary of a write pool is a consistent name-id-type map",
     "Whatever registrations (by name or by consecutive id), type extensions, alterTag/alterAttr, Clear, data writes and allRegistered calls are mixed, tags and attributes keep dense ids in order of first registration, each name is found at exactly its id, an unregistered name is never found, types follow the join of all registrations, a registration that cannot be kept (id used for another symbol, gap in ids, no id left, no name, a type that does not exist) is refused and changes nothing, and lookups agree before and after indexing, for any number and length of symbols.",
     ["histories", "inputs"], "all sequences of 25 operations up to length 5 (thorough 6); 61 dictionary sizes 1..2000 (thorough 6000) around every byte boundary x 3 name length patterns x 2 registration styles, then extended, cleared and extended again; as many symbols as there are ids (32768); 5 names x 16 types out of range x 10 ids at 5 stages of the pool with up to 3 symbols",
     "tests register a few symbols once, in one order",
     BWF, [("BW_symbol_table_16B::getByName/getName/getType/getNamesSize/Open", "src/bin_write_plugin.cpp"), ("BW_plugin::registerTag/registerParam/registerAttr/alterTag/alterAttr/Clear/allRegistered, BW_pool::makeTable", "src/bin_write_plugin.cpp")],
     observe=["getSymbol", "getSymbolCount", "getByName", "getName", "getType"], technique=SEQ, level="model_checking", drivers=["bw"],
     note="2.3 million states in the quick tier. Types joined are judged with the library's own XBT_JoinTypes, whose laws are C11.",
     rule="a case is a pair of first operations (all extensions are explored in it) or a dictionary size; non-trivial: a state whose whole dictionary was compared with the model", assumptions=TRUST, hang=60)

DOCQ = "49x49 pairs of texts in 6 arrangements (same/different tag, same/different attribute, value with child); all ordered trees of up to 5 (thorough 6) elements with 8 kinds of elements at every node; all triples of 38 names (prefixes of each other, different case, accents, names the format reserves) in a document; 9 document dimensions (children, tags, attributes, depth, name length, repeats) in 36 sizes up to 20000; 38 documents at the limits of the format (32765 to 40000 different names, 150 to 3000 levels); names equal up to a prefix of 58 lengths (to 49000); all text lengths up to 1200 (thorough 9000)"
DOCT = ["libxml2 reads the source documents and the written XML (it is part of the product)", "the meaning of a text is judged by an independent exact decimal/hexadecimal/date comparison (harness/sem.h) together with the library's own codec, which C10 and C11 check"]

prop("C01", "XML converted to .xb reads back as the same document through every interface",
     "Converting any XML document to .xb succeeds, and the reader returns the same elements, attributes, values and order through every interface: by index, by name, iterators and recursive visitors, strings, chunks of any size, typed getters, raw data, symbol tables and the XML stream, which is well formed and denotes the same document again. The value of an element is its first text that is not blank, whatever mixture of plain text, CDATA, entities, references and comments writes it; no value loses or gains information by being stored in a type; an element of a namespace keeps it as attribute xmlns. Every way to ask for a conversion (creator, packer, static functions, GetXB, opening a source with XB_reader; any supported source and any form of names) makes the same file in the denoted place, with a header that names the source and its time, and leaves the source alone; unknown kinds of sources are refused.",
     ["inputs"], DOCQ + "; all sequences of 3 pieces out of 15 (element content, with entities that contain elements) and 9 (attribute) ways of writing text; all trees of up to 4 (thorough 5) elements with 6 ways of being in a namespace; 15 entry points (two of them convert a source that changes in between) x 11 extensions x 6 source x 11 destination names (up to 1800 characters)",
     "the tests convert a handful of files and compare the printed XML; most combinations of types in a column, sizes and text forms never occur in them",
     ["src/bin_xml_creator.cpp", "src/bin_xml_plugin.cpp", "src/bin_xml.cpp", "src/bin_xml_types.cpp"],
     [("Bin_xml_creator::Make_xb, MakeSymbolTable, WriteNode, XStoreParamsEvent", "src/bin_xml_creator.cpp"), ("Bin_xml_plugin", "src/bin_xml_plugin.cpp"), ("XML_Item, XML_Param_Description, XB_reader", "src/bin_xml.cpp"), ("Bin_src_plugin_selector, Bin_xml_packer::Convert, GetXB", "src/bin_xml_packer.cpp")],
     observe=["XB_reader", "XML_Item", "XML_Param_Description", "operator<<", "directory contents"], technique=ENUM, drivers=["conv"],
     note="Complete for the stated families. Prefixed attributes, prefixes that are declared but not used, element values that start with blanks (leading blanks are formatting) and documents with several separate texts per element (one value per element is the documented format) are outside.",
     rule="a case is a document (a whole block of 64 labelled trees in the tree space); non-trivial: a document that was converted and compared completely with the model through every interface", assumptions=TRUST + DOCT, hang=60)

prop("C02", "Packing changes only the size: same document, no equal subtree stored twice",
     "The packed .xb of any document is never bigger than the unpacked one and reads back as the same document through every reader interface, with correctly aligned values, and its XML text is identical. Equal subtrees are stored once (8-byte values may need two copies, one for each alignment), however they are nested, repeated or separated.",
     ["inputs"], DOCQ + "; all combinations of two 8-kind labels in repeated groups with one-place differences, at 9 alignments and 4 repetition patterns; subtrees of 36 sizes up to 20000 elements or bytes, equal or different in exactly one place (7 kinds of shape, 4 places, 3 orders); 2400 pairs of different elements whose hashes agree in one of their words",
     "the tests compare the printed text of a few packed files; merging faults depend on equal or nearly equal subtrees at particular offsets",
     ["src/bin_xml_packer.cpp", "src/bin_xml_creator.cpp", "src/bin_xml.cpp"],
     [("Bin_xml_packer::Pack, XML_Hash", "src/bin_xml_packer.cpp"), ("ForAllChildrenRecursively_PostOrder(A)", "src/bin_xml.cpp")],
     observe=["XB_reader", "file size", "element addresses"], technique=ENUM, drivers=["conv"],
     note="Complete for the stated families. Subtree equality is computed independently from names, types and bytes read through the public interface.",
     rule="a case is a document (a whole block of 64 labelled trees in the tree space); non-trivial: a document packed, compared with the model and searched for equal subtrees", assumptions=TRUST + DOCT, hang=60)

prop("C03", "XML converted to .xbw is the same document, and so is its .xb",
     "Converting any XML document to .xbw succeeds and gives a write-pool file with the same elements, attributes, values and order, each value in a type that holds it exactly and that agrees with its symbol; the XML written from it denotes the same document, and converting the .xbw file to .xb gives again the same document through every reader interface.",
     ["inputs"], DOCQ, "the tests convert two small files to .xbw; column types, sizes and growth of the pool vary only with the document",
     ["src/bin_xml_creator.cpp", "src/bin_write_plugin.cpp", "src/bin_xml_types.cpp"],
     [("Bin_xml_creator::Make_xbw, XStore2XBWEvent", "src/bin_xml_creator.cpp"), ("BW_plugin::registerTag/registerAttr, new_element", "src/bin_write_plugin.cpp")],
     observe=["BW_plugin traversal", "operator<<", "XB_reader"], technique=ENUM, drivers=["conv"],
     note="Complete for the stated families (same exclusions as C01).",
     rule="a case is a document (a whole block of 64 labelled trees in the tree space); non-trivial: a document converted, compared in the pool, as XML and after conversion to .xb", assumptions=TRUST + DOCT, hang=60)

prop("C05", "Write-pool documents convert to .xb bit for bit for every value type",
     "Any document built in a write pool - values and attributes of all 22 types, any lengths of variable sized values, reserved symbol names included - converts to .xb, packed or not, from the open pool or from the closed .xbw file, and the reader returns every element and attribute in order with the same type and the same bytes, properly aligned; all routes and the pool itself write the same XML. A tree of over 4096 levels or an element with over 32767 attributes may be refused, but never crashes or gives another document.",
     ["inputs"], "22^3 combinations of types of value, attribute and second attribute with rotating child types and 2 values each (thorough 22^4); 4x4 variable sized types x all lengths up to 200 (thorough 2000) in five positions; all trees of up to 4 (thorough 5) elements with 8 kinds of elements x 4 sets of types; up to 3000 children or attributes of each type; 22 numbers of children or attributes up to 70000 (thorough 300000), over 32767 attributes may be refused; reserved tags and attributes of all kinds in pools with and without other names; chains of up to 20000 (thorough 65536) levels on 5 routes",
     "the tests convert one or two write-pool files; layout faults depend on the neighbouring types, lengths and alignment",
     ["src/bin_xml_creator.cpp", "src/bin_write_plugin.cpp", "src/bin_xml_types.cpp", "src/bin_xml_packer.cpp"],
     [("Bin_xml_creator::CopySymbolTable, WriteNode, XStoreBinParamsEvent", "src/bin_xml_creator.cpp"), ("XBT_Copy, XBT_Size2, XBT_Align", "src/bin_xml_types.cpp"), ("BW_plugin as Bin_src_plugin", "src/bin_write_plugin.cpp")],
     observe=["XML_Item::getData", "XML_Param_Description::getData", "operator<<"], technique=ENUM, drivers=["typed"],
     note="Complete for the stated families; IPv6 has no codec in the library and is left out.",
     rule="a case is a typed document; non-trivial: converted over three routes and compared with the model in type, bytes, alignment and text", assumptions=TRUST)

prop("C08", "The open-ended .xb log reads back exactly the records completely written",
     "Elements appended (Write of single elements and of joined lists, with Clear in between) to a document that ends with et-tecera are read back, through getNextChild and in the XML text, exactly and in order behind the document's own elements, as if they had been written there originally. If the file ends at any byte of what was appended, or zeros follow that point, exactly the records completely present before it are read and the rest is ignored without harm. An append that cannot be done (no document, .xbw target, tag or attribute unknown to the document) is refused and leaves the file as it was; nothing written before is ever changed, and neither are the elements in the pool.",
     ["histories", "crash_points"], "all sequences of up to 3 (thorough 4) operations out of 9 (six kinds of records, a list of four, Clear, a list of two written twice) on 4 documents, packed or not; for each sequence up to length 2 (thorough 4) every crash point in the appended part, with every zero filled tail of 1 to 40 bytes at record boundaries; records of all lengths 0..47 before every kind of record; records of up to 1 MB (also of up to 40000 empty elements)",
     "the tests append nothing; a torn record, a record bigger than the document or a wrong alignment phase needs a particular history and crash point",
     ["src/bin_xml_creator.cpp", "src/bin_xml.cpp", "src/bin_write_plugin.cpp"],
     [("Bin_xml_creator::Append, WriteNode", "src/bin_xml_creator.cpp"), ("BW_plugin::Write, BW_plugin::Clear", "src/bin_write_plugin.cpp"), ("XML_Item::getNextChild, XML_Item::Check", "src/bin_xml.cpp")],
     state=[("the .xb file", "document of doc->length bytes followed by aligned records", "include/binary_xml/bin_xml.h")],
     observe=["XML_Item::getNextChild", "operator<<", "bytes of the file"], technique=SEQ, level="model_checking", drivers=["reader"],
     note="Crash points are byte prefixes of the file (each append is one contiguous write at the end, which is checked: earlier bytes never change). Loss of earlier blocks after a power failure is outside the model.",
     rule="a case is a history of operations; non-trivial: a history, crash point or zero filled tail opened with the real reader and compared with the model", assumptions=TRUST + ["files are mapped into heap blocks of exactly their size, so that reads behind the end of file are seen"], hang=60)

prop("C09", "XB_reader refuses or safely reads any damaged file",
     "Whatever the bytes of a .xb file are, XB_reader::Initialize ends and returns true or false; it never crashes, aborts, exits or hangs. A document shorter than its own length is refused. If a file is accepted, every element, attribute, value, symbol and appended record reachable from its root can be read through every accessor, visitor and XML output without any access outside the file, and iterating children ends, however deep the elements are nested. A reader that is not open (not yet opened, refused, closed) has no root and resolves no pointers, and can be opened again with another file.",
     ["inputs"], "for 5 documents (minimal, packed with shared elements, two with values and attributes of all 22 types, an appended log): every truncation with 6 kinds of tails, every value of every byte, 348 values of every 16 bit field, over 350 boundary, size and offset values of every 32 bit word, and every pair of words with 14x14 (thorough 30x30) values; the same bytes, words and pairs inside of each childless element and symbol table moved to the very end of the file, whole or cut by 1 to 3 bytes; 7 shapes of elements nested up to 1 million levels, shared or not; 4396 foreign headers",
     "the tests open no damaged file; each unchecked field shows only for particular wrong values",
     ["src/bin_xml.cpp", "include/binary_xml/bin_xml.h"],
     [("XB_reader::Initialize", "src/bin_xml.cpp"), ("XML_Item::Check", "src/bin_xml.cpp"), ("_XB_symbol_table::Load", "src/bin_xml.cpp"), ("XML_Item / XML_Param_Description getters", "src/bin_xml.cpp")],
     observe=["XB_reader::Initialize", "XML_Item getters", "operator<<"], technique=ENUM, drivers=["reader"],
     note="Complete for the stated damage of the 5 documents. Documents whose elements share children so that their expansion is over 3000 elements are read element by element but not printed.",
     rule="a case is a document and a place in it (all values are tried there); non-trivial: a damaged file opened and, when accepted, read completely", assumptions=TRUST + ["files are mapped into heap blocks of exactly their size, so that reads behind the end of file are seen"], hang=120)

prop("C17", "Copying by path and keys builds exactly the addressed part of a document",
     "After a write pool imports the symbols of a .xb document (each name keeps exactly one id, also for names registered before or after), any sequence of CopyPath and CopyPathOnly calls builds exactly this: at each step of the path the first child with the same tag and equal key attributes is reused, otherwise one is created with the key attributes only; the last element, if it did not exist yet, is copied whole - value, attributes and all descendants in order, with the same types and bytes - or with its keys only (CopyPathOnly); elements that exist already stay unchanged; another root element is refused without any change; the element returned is the last one of the path. It works the same inside a transaction element. Values of a symbol whose stored types differ in the source are stored in the type registered in the pool, with the same meaning; in variant symbols each keeps its own type; a missing value stays missing. EqualKeys, findChildByTag, findChildByParam, findAttr and findAttrInt32 answer exactly by tag, key attributes and value, in document order.",
     ["histories", "inputs"], "all source trees of up to 4 (thorough 5) elements with 8 kinds of elements (equal keys with other content, other tag, other order, more keys, no keys), all pairs (for up to 4 elements all triples) of calls with any path, into an empty pool and into a transaction; all pairs of sources of up to 3 and 2 (thorough 3) elements with 3 kinds of roots and all paths in each; all lookups in the results; 718 combinations of key and value types with and without conversion from text; 1 to 40 (thorough 200) keys; 216 orders of import and registration; sources whose root is itself a transaction; all lists of up to 3 children with 8 kinds of attributes (also repeated ones) for findChildByParam; texts of 16 lengths up to 20 MB as key and value; documents with two values out of 49 texts of all types in 6 arrangements converted from XML (packed or not), copied into pools without and with symbols registered before as text or variant",
     "the tests never copy from a reader; which element a step reuses depends on combinations of tags, keys and earlier calls",
     ["src/bin_write_plugin.cpp", "src/bin_xml_types.cpp"],
     [("BW_plugin::CopyPath, CopyPathOnly, CopyPath_, CopyAll, tagData", "src/bin_write_plugin.cpp"), ("BW_element::EqualKeys, CopyKeys, attrCopy, attrData, findChildByTag, findChildByParam, findAttr", "src/bin_write_plugin.cpp"), ("BW_plugin::importTags, importParams, registerTag, registerParam", "src/bin_write_plugin.cpp"), ("XBT_Equal, XBT_Compare", "src/bin_xml_types.cpp")],
     state=[("pool tree", "elements reachable from the root of the pool", "include/binary_xml/bin_write_plugin.h")],
     observe=["BW_plugin traversal", "XB_reader"], technique=SEQ, level="model_checking", drivers=["keys", "bw", "conv"],
     note="Complete for the stated trees and call sequences; after every call the whole pool is compared with the model.",
     rule="a case is a source document (or a pair) with all call sequences; non-trivial: all sequences executed and the pool compared after each call", assumptions=TRUST, hang=60)

prop("C14", "JSON is converted to the tree it describes; other texts do no harm",
     "Every JSON text (RFC 8259, up to 1000 levels) is read by the JSON source plugin and converted to .xb (packed or not), .xbw and from there to .xb, opened directly by the reader, and written as XML, always as the same tree: the root without name; every member of an object a child named by its key; every item of an array under key K a child named K without its final 's' or 'List', otherwise K+'Item'; items of a nested array named __ARRAY_ITEM_NAME__ and items of a root array without name; strings and primitives as values with all escape sequences decoded (\\u0000 and halves of surrogate pairs stay escaped); order and repetition kept. Names are valid together with values. Conversion can be repeated. A text that is not JSON is refused or accepted - the same by the plugin and by all conversions - without any crash, abort, exit, hang or access outside its memory.",
     ["inputs"], "all documents of up to 4 (thorough 5) values with 7 (8) kinds of leaves, objects and arrays, and 4 keys for each member; all sequences of up to 3 (4) of 27 characters and escape sequences as value, key, array key and item; all array keys of up to 6 (7) letters of 'List' and another letter; all texts of up to 5 (6) bytes over 12 characters; all sequences of up to 6 (7) of 10 tokens; every truncation, removal, replacement and insertion of a byte in 7 documents (thorough: every pair of replaced bytes in two of them); 40 sizes in 12 dimensions (depth to 8193, 50000 items, empty items, keys, long strings and names, escapes); 10 texts ending at every offset around a page boundary",
     "the test suite converts no JSON at all; wrong names, lost escapes and crashes need particular combinations or malformed texts",
     ["src/bin_json_plugin.cpp", "src/jsmn/jsmn.c", "src/bin_xml_creator.cpp", "src/bin_xml.cpp"],
     [("Bin_json_plugin::Initialize, jsmn_prepare_total_size", "src/bin_json_plugin.cpp"), ("Bin_json_plugin::getNodeName, getNodeValue, ForAllChildren, ForAllChildrenRecursively, json_unescape", "src/bin_json_plugin.cpp"), ("jsmn_parse", "src/jsmn/jsmn.c"), ("Bin_src_plugin operator<<", "src/bin_xml_creator.cpp")],
     observe=["Bin_src_plugin traversal", "XB_reader", "BW_plugin traversal", "operator<<"], technique=ENUM, drivers=["json"],
     note="The expected tree comes from an independent strict JSON parser. Texts which are not JSON but which the lenient parser of the product accepts are only required to be handled without harm.",
     rule="a case is a text (or a block of 64 or 256 texts); non-trivial: a valid JSON text whose tree was compared through every interface", assumptions=TRUST, hang=60)

prop("C15", "A process killed at any point leaves no wrong document behind",
     "A conversion killed at any system call, at any byte of any write or while it reads its source leaves a target which is missing, refused, without a document, still exactly the older file, or exactly the new document. A write pool killed between any two steps of its use, before or after any growth of its file, reopens with exactly the document built so far, accepts its dictionary, can be extended and reopened again. A log killed at any byte of an append keeps every record written before; the last one is there as a whole or not at all.",
     ["crash_points", "histories"], "9 documents x 5 kinds of older target x {.xb, packed .xb, .xbw}, every byte prefix of every write, every call and every source callback; all histories of up to 5 (thorough 6) of 11 pool operations, every step and both sides of every ftruncate of the last; all logs of up to 3 (thorough 4) of 6 kinds of records, every byte of every append",
     "tests never kill a process; the damaged file exists only at the crash point and is judged by what the reader and a reopened pool make of it",
     ["src/bin_xml_creator.cpp", "src/bin_write_plugin.cpp", "src/bin_xml.cpp"],
     [("Bin_xml_creator::Make_xb, Make_xbw, Append, write_all", "src/bin_xml_creator.cpp"), ("BW_plugin::makeSpace, CheckExistingFile, Clear, BW_element operations", "src/bin_write_plugin.cpp"), ("XB_reader::Initialize, XML_Item::getNextChild, Check", "src/bin_xml.cpp")],
     state=[("target file", "its bytes at the crash point", "src/bin_xml_creator.cpp"), ("BW_pool header", "file_size, allocator_limit, allocator, root", "include/binary_xml/bin_write_plugin.h")], observe=["XB_reader::Initialize and traversal", "BW_plugin::Initialize and traversal", "registerTag/registerAttr/allRegistered after reopening"],
     technique="crash point enumeration on the real code: system calls and source callbacks are intercepted, the file image of every crash point (each byte prefix of each write included) is opened by the real reader or pool and compared with the model of the history", level="model_checking", drivers=["crash"],
     note="A crash is the death of the process: what was stored is kept. Power failures (reordered or lost pages) and the points between two machine stores inside of one pool operation are not covered; neither is a pool killed before its first allRegistered, nor the text XML/JSON outputs.",
     rule="a case is a document with older target, a history or a log; non-trivial: every image of a crash point is opened and compared", assumptions=TRUST + ["stores to a mapped pool are in the file when the process dies (the page cache outlives it)"], hang=60)

prop("C16", "I/O failures are reported and never give a wrong result",
     "Whichever system calls fail or are cut short while a document is converted (XML, JSON, .xbw to .xb, packed .xb and .xbw), opened by the reader, built, reopened or extended in a write pool, appended to a log, or a file is read, shared, hashed, written or a directory scanned or created through the utilities: the operation either reports the failure or its result is complete and exact. The process never ends, crashes or hangs. After a reported failure the target is missing, refused, the older document or exactly the new one; a failed step of a write pool leaves the pool as it was; a failed append leaves the log as it was when the truncation works; the operation can be repeated on the same object and then succeeds exactly. No descriptor, mapping, stream, directory or memory block is leaked or released twice.",
     ["fault_sequences"], "19 scenarios of 5 to 70 system calls (open, creat, read, write, close, ftruncate, mmap, munmap, stat, fstat, mkdir, fopen, vfprintf, fclose, opendir, readdir); all schedules of up to 3 (thorough 5) faults - error, for read and write also half or one byte - at any calls, including those of the retries; and disk full from every call on; every first failing call with 4 other error codes and one (thorough two) more faults",
     "the tests run with a healthy disk only; a wrong result needs a particular call to fail, often together with a retry",
     ["src/bin_xml_creator.cpp", "src/bin_write_plugin.cpp", "src/bin_xml.cpp", "src/bin_json_plugin.cpp", "src/bin_xml_plugin.cpp", "src/utils.cpp", "src/files.cpp", "src/missings.cpp"],
     [("Bin_xml_creator::Make_xb, Make_xbw, Append, write_all", "src/bin_xml_creator.cpp"), ("BW_plugin::Initialize, Finalize, makeSpace, Write", "src/bin_write_plugin.cpp"), ("XB_reader::Initialize, Finalize", "src/bin_xml.cpp"), ("ReadFile, WriteToFile, ShareFileRO, ShareFileRW", "src/utils.cpp"), ("file_get_contents, scan_dir", "src/files.cpp")],
     state=[("open resources", "descriptors, mappings, streams, directories and blocks held by the library", "src/utils.cpp")],
     observe=["return values", "bytes of files", "XB_reader", "BW_plugin traversal", "wrapped system calls"], technique="stateless exploration of the real code under a fault injecting system call layer: every call is a choice point, all schedules with a bounded number of faults are executed by depth first search", level="model_checking", drivers=["fault"],
     note="The XML file itself is read inside of libxml2, whose calls are not intercepted. Failures of memory allocation are not injected. A failing close() has stored the data.",
     rule="a case is a scenario with its first fault and a part of the positions of the second; non-trivial: every execution (a schedule) is checked", assumptions=TRUST + ["a failing call has no effect; a failing close or fclose releases the descriptor"], hang=60)

prop("C20", "Scanning, matching and file-name utilities are exact for every input",
     "The number scanners (ScanInt, ScanInt64, ScanUInt64, hexadecimal and the W variants, GetInt, GetVersion) read exactly the longest number at the cursor, advance exactly behind it and refuse text without a number or out of range; Int64ToStr prints every value. The cursor functions (SkipSpaces, SkipLine, Go, Have, ScanStr, GetIdentLen, EatEnd, streq) and MakeIdent, StrWrite never leave the text or the destination and do exactly what they denote. AdvEqual matches a mask with * and ? exactly when the text has that form. AllocFilenameChangeExt replaces exactly the extension of the last component and the directory, for names of any length; force_directory creates exactly the directories of the path, scan_dir reports every visible entry once until stopped, and ReadFile, file_get_contents, ShareFile*, WriteToFile and the size functions give exactly the bytes of the file for every size.",
     ["inputs"], "all texts of up to 6 (thorough 7) of 12 characters for numbers, 8 for cursor functions, 7 (8) for identifiers; all numbers within 20 of 15 powers of two with 6 prefixes and 8 suffixes; all masks of up to 6 (7) of 4 characters against all texts of up to 6 (7) of 3; all space, length and limit combinations of StrWrite up to 8; all file names of up to 3 of 8 components with 5 prefixes, 5 extensions and 4 directories; all paths of up to 4 components over 7 states of the directory (files, links and dangling links in the way among them), given from the scratch directory, relative to the working directory and absolute; all subsets of 7 names and stops, also with a callback that changes errno; 8 modification times; all file sizes up to 9000 (thorough 100000)",
     "the tests use these functions on a few ordinary texts; faults sit at empty ends, limits of types, missing extensions, dots in directories",
     ["src/utils.cpp", "src/files.cpp", "include/binary_xml/utils.h"],
     [("ScanInt, ScanInt64, ScanUInt64, ScanUInt64Hex, GetInt, GetVersion, Int64ToStr", "src/utils.cpp"), ("SkipSpaces, SkipLine, Go, Have, ScanStr, EatEnd, MakeIdent, StrWrite, AdvEqual", "src/utils.cpp"), ("AllocFilenameChangeExt, ReadFile, ShareFileRO, ShareFileRW, WriteToFile", "src/utils.cpp"), ("force_directory, scan_dir, file_get_contents", "src/files.cpp")],
     observe=["return values", "cursor positions", "destination buffers", "files and directories"], technique=ENUM, drivers=["text"],
     note="Complete for the stated alphabets and lengths; longer texts only around the limits of types and buffers.",
     rule="a case is a text, a mask with all texts, a file name, a directory state or a file size; non-trivial: results of all functions compared with the reference", assumptions=TRUST)
