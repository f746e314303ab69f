#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (edit here, then run)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mech, observe=(), hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a['observe_at'] = list(observe)
    if hook:
        a['hook_needed'] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

prop('P01', 'A saved reflection database loads back as the same graph',
 'Saving any reflection database whose root is its first user declaration and loading the image, through memory or through a file, gives back exactly the same graph: every declaration with its kind, properties, name, quantity, sibling, child and attribute references and the root. '
 'The image is exactly as long as the reported size, has the documented layout (header, declaration records without the builtin types, name table), and saving the loaded graph again gives the same bytes. '
 'Saving into a buffer smaller than the reported size fails and writes nothing past that buffer.',
 ['inputs', 'histories'], 'all declaration graphs (any sizes, reference patterns, field values and names), all buffer capacities, and graphs extended after loading',
 'The tests read two files that the plugin wrote and dump them; they never compare a loaded graph with the saved one, and the graphs do not cover growth boundaries, extreme field values or short buffers.',
 ['src/db.cc', 'src/model.cc', 'include/crefl/db.h', 'include/crefl/util.h'],
 [('builtin elision and record/name copy', 'src/db.cc crefl_db_write_mem, crefl_db_read_mem'), ('size computation', 'src/db.cc crefl_db_size'), ('file wrappers', 'src/db.cc crefl_db_read_file, crefl_db_write_file')])

prop('P02', 'A damaged reflection image is rejected without harm',
 'Loading any byte string as a reflection image never reads outside the given bytes and never crashes. '
 'It succeeds only when header, records and names lie completely inside the input, every reference of every declaration names a declaration that exists, and every name is a terminated string inside the name table; then all accessors stay in bounds. '
 'Otherwise it reports failure and the database is left exactly as it was.',
 ['inputs', 'fault_sequences'], 'all truncations and all corruptions of header fields, record fields and name bytes of well-formed images',
 'No test loads a malformed image; truncation points and field corruptions are a product space that examples do not cover.',
 ['src/db.cc'], [('magic, size, builtin and bounds checks', 'src/db.cc crefl_db_read_mem')])

prop('P03', 'File save and load report every I/O failure',
 'Saving a database to a file reports success only if the file then holds the complete image, whatever point the storage fails at, and replaces any previous longer content. '
 'Loading reports failure for a missing, unreadable, non-regular or truncated file. '
 'Neither operation leaks a file descriptor, on success or on failure.',
 ['fault_sequences', 'crash_points', 'inputs'], 'all byte positions at which the storage stops accepting data, all truncation lengths, and the kinds of unusable path',
 'The tests only run on healthy disks with complete files; failure positions must be enumerated.',
 ['src/db.cc', 'include/crefl/util.h'], [('file helpers', 'include/crefl/util.h crefl_read_file, crefl_write_file'), ('propagation', 'src/db.cc crefl_db_read_file, crefl_db_write_file')])

prop('P04', 'The reflection tool exits 0 only when it did its whole job',
 'The reflection command line tool exits 0 exactly when every input was read and validated and the complete output was written, and otherwise exits nonzero with a message on standard error. '
 'Emitted C source compiles and embeds byte for byte an image of the input, a merge of any number of inputs gives an archive of all of them in command line order, and statistics report the true record and byte counts. '
 'Inputs are never modified.',
 ['inputs', 'fault_sequences', 'configurations'], 'all tool modes, argument counts, valid and invalid inputs in each position, and all points at which output storage fails',
 'The runner ignores the exit status of the tool, and no test gives it a bad input, a full disk or compares emitted data.',
 ['tool/crefltool.cc', 'src/db.cc', 'src/link.cc', 'src/dump.cc'],
 [('mode dispatch', 'tool/crefltool.cc main'), ('emit', 'tool/crefltool.cc do_emit'), ('merge', 'tool/crefltool.cc do_merge')])

prop('P05', 'Adding declarations and names never disturbs what is stored',
 'Whatever sequence of additions of declarations and names, loads and saves is applied, and however the storage grows, every earlier declaration and name keeps its identity and value, a new declaration starts with only its kind set, and every name reads back as given, also when the name given is one the database or index itself holds. '
 'Databases, type indexes and buffers are independent: operations on one never change another, in any interleaving.',
 ['histories', 'inputs'], 'all operation sequences over two databases up to a depth, all name lengths and all counts across growth boundaries, from fresh and from loaded databases',
 'Tests build a few nodes at most and never cross a growth boundary at a chosen alignment or after a load.',
 ['src/model.cc', 'src/link.cc', 'src/db.cc'], [('node store growth', 'src/model.cc crefl_decl_new'), ('name store growth', 'src/model.cc crefl_name_new'), ('index growth', 'src/link.cc crefl_entry_ref, crefl_entry_name_new')])

prop('P06', 'List queries return the right declarations in order, within limits',
 'Every list query (constants, fields, parameters, source declarations, types, fields, functions, archive sources) reports the number of matching children, fills the caller array with the first of them in declaration order up to the stated capacity and touches nothing beyond, and fails without touching anything on the wrong kind of declaration. '
 'Scalar queries (kind predicates, names, typed accessors, constant value, function address, builtin type lookup) return the stored value for the right kind and the empty declaration or zero for any other.',
 ['inputs', 'programs'], 'all child lists over matching and non-matching kinds up to a length, all capacities and argument combinations, all kinds for every query',
 'Tests call a few queries on two fixed inputs with ample capacity.',
 ['src/model.cc', 'include/crefl/model.h'], [('filtered list walk', 'src/model.cc _decl_array_fetch'), ('typed accessors', 'src/model.cc crefl_*_type, crefl_*_constants, crefl_*_fields')])

prop('P07', 'Reported sizes and offsets match the C compiler',
 'For every C type built from builtin types, enumerations, pointers, typedefs, qualifiers, arrays, structures, unions and bit-fields without packing or alignment attributes, the reported width of the type, the offset of every field of a structure and the trailing total equal, in bits, the sizes and offsets of the platform C compiler (x86-64 System V). '
 'This holds both for graphs built through the API and for graphs the compiler plug-in extracts from source.',
 ['programs', 'inputs'], 'all type trees over the builtin types up to a bounded number of fields and nesting depth',
 'The tests print layouts but compare none; padding depends on the combination and order of member types.',
 ['src/model.cc', 'src/types.cc', 'src/reflect.cc'], [('padding rules', 'src/model.cc _align, _pad_align, _struct_pad, _union_pad, _array_pad, _type_pad'), ('offset query', 'src/model.cc crefl_struct_fields_offsets'), ('builtin widths', 'src/types.cc all_types')])

prop('P08', 'Type hashes identify declarations by content alone',
 'Two declarations get the same hash if and only if their whole content is the same: kind, name, properties, quantity, all attributes, and the hashes of the children and referenced types in order, where a reference back to an enclosing declaration counts by its kind and name. '
 'The hash does not depend on where the declaration is stored, what its ancestors or siblings are, or how often and in which order databases are indexed, and indexing terminates on recursive types. '
 'The qualified name recorded beside the hash is the path of names of the containers a declaration is declared in, below the source.',
 ['inputs', 'programs'], 'all small declaration graphs, all single-point changes of content, and all renumberings of the declarations',
 'The tests print hashes but assert nothing about equality or difference between graphs.',
 ['src/link.cc', 'src/sha256.cc'], [('template hash', 'src/link.cc crefl_hash_node_sum, crefl_node_hash'), ('recursion marking', 'src/link.cc crefl_entry_is_marked'), ('naming', 'src/link.cc crefl_node_name')])

prop('P09', 'Merging preserves every source and shares identical types',
 'Merging one or more databases gives an archive with all sources in order, and following aliases every merged source has the same declarations as its input, with the same kinds, names, properties, quantities, attributes, order and referenced types. '
 'Identical structures, unions, enumerations, sets and functions are stored once and later ones are aliases or direct references to them; type references never lead to an alias. '
 'Inputs are unchanged and the merged database can be saved, loaded, queried for layout and indexed like any other.',
 ['inputs', 'programs', 'histories'], 'all tuples of small source graphs with shared, conflicting and recursive declarations, in every order',
 'One merge command is documented and none is tested.',
 ['src/link.cc', 'include/crefl/hashmap.h'], [('copy or alias', 'src/link.cc crefl_copy_node'), ('archive', 'src/link.cc crefl_link_merge'), ('hash lookup', 'include/crefl/hashmap.h find, operator[]')])

prop('P10', 'The hash map behaves like a map under every operation sequence',
 'After any sequence of insertions, lookups, assignments through subscript, erasures, clears, copies and moves, with any pattern of hash collisions and any initial capacity, the hash map holds exactly the key and value pairs a mathematical map would hold. '
 'Its size, lookups, and iteration (each pair exactly once) agree with that map, also across growth and after erasures of colliding keys, and copies are independent. Room of erased keys is used again: erasing and inserting the same keys over and over does not make the map grow.',
 ['histories', 'inputs'], 'all operation sequences up to a depth over keys with every collision pattern, and all initial capacities',
 'No test uses the map directly, and the merge uses insertion and lookup only.',
 ['include/crefl/hashmap.h'], [('open addressing with tombstones', 'include/crefl/hashmap.h insert, operator[], find, erase'), ('growth', 'include/crefl/hashmap.h resize_internal'), ('iteration', 'include/crefl/hashmap.h iterator')])

prop('P11', 'Tag, identifier and length octets follow X.690 and round trip',
 'Encoding any tag number, identifier (class, constructed flag, number) or definite length writes exactly the octets X.690 prescribes in their shortest form, the announced encoded length equals the octets written, and decoding yields the same value and consumes exactly those octets. '
 'A value that does not fit, an encoding that is too long and an input that ends early are reported as errors.',
 ['inputs'], 'all classes, flags, and numbers and lengths at and around every octet boundary up to 64 bits, all truncations and capacities',
 'Tests use a few universal identifiers and lengths only; application and private classes and long forms are never used.',
 ['src/asn1.cc'], [('identifier octets', 'src/asn1.cc crefl_asn1_ber_ident_*'), ('length octets', 'src/asn1.cc crefl_asn1_ber_length_*'), ('base-128 tag', 'src/asn1.cc crefl_asn1_ber_tag_*')])

prop('P12', 'Integers encode minimally and round trip in both byte orders',
 'Signed 64-bit integers are encoded as the shortest two\'s complement content and unsigned ones as the shortest unsigned content, in big endian order (ASN.1) or the mirrored octets in little endian order, with announced length equal to written length, and every value reads back equal, alone or with its identifier and length. '
 'Content that is longer than needed but in range reads as its value, and empty or oversized content is an error.',
 ['inputs'], 'all values with up to a bounded number of significant bit runs including every boundary of every octet length, all content strings of bounded length, all lengths',
 'Tests round-trip a handful of constants and do not check the octets of negative or boundary values.',
 ['src/asn1.cc'], [('length', 'src/asn1.cc crefl_asn1_ber_integer_*_length'), ('octet loops', 'src/asn1.cc _crefl_asn1_ber_integer_*'), ('little endian', 'src/asn1.cc crefl_le_ber_integer_*')])

prop('P13', 'Real numbers round trip through ASN.1 REAL bit for bit',
 'Every double, including zeros of both signs, subnormals, infinities and NaN, encodes to valid X.690 REAL content (binary base 2 with odd mantissa, or the special codes) of exactly the announced length, and decodes to the same double, NaN to NaN. '
 'Decoding any other valid binary REAL content, whatever its base, scale factor or exponent form, gives its correctly computed value when a double can represent it, and out of range or malformed content is an error, never undefined behaviour.',
 ['inputs'], 'all exponents with all mantissas of bounded significant width, all special values, and all short content strings',
 'Tests cover nineteen decimal constants; subnormals, extreme exponents and foreign encodings are not reached.',
 ['src/asn1.cc'], [('content parts', 'src/asn1.cc f64_asn1_data_get'), ('reader', 'src/asn1.cc crefl_asn1_ber_real_f64_read'), ('writer', 'src/asn1.cc crefl_asn1_ber_real_f64_write')])

prop('P14', 'Object identifiers survive encoding and text form',
 'Every object identifier with 2 to 15 arcs that ASN.1 permits (first arc 0 to 2, second below 40 under 0 and 1) encodes to the X.690 octets, with announced length equal to written length, and decodes to the same arcs; formatting as dotted text and parsing gives the same arcs too. '
 'Malformed text (non-digits, empty arcs, a trailing dot, oversized arcs, too many arcs) and malformed octets are errors, a formatted string never exceeds the given capacity, and parsing reads only the given characters.',
 ['inputs'], 'all identifiers over arc values at every base-128 boundary up to the maximum count, all short texts over digits, dots and letters, all capacities, all short octet strings',
 'Tests use eleven strings, mostly under 1.x, and one binary round trip.',
 ['src/asn1.cc'], [('octets', 'src/asn1.cc crefl_asn1_ber_oid_*'), ('text', 'src/asn1.cc crefl_asn1_oid_to_string, crefl_asn1_oid_from_string')])

prop('P15', 'The identifier registry describes exactly the registered identifiers',
 'Looking up the encoded octets of an object identifier in the built-in registry returns the registered description for every entry of the published data file, and nothing for any identifier that is not registered, including prefixes, extensions and near misses of registered ones. '
 'The result depends only on the octets within the given length, and repeated or reordered lookups give the same answers. '
 'The table generator scripts/parse_oids.py turns any such data file into one row for each entry, with its octets, their number and its name, and into its dotted number.',
 ['inputs', 'histories'], 'all registered identifiers, all their proper prefixes, one-character extensions, deletions and substitutions, and lookup orders',
 'One test prints a few descriptions without asserting them.',
 ['src/oid.cc', 'data/oids.txt', 'scripts/parse_oids.py'], [('generated table', 'src/oid.cc'), ('generator', 'scripts/parse_oids.py decode_oid'), ('lookup', 'src/oid.cc crefl_asn1_oid_desc')])

prop('P16', 'Booleans, nulls and octet strings round trip within their bounds',
 'Booleans, nulls and octet strings of any length and content round trip with X.690 octets (a DER true is all ones, any non-zero BER octet reads as true, null has no content), and announced lengths equal written lengths. '
 'Content lengths that do not suit the type, and lengths larger than the remaining input or output, are errors; reading copies at most the caller\'s capacity, reports the full length and leaves the position after the value.',
 ['inputs'], 'all boolean octets, all octet string lengths across the length-form boundaries, all caller capacities, all declared lengths against all remaining sizes',
 'Tests cover one string and no short buffers or wrong lengths.',
 ['src/asn1.cc', 'include/crefl/buf.h'], [('octet string', 'src/asn1.cc crefl_asn1_ber_octets_*'), ('boolean', 'src/asn1.cc crefl_asn1_ber_boolean_*'), ('null', 'src/asn1.cc crefl_asn1_ber_null_*')])

prop('P17', 'Variable-length floats are exact, minimal and read across precisions',
 'Every single and every double precision value written in the variable-length float format reads back bit for bit (NaN as NaN), and the bytes are the shortest form the format document defines, the inline byte where one exists. '
 'A reader of the other precision gets the same value when it can represent it, a value with excess precision truncated towards zero (below its range to signed zero) and a value above its range as signed infinity, and no valid encoding makes a reader fail or misread.',
 ['inputs'], 'all 2^32 single precision patterns (thorough), all exponents by bounded mantissa shapes for doubles, all encodings with short mantissa and exponent, both readers',
 'The random test samples 2^20 values at one precision with a fixed seed and never crosses precisions or checks minimality.',
 ['src/asn1.cc', 'docs/vf128.md'], [('writers', 'src/asn1.cc crefl_vf_f64_write, crefl_vf_f32_write'), ('readers', 'src/asn1.cc crefl_vf_f64_read, crefl_vf_f32_read')])

prop('P18', 'Variable-length integers round trip in their shortest form',
 'Every value the LEB128 format and the length-prefixed format can hold (up to 56 bits each) is written in its shortest form and reads back equal, consuming exactly the bytes written, wherever it lies in the buffer. '
 'Values too large for the format, truncated input and overlong runs of continuation bytes are errors.',
 ['inputs'], 'all values with bounded bit-run structure including every length boundary, all offsets and remaining sizes, all continuation patterns up to the maximum length',
 'Tests use a few constants in an ample buffer.',
 ['src/asn1.cc'], [('LEB128', 'src/asn1.cc crefl_leb_u64_*'), ('length-prefixed', 'src/asn1.cc crefl_vlu_u64_*')])

prop('P19', 'No input makes a decoder read out of bounds or misreport',
 'Every decoder, applied to any bytes with any declared content length, returns success or failure without reading outside the buffer or running into undefined behaviour, and never moves the read position past the end of the buffer. '
 'It succeeds only if all bytes it needed were present, so that no proper prefix of the bytes a successful call consumed is accepted with the same result; a decoder for one type rejects the encoded identifier of another type.',
 ['inputs', 'fault_sequences'], 'all byte strings up to a length over an alphabet that includes every control byte, all declared lengths, all truncation points of valid encodings, all decoders',
 'Tests only decode what the library has just encoded.',
 ['src/asn1.cc', 'include/crefl/buf.h'], [('capacity checks', 'include/crefl/buf.h crefl_buf_read_*, crefl_buf_remaining'), ('decoders', 'src/asn1.cc *_read')])

prop('P20', 'No encoder writes past the end of the output buffer',
 'Every encoder given an output buffer of any capacity and position either writes its complete encoding and reports success, or reports failure. '
 'It never writes outside the buffer, it succeeds whenever the remaining capacity is at least the encoded length and fails whenever it is less, and the encoding does not depend on position or spare capacity.',
 ['inputs', 'fault_sequences'], 'all encoders, representative values of every encoded length, all capacities from zero to beyond the encoded length, all start positions',
 'Tests always encode into an ample buffer.',
 ['src/asn1.cc', 'include/crefl/buf.h'], [('capacity checks', 'include/crefl/buf.h crefl_buf_write_*, crefl_buf_check_capacity'), ('encoders', 'src/asn1.cc *_write')])

prop('P21', 'By-value entry points agree with the by-pointer ones',
 'Every codec function offered in a by-value form behaves exactly as its by-pointer form: same bytes written, same value and same success or failure on every input, same buffer position afterwards. '
 'Every function and object the public C headers declare can be linked and used as declared, from C and from C++, with headers included in several files of one program.',
 ['inputs', 'programs'], 'all by-value functions over the value and byte string spaces of the codecs, and all functions declared in the public headers',
 'The benchmark calls some by-value functions without comparing, and several declared functions are called by no program.',
 ['src/asn1.cc', 'include/crefl/asn1.h', 'include/crefl/model.h', 'include/crefl/link.h', 'include/crefl/dump.h'], [('by-value codecs', 'src/asn1.cc *_byval')])

prop('P22', 'Digests are SHA-224 and SHA-256 for every message and chunking',
 'For every message, however it is split into updates, including empty ones, the digest is the SHA-224 or SHA-256 digest of the concatenation as FIPS 180-4 defines it. '
 'Independent contexts do not affect each other and input is never modified.',
 ['inputs', 'histories'], 'all message lengths across several block boundaries, all splits of short messages into chunks around block boundaries, interleaved contexts',
 'Test vectors cover a few messages given in one piece.',
 ['src/sha256.cc', 'include/crefl/sha256.h'], [('block buffering', 'src/sha256.cc sha256_update'), ('padding', 'src/sha256.cc sha256_final')])

prop('P23', 'The compiler plug-in records the declarations of the source faithfully',
 'For every C translation unit the compiler accepts, within the types the model can express, the reflection output contains every top-level structure, union, enumeration, typedef, variable and function in source order, with its name, its members, constants with values, parameters and return type in order, its type structure (qualifiers, pointers, arrays with bounds, builtin types, bit-field widths) and its reflection attributes with their values. '
 'References resolve to the declaration they mean, and the same source always gives the same bytes. '
 'The same holds for C++ units of classes with data members, methods, static members, nested types and friends, also inside namespaces and linkage blocks: each declaration appears once, under the declaration that contains it.',
 ['programs'], 'all small C programs from a grammar of declarations: type constructors to a depth, members, forward references, attributes, storage classes',
 'The input headers are only run through the plugin and dumped; no test compares the graph with the source.',
 ['src/reflect.cc'], [('declaration visitor', 'src/reflect.cc VisitDecl and handlers'), ('type construction', 'src/reflect.cc create_* and type visitor'), ('attributes', 'src/reflect.cc create_attributes')])

prop('P24', 'A dump shows every declaration with its true fields',
 'Dumping a database with user declarations prints, in every format, a header and then exactly one row per user declaration, in order, whose columns give its number, attribute, sibling and child references, kind, name, properties, referenced type and, where the format has them, the hash and qualified name. '
 'Columns keep their width, text that does not fit is cut and marked, properties are all and only those set, and dumping changes neither the database nor later dumps.',
 ['inputs', 'configurations'], 'all formats, all kinds, all single properties and pairs, all names across the column widths, dump sequences over several databases',
 'Tests dump to the terminal and check nothing.',
 ['src/dump.cc'], [('columns', 'src/dump.cc crefl_field tables, _pad_str'), ('row', 'src/dump.cc crefl_db_get_row'), ('properties', 'src/dump.cc prop_names')])

prop('P25', 'The ASN.1 dump tool shows the structure of any file it is given',
 'For any non-empty BER file of definite-length elements nested up to 128 levels, with object identifiers of 2 to 15 arcs and printable strings, the ASN.1 tool prints one line per element, walking into sequences and sets, in order with its true depth, header, identifier and primitive value, and exits 0. '
 'For any file whose elements do not fit, end early or have bad lengths, and for a file it cannot read, it stops with an error status; on no file does it crash, hang or read outside the file.',
 ['inputs'], 'all element trees up to a bounded size and depth over the supported types, all truncations, and all short byte strings',
 'The tool has no test.',
 ['tool/asn1tool.cc', 'src/asn1.cc'], [('recursive walk', 'tool/asn1tool.cc')])

prop('P26', 'Byte buffers keep order, bounds and byte order',
 'Any sequence of typed reads and writes, seeks and resets on a buffer behaves as on an array with a cursor: values are stored little endian, a transfer that does not fit moves nothing and reports zero, a transfer that fits reports its size and advances by it, and the remaining span is what lies after the cursor. '
 'Byte order conversion helpers agree with arithmetic for every value, and the dump of a buffer shows every octet up to the cursor once, in order, in rows of sixteen labelled with their offset (its low 16 bits).',
 ['histories', 'inputs'], 'all operation sequences up to a depth on buffers of every small capacity, all value patterns, all 16-bit values and byte patterns of wider ones',
 'A test writes and reads three values once.',
 ['include/crefl/buf.h', 'include/crefl/endian.h', 'src/buf.cc'], [('checked transfers', 'include/crefl/buf.h crefl_buf_read_*, crefl_buf_write_*'), ('byte order', 'include/crefl/endian.h')])

prop('P27', 'Formatted text and names of any length come out whole',
 'The string formatting helper returns exactly the text the C library formats, whatever its length, without truncation or embedded padding. '
 'Dumps, qualified names, hashes and saved images therefore work for names of every length, and file base names are the part after the last separator.',
 ['inputs'], 'all output lengths from zero to several times the initial buffer, all argument shapes, names of all those lengths through every consumer',
 'Names in the tests are a few characters long.',
 ['include/crefl/util.h', 'src/dump.cc', 'src/link.cc'], [('formatting', 'include/crefl/util.h string_printf, string_vprintf'), ('base name', 'include/crefl/util.h crefl_basename')])

prop('P28', 'Bit counting helpers are right for every word in C and C++',
 'Leading-zero, trailing-zero and population count helpers give the arithmetic answer for every argument of every supported integer type, and the same answer whether called from C or C++.',
 ['inputs', 'configurations'], 'all 16-bit values at every shift, all words with up to three set bits or runs, both languages, all overloads',
 'Tests check a few values in one language.',
 ['include/crefl/bits.h'], [('overloads and generic selection', 'include/crefl/bits.h')])

prop('P29', 'Handles release everything when they are destroyed',
 'Work on databases, indexes, buffers and codecs that succeeds or fails leaves nothing behind: once the handles a caller created are destroyed, no memory stays allocated and no file descriptor stays open, whatever was done with them before - additions, growth, loads that fail half way, saves to unwritable places, indexing, merging, dumping, decoding of malformed input - so repeating the work any number of times does not use more memory or descriptors.',
 ['histories', 'inputs', 'fault_sequences'], 'all operation sequences up to a depth including failing ones, all single damages of an image, all decoders on bounded inputs',
 'Tests run once and exit; a leak on a failure path is invisible to them.',
 ['src/db.cc', 'src/link.cc', 'src/dump.cc', 'include/crefl/util.h', 'include/crefl/buf.h'], [('destruction', 'src/db.cc crefl_db_destroy, src/link.cc crefl_index_destroy, src/buf.cc crefl_buf_destroy'), ('failure paths of load and save', 'src/db.cc crefl_db_read_mem, crefl_db_read_file, crefl_db_write_file')])

prop('P30', 'Independent handles can be used from several threads at once',
 'Threads that each work on handles of their own (databases, indexes, buffers, hash maps, digests, codecs, object identifier text and the OID registry) do not disturb each other, and several threads may read, save, index or merge from the same unchanging database: there is no data race and every thread gets the results it would get alone. Printing dumps and choosing the dump format, which belong to the process, are excepted.',
 ['schedules'], 'all pairs of operations in two threads, in every order of their accesses',
 'Tests are single threaded; hidden shared state such as a lazily filled table or a static scratch buffer is invisible to them.',
 ['src/oid.cc', 'src/db.cc', 'src/link.cc', 'src/model.cc', 'src/asn1.cc', 'src/buf.cc', 'src/sha256.cc', 'src/types.cc'], [('process-wide tables', 'src/oid.cc crefl_asn1_oid_desc, src/types.cc all_types, src/asn1.cc'), ('read-only use of a database', 'src/link.cc crefl_index_scan, crefl_link_merge')])

prop('P31', 'A program finds its own sources in its embedded reflection',
 'Sources taken one by one through scripts/creflcc.py, together through crefltool --merge and crefltool --emit, and through a C compiler and linker give a program that finds, through the query interface, every source in order and in it every declaration in order with its name, its types, the sizes and offsets the C compiler uses, enumerator values and function parameters - also when sources share headers or declare different things under one name. '
 'creflcc.py passes include directories in order, gives the same output whichever way its options are written, shows with -n exactly the command it would run without running it, and exits nonzero when it is given no input, no output, or the compiler fails; the plug-in refuses wrong arguments without writing, and fails when its output cannot be written whole. The CMake macro crefl_target_reflect gives the same result for every target, whatever its include directories.',
 ['programs', 'configurations', 'histories'], 'all sequences of sources from a pool up to a length, all forms of the options',
 'The build makes three samples and runs none of them; nothing compares what they find with the compiler.',
 ['scripts/creflcc.py', 'tool/crefltool.cc', 'src/reflect.cc', 'src/link.cc', 'cmake/crefl_macro.cmake'], [('wrapper', 'scripts/creflcc.py crefl_meta_cmd'), ('merge and embedding', 'tool/crefltool.cc do_merge, do_emit')])

prop('P32', 'The plug-in ends with a sound image on sources it cannot describe',
 'On any source - one with errors, or one that uses language features the model has no kind for, in C or C++ - the compiler with the plug-in ends without crashing, in time proportionate to the source, and either fails or writes an image that is well formed: every reference stays inside it, lists do not loop, the same source gives the same bytes, and the tools print it. '
 'What is declared before the first error is described exactly as without the error.',
 ['inputs'], 'all single-token edits of sources',
 'No test gives the plug-in a source with an error.',
 ['src/reflect.cc'], [('declarations with errors', 'src/reflect.cc ReflectVisitor'), ('types declared elsewhere', 'src/reflect.cc create_unseen_types')])

prop('P33', 'The ISO 6093 NR3 script accepts the two documented languages exactly',
 'For every argument, scripts/ISO-6093-NR3.pl in mode relaxed or strict prints the integer, fraction and exponent parts of the number exactly as written when it is a decimal number of that mode, and prints nothing otherwise; any other mode is refused. '
 'Relaxed: digits, a point, digits (either may be missing), and optionally e or E, a sign and digits. Strict: no leading zeros on integer or exponent and no trailing zeros on the fraction unless it is a lone zero, no missing part, and no plus sign on the exponent. Nothing may precede or follow the number.',
 ['inputs'], 'all strings up to a length, all single-octet changes of a number',
 'No test runs the script.',
 ['scripts/ISO-6093-NR3.pl'], [('both grammars', 'scripts/ISO-6093-NR3.pl')])

prop('P34', 'The test script shows every header with the dump of its own reflection',
 'scripts/run_tests.py prints, for every header it is given, in order (the matches of a pattern in any order), a heading, the text of the header, a second heading and then exactly what crefltool prints in the chosen dump format for the reflection of that header under the given language and include directories, then with --stats its statistics; the order is the same whether the output is a terminal, a pipe or a file. '
 'The image it leaves in build/tmp is the one the compiler makes. With -n it shows, and does not run, a command that makes this image. It ends with a nonzero status when the compiler fails.',
 ['inputs', 'configurations'], 'all choices of options, all sequences of headers up to a length',
 'It is itself the test script; nothing tests it.',
 ['scripts/run_tests.py'], [('commands', 'scripts/run_tests.py crefl_meta_cmd, crefl_tool'), ('headings', 'scripts/run_tests.py crefl_header, crefl_cat')])

prop('P35', 'The sample programs show the types and objects of a program as compiled',
 'example3_printer finds a struct by its name in the reflection embedded in the program, whichever of its sources declares it (the first, where several do), and prints, for any object of it, the value of every member in order, read from the memory of the object: integers of 8 to 64 bits, float and double in full, pointers with the name of their type, arrays of any dimensions, nested structures and unions, named or not; for a name that is no struct of the program it prints an empty line. '
 'example1_file lists every struct of a source in order with its width and the name and width of each member; example2_embed prints every named struct, union, type definition, function and global of one embedded source with the sizes the compiler uses.',
 ['programs'], 'all types up to a depth, a set of byte patterns',
 'The build makes the samples and nothing runs them.',
 ['samples/example1_file/main.c', 'samples/example2_embed/main.c', 'samples/example3_printer/printer.c', 'src/model.cc'], [('printer', 'samples/example3_printer/printer.c'), ('listings', 'samples/example1_file/main.c, samples/example2_embed/main.c')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
