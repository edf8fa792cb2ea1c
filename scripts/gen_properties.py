#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Hostile metadata cannot break the loader or consumers of a loaded database",
  "Loading arbitrary bytes as reflection metadata never reads outside the given buffer: it either reports failure or yields a database in which every node reference, name and the root lie inside the loaded tables and every name is terminated, and which holds exactly the declarations, names and root the image declares. On such an accepted database every query, property, layout, hash, dump, statistics, merge and re-serialise operation runs without memory errors or undefined behaviour and terminates (for images whose type nesting is itself bounded, so that plain recursion over it does not exhaust stack or time).",
  ["inputs"], "all byte strings offered as a metadata file or memory image: random, truncated, bit-flipped, and structurally mutated valid images",
  "The suite only loads files that the plugin has just written; no test ever loads a truncated, corrupt or foreign file.",
  ["src/db.cc", "include/crefl/db.h", "src/model.cc", "src/link.cc", "src/dump.cc"],
  [("crefl_db_read_mem size and header validation", "src/db.cc"), ("crefl_decl_array / crefl_decl_tag tests on every accessor", "src/model.cc")],
  ["crefl_db_read_mem", "crefl_db_read_file", "crefltool"], [("decl table / name table", "the loaded image", "include/crefl/db.h")])

p("C02", "Serialised metadata loads back as the same database",
  "For every database with the builtin types and at least one declaration of its own, the first of which is its root, the reported serialised size equals the bytes written, and loading them back (from memory or from a file) gives a database with identical declarations, names, links, attributes, values and root, whose own serialisation is byte-identical. Writing into a buffer that is too small reports an error and writes nothing outside the buffer, and images with a wrong magic or incompatible builtin tables are rejected.",
  ["inputs", "histories"], "all databases reachable by building declaration graphs through the public API, all output capacities, all mutations of the magic and builtin prefix",
  "t3 writes one fixed file and never re-reads it; the suite loads only files with valid headers and ample buffers.",
  ["src/db.cc", "include/crefl/db.h"],
  [("crefl_db_write_mem / crefl_db_size / crefl_db_read_mem", "src/db.cc"), ("crefl_read_file / crefl_write_file", "include/crefl/util.h")],
  ["crefl_db_write_mem", "crefl_db_write_file", "crefl_db_read_mem", "crefl_db_read_file"])

p("C03", "Reflection metadata of a C program is faithful to the program",
  "For any supported C source (nested and anonymous structs and unions, enums, typedefs, pointers, arrays, bit-fields, functions, variables, qualifiers and annotations) the compiler plugin terminates normally and the emitted metadata holds exactly the program's declarations: the same names, kinds, nesting, order, field types, enumerator values, array bounds, bit-field widths, parameters and return types, qualifiers, and every annotation attached to each declaration (the listed attributes: annotate, alias, aligned, packed, deprecated, pure, used, unused, always_inline and warn_unused_result); anonymous members are fields without a name; types the format has no word for, such as vectors and atomics, are left open, and function types stand as void. Running it again on the same source gives byte-identical metadata.",
  ["programs"], "generated C translation units over the supported grammar, checked against the generator's own model of the program",
  "The plugin tests run 48 tiny hand-written inputs and only check that the tools exit 0; the contents of the metadata are never compared with the program.",
  ["src/reflect.cc", "src/model.cc", "src/db.cc"],
  [("CReflVisitor Visit*Decl", "src/reflect.cc"), ("get_intrinsic_type / get_pointer / get_array type mapping", "src/reflect.cc")],
  [".refl output of the plugin, read through the public query API"])

p("C04", "Layout queries agree with the compiler's ABI",
  "For every complete type in reflected metadata (types with packed or alignment attributes excepted), the sizes (crefl_type_width and the intrinsic, struct, union and pointer width queries), array counts and struct member bit offsets (crefl_struct_fields_offsets, with the total size as trailing entry) equal the values the C compiler uses (sizeof, array bounds, offsetof, SysV bit-field placement), for nested structs, unions, arrays, pointers, enums, typedefs, bit-fields, bool, complex, long double and va_list members.",
  ["programs"], "generated C programs whose aggregate types combine all scalar kinds, arrays, pointers, enums, typedefs, nested and anonymous aggregates",
  "The one sample that prints offsets uses a handful of int and float fields; no test compares a layout query with the compiler.",
  ["src/model.cc", "src/types.cc"],
  [("crefl_type_width / crefl_struct_width / crefl_struct_fields_offsets", "src/model.cc"), ("builtin type table", "src/types.cc")],
  ["crefl_type_width", "crefl_struct_width", "crefl_union_width", "crefl_struct_fields_offsets", "crefl_array_count"])

p("C05", "Merging keeps every source declaration graph intact",
  "Merging any set of databases yields one database containing each input source, in order and exactly once, and each merged source is structurally equal to the original: same declaration kinds, names, order, properties, values, attributes and reachable types, modulo sharing of identical definitions: a definition identical to one stored before, which does not lead back to itself, is stored once. References resolve inside the merged database, the inputs are unchanged, and the result can itself be serialised, loaded and merged again.",
  ["inputs", "histories"], "sets of 1 to 5 generated databases with overlapping, identical and conflicting definitions, recursive types through pointers, attribute lists, and repeated merging",
  "Only the optional sample pipeline merges two files and prints the result; no unit test calls the merge at all.",
  ["src/link.cc", "include/crefl/link.h", "include/crefl/hashmap.h"],
  [("crefl_link_merge", "src/link.cc"), ("node indexing and hash map of definitions", "src/link.cc")],
  ["crefl_link_merge", "crefl_archive_sources", "crefl_source_decls"])

p("C06", "Declaration hashes identify content, not position",
  "The hash of a declaration is a function of its content: structurally identical declarations hash equally wherever and in whatever database, creation order or process they were created, including after serialising and loading and - unless they take part in or reach a recursive type - after merging (through aliases) and wherever they stand among other declarations. Changing a declaration's name, kind, properties, values, member order, member types or attributes changes its hash, and hashing terminates on recursive types and does not modify the database.",
  ["inputs", "histories"], "generated declaration graphs rebuilt with different insertion orders, and every single-field mutation of them",
  "No test asserts anything about a hash value; the tools merely print them.",
  ["src/link.cc", "src/sha256.cc"],
  [("crefl_entry_init / crefl_index_scan / node hashing with SHA-224", "src/link.cc")],
  ["crefl_entry_hash", "crefltool --dump-hash"])

p("C07", "List queries report every member once, in order, within the caller's buffer",
  "Every list query (types, fields, parameters, enumerators, sources, archives and the like) returns success for the right kind of declaration and an error otherwise, sets the count to the number of members, and fills at most as many entries as the caller offered, in declaration order without duplicates or omissions. Calling it with no buffer only counts, calling it again gives the same answer, and no query modifies the database.",
  ["inputs", "histories"], "all queries applied to all declarations of generated databases with every buffer capacity from 0 to beyond the count",
  "t3 queries two structs with exactly sized buffers; short, zero or oversized buffers and wrong declaration kinds are never tried.",
  ["src/model.cc", "include/crefl/model.h"],
  [("crefl_list_scan and the per-kind predicates", "src/model.cc")],
  ["crefl_*_types/fields/params/values queries of crefl/model.h"])

p("C08", "DER primitives decode to the encoded value",
  "For every identifier, length, boolean, signed or unsigned 64-bit integer, octet string and null, DER encoding succeeds when capacity suffices, writes exactly the predicted number of bytes in the shortest form its type admits (unsigned integers as unsigned contents, TRUE as 0xFF), and decoding consumes exactly those bytes and returns the same value. The pointer and by-value interface variants behave identically.",
  ["inputs"], "all 64-bit integers (boundary-dense sampling), all identifier classes and tag numbers below 2^56, all lengths, octet strings of any content",
  "t5 and the benchmark use fixed or non-negative small random samples; negative integers, high tags, other classes and boundaries are not covered.",
  ["src/asn1.cc", "include/crefl/asn1.h"],
  [("crefl_asn1_der_*_read/_write/_length", "src/asn1.cc")],
  ["crefl_asn1_der_* API"])

p("C09", "Malformed BER/DER input is rejected safely",
  "Decoding arbitrary bytes with any ASN.1 reader never reads outside the input, never invokes undefined behaviour and always terminates, and succeeds only when the bytes are a complete element of the expected type. Truncated contents, over-long or indefinite lengths, tag numbers or integers that do not fit, wrong tags and wrong content sizes are reported as errors.",
  ["inputs"], "arbitrary byte strings up to a few hundred bytes: random, truncated, mutated and grammar-generated near-valid encodings, for every reader",
  "The tests only decode what the library has just encoded.",
  ["src/asn1.cc", "src/buf.cc", "include/crefl/buf.h"],
  [("bounds and form checks in crefl_asn1_ber_*_read and crefl_asn1_der_*_read", "src/asn1.cc")],
  ["crefl_asn1_*_read API"])

p("C10", "ASN.1 REAL encoding round-trips every double",
  "Every finite double, including subnormals and both zeros, and both infinities encode to DER REAL and decode to exactly the same value; NaN decodes to NaN. The encodings follow X.690: base 2, odd mantissa, minimal exponent, the standard special-value octets, and predicted length equal to bytes written; a binary encoding the library cannot represent is rejected or rounded, never silently decoded as another value.",
  ["inputs"], "all 2^64 double bit patterns (boundary-dense sampling over exponent x mantissa shape) and all short REAL content octets",
  "t5 checks a few dozen constants with moderate exponents; no subnormals, no X.690 octet checks and no hostile contents.",
  ["src/asn1.cc"],
  [("f64_asn1_data_get and crefl_asn1_der_real_f64_read/_write", "src/asn1.cc")],
  ["crefl_asn1_der_real_f64_*"])

p("C11", "Variable-length floats round-trip every value",
  "Encoding any 32-bit or 64-bit float, including subnormals, signed zeros, infinities and NaN, as a variable-length float and decoding it at the same width returns the identical value (NaN stays NaN), consumes exactly the bytes written and follows the documented format. The pointer and by-value variants write the same bytes and read the same values.",
  ["inputs"], "all 2^32 float patterns (thorough: exhaustively) and boundary-dense samples of all 2^64 double patterns",
  "The random test draws values in a narrow range of exponents and tests only selected widths; subnormals and extreme exponents are not drawn.",
  ["src/asn1.cc", "docs/vf128.md"],
  [("vf8 header decode/encode", "src/asn1.cc"), ("crefl_vf_f64_read/_write, crefl_vf_f32_read/_write, byval", "src/asn1.cc")],
  ["crefl_vf_f64_*", "crefl_vf_f32_*"])

p("C12", "Arbitrary variable-length float input decodes safely and as documented",
  "Reading any bytes as a variable-length float at either width never reads outside the input or invokes undefined behaviour; truncated input is an error and anything accepted decodes to the value the documented format defines, truncated to the width read. Values too large for the width become the infinity of the right sign, not some other number.",
  ["inputs"], "arbitrary byte strings up to 20 bytes and values encoded at one width and read at the other",
  "Only bytes written by the library at the same width are ever read back.",
  ["src/asn1.cc", "docs/vf128.md"],
  [("crefl_vf_f64_read / crefl_vf_f32_read header, exponent and mantissa handling", "src/asn1.cc")],
  ["crefl_vf_*_read"])

p("C13", "Variable-length and little-endian integers round-trip minimally",
  "LEB128, VLU and little-endian variable integers decode to the encoded value for every value in their range, using the minimal documented number of bytes, which equals the predicted length; values out of range and truncated or unterminated encodings are reported as errors. Pointer and by-value variants are interchangeable.",
  ["inputs"], "all 64-bit values (boundary-dense sampling; exhaustively below 2^16 in quick, 2^24 in thorough), every truncation and arbitrary byte strings",
  "t5 and the benchmark test a few constants and random values inside the supported range.",
  ["src/asn1.cc"],
  [("crefl_leb_u64_*, crefl_vlu_u64_*, crefl_le_ber_integer_*", "src/asn1.cc")],
  ["crefl_leb_u64_*", "crefl_vlu_u64_*", "crefl_le_ber_integer_*"])

p("C14", "Object identifiers round-trip between text, arcs, DER and names",
  "Every object identifier of two to fifteen arcs survives conversion from dotted text to arcs and back and DER encoding and decoding unchanged, with the predicted length equal to the bytes written and the X.660/X.690 encoding of the first two arcs. Description lookup (crefl_asn1_oid_desc) returns exactly the registered name for every registered identifier and nothing for any other; malformed text is rejected. The table generator (scripts/parse_oids.py) turns any list of named DER-encoded identifiers into table rows for exactly those entries, in bytes and in dotted arcs.",
  ["inputs"], "all OIDs with arcs below 2^56, all entries of the registry table, mutated text",
  "t6 checks a handful of strings, t5 two OIDs; roots 0 and 1 with large arcs, root 2 with second arc above 39, and most of the registry are not touched.",
  ["src/asn1.cc", "src/oid.cc", "data/oids.txt", "scripts/parse_oids.py"],
  [("crefl_asn1_oid_to_string/from_string, crefl_asn1_ber_oid_read/write/length", "src/asn1.cc"), ("crefl_asn1_oid_desc table", "src/oid.cc")],
  ["crefl_asn1_oid_*", "crefl_asn1_der_oid_*", "crefl_asn1_oid_desc"])

p("C15", "No writer leaves its buffer",
  "Every encoder and buffer operation, given any remaining capacity, stays inside the buffer: it succeeds when the encoding fits, and when it does not fit it reports an error without writing beyond the end. Sequences of buffer reads, writes, seeks and resets behave like a bounded byte array with one cursor.",
  ["inputs", "histories"], "every writer at every capacity from 0 to the needed size + 1, and random sequences of buffer operations including huge lengths and offsets",
  "All tests use a buffer far larger than needed; the out-of-space path is never executed.",
  ["include/crefl/buf.h", "src/buf.cc", "src/asn1.cc"],
  [("crefl_buf_check_capacity and the per-width write guards", "include/crefl/buf.h"), ("writers checking their status", "src/asn1.cc")],
  ["crefl_buf_*", "all *_write API"])

p("C16", "SHA-2 digests are correct for every message and every chunking",
  "The digest computed by the library equals the FIPS 180-4 SHA-224 or SHA-256 digest of the concatenated input for every message length and content and regardless of how the input is split into updates. Contexts are independent of each other.",
  ["inputs", "histories"], "all message lengths over several block boundaries, random long messages, arbitrary chunkings and interleaved contexts",
  "t4 checks a few short vectors in one update each.",
  ["src/sha256.cc", "include/crefl/sha256.h"],
  [("sha224/sha256 init, update, final", "src/sha256.cc")],
  ["sha224_*/sha256_* API"])

p("C17", "The hash map behaves like a map",
  "For every sequence of insertions, lookups, erasures, clears, copies, moves, swaps, comparisons and iterations the hash map gives the same answers as a reference map: each key is present at most once with its latest value, iteration visits each entry exactly once, erased keys are gone, and growth loses nothing. All trivially copyable key and value types, power-of-two initial sizes and hash collisions are handled without memory errors or leaks.",
  ["histories", "inputs"], "random operation histories over small key spaces (dense collisions, tombstones) and large ones (growth), for several key, value and hasher types",
  "t7 inserts ascending random keys and checks lookups; no erase/insert interleavings, copies, moves or collision-heavy hashers.",
  ["include/crefl/hashmap.h"],
  [("open addressing with bitmap states and tombstones, resize", "include/crefl/hashmap.h")],
  ["hashmap public API"])

p("C18", "Emitted C and statistics describe the metadata exactly",
  "The C source emitted for a metadata file, when compiled, defines an array whose bytes and size are exactly the file, under the requested name, for every file content and size. The statistics report the true declaration, name-table and total byte counts of every file given.",
  ["inputs"], "generated metadata files of many sizes and contents",
  "The suite only checks that the tool exits 0 with --stats; emit is exercised by one optional sample.",
  ["tool/crefltool.cc", "src/dump.cc", "src/db.cc"],
  [("do_emit, do_stats in crefltool", "tool/crefltool.cc"), ("crefl_db_dump_stats", "src/dump.cc")],
  ["crefltool --emit", "crefltool --stats"])

p("C19", "Dumps show the stored declarations exactly",
  "Every dump format prints one row per declaration with that declaration's own id, kind, name, properties, links, attribute, value, type description, fully qualified name and hash as the format documents, and never crashes or loses a row whatever the names, depths and types. The file named as input is not modified.",
  ["inputs", "configurations"], "all dump formats x generated databases with odd names, deep nesting, all kinds, large counts",
  "The suite checks only the tool's exit status, never the text it prints.",
  ["src/dump.cc", "tool/crefltool.cc"],
  [("crefl_db_dump_row / dump_header / dump_all", "src/dump.cc")],
  ["crefltool --dump*"])

p("C20", "The ASN.1 printer shows the true structure of its input",
  "For every well-formed definite-length BER/DER file (nested up to 1000 deep) asn1tool prints every element once, in order, with its offset and length, nesting depth, type name and content; anything else is reported as an error, and meanwhile it stays inside the input, terminates and does not print elements that are not there.",
  ["inputs"], "DER trees generated by an independent encoder (multiple siblings, deep nesting, long forms) and mutations of them",
  "No test runs asn1tool.",
  ["tool/asn1tool.cc", "src/asn1.cc", "src/oid.cc"],
  [("recursive printing loop of asn1tool", "tool/asn1tool.cc")],
  ["asn1tool FILE"])

p("C21", "Independent databases and buffers can be used from different threads",
  "Threads that each work on their own databases, buffers, hashes and identifiers (building, querying, laying out, hashing, merging, serialising, encoding, decoding) never race with each other and get exactly the results they would get alone; concurrent read-only queries on one shared database are also race-free. The table of OID names and the dump settings, which are global, are not part of this.",
  ["schedules"], "schedules of 2 to 8 threads running mixed workloads over private and shared read-only databases",
  "All tests are single threaded.",
  ["src/model.cc", "src/link.cc", "src/db.cc", "src/asn1.cc"],
  [("absence of mutable static state in the library", "src/*.cc")],
  ["public API except the dump and OID name tables"])

p("C22", "Building a graph never disturbs what is already in it",
  "Creating declarations and names, in any number and order and across any table growth, returns fresh valid references and leaves every earlier declaration, name, link and property exactly as it was. Names read back exactly as stored, and every builtin type is available with its documented properties in every new database.",
  ["histories"], "random histories of node and name creation, mutation and lookup up to hundreds of thousands of nodes, across every growth step",
  "t3 creates about twenty nodes, so table growth after the first allocation is hardly touched.",
  ["src/model.cc", "src/db.cc", "src/types.cc"],
  [("crefl_decl_new / crefl_name_new growth", "src/model.cc"), ("crefl_db_defaults builtin table", "src/types.cc")],
  ["crefl_decl_new", "crefl_name_new", "crefl_decl_ptr", "crefl_lookup"])

p("C23", "I/O failures are reported, never turned into success",
  "When a metadata file cannot be opened, read, validated or completely written (missing, directory, truncated, full device, disk limit), the library returns an error and the tools print a diagnostic and exit non-zero, without crashing or leaking; a successful exit means the whole output is in place and reads back. Existing output is never reported as written when it was not.",
  ["fault_sequences", "inputs"], "each failing call of open, stat, read, write, flush and close in the read and write paths, at each position; each tool command with bad inputs and outputs",
  "The suite runs the tools only on good inputs with writable outputs.",
  ["include/crefl/util.h", "src/db.cc", "tool/crefltool.cc"],
  [("crefl_read_file / crefl_write_file status", "include/crefl/util.h"), ("tool exit codes", "tool/crefltool.cc")],
  ["crefl_db_read_file", "crefl_db_write_file", "crefltool exit status"])

p("C24", "Bit and byte-order helpers compute their mathematical definition",
  "Leading and trailing zero counts, population count and the big/little-endian conversions return the mathematically defined result for every argument, identically in C and C++ and in the generic and intrinsic implementations.",
  ["inputs", "configurations"], "all 8/16-bit values exhaustively, boundary-dense 32/64-bit values, C and C++ front ends",
  "t8 checks a few constants.",
  ["include/crefl/bits.h", "include/crefl/endian.h"],
  [("clz, ctz, popcnt and byte swaps", "include/crefl/bits.h"), ("le/be conversions", "include/crefl/endian.h")],
  ["crefl/bits.h", "crefl/endian.h"])

p("C25", "The whole pipeline delivers a program's own reflection at run time",
  "Compiling a set of C files with the plugin, merging and emitting their metadata and linking the result into a program lets that program enumerate exactly the types of its sources (crefl_source_decls, shared definitions resolved through crefl_decl_link), with the same fields, offsets, values and annotations as the compiler sees, no matter how many sources share headers. No step reports success with incomplete output.",
  ["programs", "configurations"], "generated multi-file C programs with shared headers, run through plugin, merge, emit, compile, link and self-check",
  "Only the optional samples exercise the pipeline on fixed files and nothing checks the program's output.",
  ["src/reflect.cc", "src/link.cc", "tool/crefltool.cc", "cmake/crefl_macro.cmake", "scripts/creflcc.py"],
  [("plugin -> merge -> emit -> link", "cmake/crefl_macro.cmake")],
  ["the linked program's query results"])

p("C26", "No operation leaks, and memory stays in proportion to the data",
  "Whatever memory the library allocates and whatever file it opens on behalf of a call is released by the time the call returns or when the object it returned is destroyed, on success, on rejection and on failure alike, so that repeating any operation (creating, loading, refusing, saving, querying, printing, hashing and merging databases; encoding and decoding; buffers, hash maps) does not grow the process. The most memory an operation holds at once is proportional to the size of the data it works on: no count, length or size written in a hostile or damaged input makes the library allocate what the input does not have.",
  ["memory", "inputs", "histories"], "repetitions of every operation over generated, damaged and hostile inputs",
  "A leak or an oversized allocation changes no result that a unit test looks at; it shows only in the balance and peak of the process's memory over repeated runs on every path, the refusing ones included.",
  ["src/db.cc", "src/model.cc", "src/link.cc", "src/buf.cc", "include/crefl/hashmap.h"],
  [("crefl_db_destroy / crefl_index_destroy", "src/db.cc"), ("crefl_link_merge", "src/link.cc"), ("crefl_buf_destroy", "src/buf.cc")],
  ["allocated blocks and bytes before, during and after each operation"])

p("C27", "Plugin options never change the metadata, and C++ mode agrees with C mode",
  "For every C source the metadata written is the same bytes whether or not -debug and -dump are given, in whatever order and number the options come, and through creflcc.py or the compiler directly; -dump prints exactly the table that crefltool --dump prints for that metadata, -debug prints to standard error only, and no file but the -o one is created or changed. Wrong or missing options, sources and plugins are refused with a diagnostic and a failing status and write nothing, and creflcc.py never exits with success leaving out a source it was given. In C++ mode (--cpp) a program of the language that C and C++ share reflects with the same declarations, members, types, values and annotations as in C mode, linkage apart, also inside linkage specifications and namespaces. Any C++ program the compiler accepts is reflected without failing and into metadata that loads, and what only C++ has (classes, members that are not fields, templates, deduced types, references, friends) around and inside declarations that C shares changes nothing of these.",
  ["programs", "configurations"], "generated C programs x plugin and creflcc options; generated programs of the common language in plain, extern \"C\", namespace and mixed wrappings",
  "The suite runs the plugin on fixed inputs without looking at what it writes; no test compares the modes with one another, and the C++ inputs only check the exit status.",
  ["src/reflect.cc", "src/dump.cc", "scripts/creflcc.py"],
  [("ReflectAction::ParseArgs / EndSourceFileAction", "src/reflect.cc"), ("create_named_node", "src/reflect.cc"), ("crefl_meta_cmd", "scripts/creflcc.py")],
  ["files, standard output, standard error and exit status of each run", "the metadata through the query API"])

p("C28", "Reading live objects through their metadata prints their true values",
  "Linked with the embedded metadata of its types, the printer (crefl_print of samples/example3_printer, with types found by crefl_type or crefl_intrinsic) prints any live object of a struct type - integers, floats, pointers, arrays of any dimensions, nested and anonymous structs and unions, whatever the lengths of names and numbers - with the member names and values that direct access in C gives, in order, and touches nothing outside the object; a name that stands for no struct prints an empty line. The listing programs (samples/example1_file, the example in README.md, samples/example2_embed) print every named struct, union, typedef, variable and function of a metadata file once, in order, with the names, types, members and sizes the compiler gives.",
  ["programs", "inputs"], "generated C types, object contents (including infinities, NaNs and the largest numbers), and metadata files of generated sources",
  "The samples are built but never run, and nothing checks what they print.",
  ["samples/example3_printer/printer.c", "samples/example1_file/main.c", "samples/example2_embed/main.c", "src/model.cc", "README.md"],
  [("crefl_print / crefl_type_by_name", "samples/example3_printer/printer.c"), ("crefl_struct_fields_offsets", "src/model.cc")],
  ["standard output of the sample programs", "crefl_print, crefl_type_by_name, crefl_db_internal"])

p("C29", "The decimal number script accepts the documented forms and takes them apart",
  "scripts/ISO-6093-NR3.pl, in its relaxed and its strict mode, accepts exactly the decimal texts its documentation permits for that mode (digits, a decimal point, digits, and optionally e or E with an integer exponent, signed + or - in relaxed and - only in strict mode; strict without leading zeros of integer and exponent, without trailing zeros of the fraction, and with digits on both sides of the point) and prints their integer, fraction and exponent digits unchanged (an absent part as nothing); for any other text it prints nothing, and for another mode it fails with the usage line.",
  ["inputs"], "all short texts over digits, point, exponent letter and signs; long and damaged numbers",
  "Nothing runs the script.",
  ["scripts/ISO-6093-NR3.pl"],
  [("relaxed / strict patterns", "scripts/ISO-6093-NR3.pl")],
  ["standard output and exit status of the script"])

p("C30", "The CMake module embeds current reflection of every source of a target",
  "For a target whose sources are given relative to the top directory, crefl_target_reflect(target lib) adds a library that carries, at run time, exactly one source per source file of the target, in the order of the target's source list and under the file's base name, each with every declaration that compiling the file with the target's include directories gives - whatever the number, form and origin of those include directories, the subdirectories of the sources, the generator and the place of the build directory - and after a source or a header that it includes is edited, the next build carries the new declarations.",
  ["programs", "histories"], "generated projects, their include directories, generators, and sequences of edits and builds",
  "The repository builds two samples with the module, each with one include directory; nothing looks at what they carry, and nothing is edited and built again.",
  ["cmake/crefl_macro.cmake", "scripts/creflcc.py", "tool/crefltool.cc", "src/reflect.cc"],
  [("crefl_target_reflect", "cmake/crefl_macro.cmake"), ("crefl_meta_cmd", "scripts/creflcc.py"), ("do_merge / do_emit", "tool/crefltool.cc")],
  ["exit status of the build", "the embedded metadata through the query API"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
