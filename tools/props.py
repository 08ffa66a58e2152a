"""Source of properties.jsonl."""
ALL = ["inputs"]
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)


RT = "crates/mabo/src/"
p("M01", "The announced size equals the bytes written",
  "For every value the runtime can encode, the size computed beforehand equals the number of bytes its encoding writes: integers, floats, strings, bytes, collections, options, arrays, tuples, fields and identifiers alike. Length prefixes derived from such sizes therefore always describe the data that follows.",
  ALL, "every value of every encodable type, including collections of any length and nesting",
  "The size functions are exercised by a handful of fixed values; sizes matter for prefixes of nested collections and for values across varint boundaries, which samples do not enumerate.",
  [RT + "buf/size.rs", RT + "buf/encode.rs", RT + "varint.rs"],
  [("size functions", RT + "buf/size.rs"), ("encoders", RT + "buf/encode.rs"), ("varint sizes", RT + "varint.rs")],
  ["length prefixes", "return value of the size functions"])
p("M02", "Decoding reads back exactly what encoding wrote",
  "Decoding the bytes produced by encoding a value yields that same value and consumes exactly those bytes, for every primitive, string, byte, collection, option, array, smart-pointer and non-zero form of the runtime. Every length prefix written equals the byte count of the content following it.",
  ALL, "every value of every supported type, whatever follows it in the buffer",
  "Round-trip tests cover selected values of selected types; a mismatch that needs a certain element order, a non-empty map or a specific option state stays unseen.",
  [RT + "buf/encode.rs", RT + "buf/decode.rs"],
  [("encoders", RT + "buf/encode.rs"), ("decoders", RT + "buf/decode.rs")],
  ["decoded value", "remaining bytes"])
p("M03", "Decoding untrusted bytes never panics or reads past the end",
  "Whatever bytes are handed to any decoder of the runtime, it returns either a value or an error: no path panics, overflows or indexes out of bounds. No more bytes are taken from the buffer than it is known to hold.",
  ALL, "every byte sequence, truncated or malformed in any way, for every decoder",
  "Tests decode well-formed data; malformed lengths, truncations at each position and zero counts form an unbounded input space.",
  [RT + "buf/decode.rs", RT + "varint.rs"],
  [("remaining-bytes checks before reads", RT + "buf/decode.rs"), ("error results instead of panics", RT + "buf/decode.rs")],
  ["panic or Err"])
p("M04", "Decoding terminates and its memory is bounded by the input",
  "A decode call that succeeds has consumed at least one byte and every repetition inside a decoder consumes input, so decoding any finite buffer terminates. No memory is reserved for a length announced by the input before the buffer is known to hold that many bytes.",
  ALL, "every byte sequence, including hostile length prefixes",
  "Termination and allocation bounds are about hostile inputs no test supplies; a hang or huge allocation needs a specific crafted prefix.",
  [RT + "buf/decode.rs"],
  [("loops over the remaining input", RT + "buf/decode.rs"), ("length checks before windows and copies", RT + "buf/decode.rs")])
p("M05", "Variable-length integers round-trip, minimally and in the documented form",
  "For every value of every integer width, signed or not, the variable-length encoding is the minimal little-endian base-128 form (zigzag for signed), its announced size is its length, and decoding it - whatever bytes follow - returns the value and that length. Whatever bytes decoding accepts, it returns the number they denote (bits beyond the width dropped), never reports more bytes than available and never accepts an input without a terminating byte.",
  ALL, "all 2^16 .. 2^128 values of the eight integer types and all byte slices",
  "The tests try three to five values per width; boundary lengths in between (every multiple of 7 bits) and 64/128 bit values cannot be enumerated.",
  [RT + "varint.rs"],
  [("encode/decode/size per width", RT + "varint.rs"), ("zigzag mapping", RT + "varint.rs")])
p("M06", "Field identifiers and skip markers survive the wire; skipping consumes one value",
  "For every field number below 2^29 and every wire marker, packing, writing, reading and unpacking gives back the same number and marker, undefined markers are rejected, and the announced identifier size is right. Skipping an unknown field consumes exactly the bytes of one value of the form its marker announces; variant identifiers travel unchanged.",
  ALL, "every field number, every marker, every 32-bit word read from the wire",
  "Tests use small identifiers and never skip most markers; errors at large numbers or in one marker only are not sampled.",
  [RT + "lib.rs", RT + "buf/decode.rs", RT + "buf/encode.rs", RT + "buf/size.rs", "book/src/reference/wire-format.md"],
  [("packing and unpacking", RT + "lib.rs"), ("skip", RT + "buf/decode.rs"), ("identifier size", RT + "buf/size.rs")])
p("M08", "A non-zero container is never empty",
  "No sequence of public operations yields a non-zero string, byte vector, list, map or set that is empty: construction refuses empty content (and only that), decoding reports an error for it, and no operation gives mutable access to the content.",
  ["inputs", "programs"], "every safe program using the public interface and every decoded input",
  "Tests construct a few instances; the guarantee is about the absence of any constructor, mutator or decode path that bypasses the check.",
  [RT + "lib.rs", RT + "buf/decode.rs"],
  [("private content and checked constructor", RT + "lib.rs"), ("empty check while decoding", RT + "buf/decode.rs")])
p("M09", "A length prefix delimits exactly",
  "When a decoder of a length-prefixed value succeeds, the whole announced number of bytes was present in the input, and exactly that many bytes were consumed after the prefix: a truncated input is reported as an error instead of being accepted as a shorter collection, and no part of the value is left behind to be misread as the next one.",
  ALL, "every length-prefixed decoder and every input, truncated at any position or announcing any length",
  "A round-trip test never truncates its input nor decodes a collection written with more elements than the reader wants, and a wrong boundary shows only in what is read afterwards.",
  [RT + "buf/decode.rs"],
  [("length check before a window", RT + "buf/decode.rs"), ("draining of the window", RT + "buf/decode.rs")],
  ["Ok or Err", "bytes consumed"])

BD = "crates/mabo-build/src/"
p("M07", "A field's wire marker announces the form its value has",
  "Generated Rust code writes every field with the wire marker that describes how its value is laid out (varint, fixed 1, 4 or 8 bytes, length-prefixed), so that a reader built from an older or newer schema, which does not know the field, skips exactly that field and reads the following ones correctly.",
  ["programs"], "every schema: every data type as a field type, under every generator option",
  "The snapshots record markers for default options and selected types; that the marker fits the value and that an unknown field of each type can be skipped is never exercised.",
  [BD + "encode.rs", "book/src/reference/wire-format.md"],
  [("marker per data type", BD + "encode.rs"), ("skip rule", RT + "buf/decode.rs")],
  ["field identifier written before each field"])
p("M10", "Generated code for every data type matches its type and wire format",
  "For every data type a schema can use, in every nesting and under every generator option, the generated Rust type, encode, decode and size expressions belong together: they use the same representation, visit all components in order with the component's own code, and the type of the value is the one the functions take. Generation never fails for a type the compiler accepts.",
  ["programs"], "every data type, every nesting of data types, every byte type option",
  "Snapshots show one spelling per type with default options and do not say whether size, encode and decode agree; the space of nested types and options is infinite.",
  [BD + "encode.rs", BD + "decode.rs", BD + "size.rs", BD + "definition.rs"],
  [("data type to encode expression", BD + "encode.rs"), ("data type to decode expression", BD + "decode.rs"), ("data type to size expression", BD + "size.rs"), ("data type to Rust type", BD + "definition.rs")],
  ["generated Rust code"])
p("M11", "Generated encode, decode and size of structs and enums agree",
  "For every struct and enum, with named, unnamed or no fields, optional or required, generic or not, the generated encode writes each field once under its own identifier and ends with the end marker, the generated decode accepts fields in any order by the same identifiers, skips unknown ones, fails on missing required ones and on unknown variants, and the generated size adds up exactly those parts.",
  ["programs"], "every schema: any number and mix of fields, variants and generics",
  "The snapshot inputs are two dozen fixed schemas; combinations such as optional fields in unnamed variants or generic enums appear in none of them, and the output is never executed.",
  [BD + "encode.rs", BD + "decode.rs", BD + "size.rs"],
  [("encode implementation", BD + "encode.rs"), ("decode implementation", BD + "decode.rs"), ("size implementation", BD + "size.rs")],
  ["generated Rust code"])
p("M12", "Generated declarations state what the schema says",
  "Every definition of a schema appears in the generated Rust code under its own name, with its documentation, generics, fields or variants in order, alias target, import path or constant value. Nested modules hold exactly their definitions; nothing is dropped or duplicated.",
  ["programs"], "every schema and every kind of definition, nested to any depth",
  "Snapshots cover single instances of each definition; the guarantee is about all combinations, including options and generics the inputs do not use.",
  [BD + "definition.rs"],
  [("definitions", BD + "definition.rs"), ("module recursion", BD + "definition.rs")],
  ["generated Rust code"])

CO = "crates/mabo-compiler/src/"
p("M13", "Code generators see the schema as it was written",
  "The simplified form of a schema, from which all code generators work, holds every definition, field, variant, type parameter, comment line, import segment and literal of the parsed schema, in order, under its own name and with its own data type; nothing is dropped, doubled or exchanged. Identifiers are the given ones, and an omitted identifier is the one before it plus one, starting with 1, in the schema compiler's numbering.",
  ["programs"], "every schema: every definition kind, data type, literal and any number of fields and variants, nested to any depth",
  "Only the generator snapshots exercise this step, with two dozen fixed schemas and mostly explicit identifiers; a data type or position that is mapped wrongly, or a counter that is off after an explicit identifier, needs just that combination.",
  [CO + "simplify.rs", CO + "lib.rs"],
  [("definitions and fields", CO + "simplify.rs"), ("derived identifiers", CO + "lib.rs")],
  ["simplify_schema result"])
p("M14", "Validation accepts exactly the schemas without clashes",
  "A schema passes validation only if, in each scope, no name of a definition or import is used twice, no two fields or variants share a name or an identifier (given or derived), every field identifier is one the wire format can hold, and every type parameter of a struct or enum is named once and used. Validation rejects for no other reason than these and the size of tuples, and never panics.",
  ["programs"], "every schema: any number, order and nesting of definitions, fields, variants and type parameters",
  "The error snapshots hold one schema per kind of clash; clashes between derived and explicit identifiers, far-apart definitions, nested modules or variants with fields form an unbounded space.",
  [CO + "validate/mod.rs", CO + "validate/ids.rs", CO + "validate/names.rs", CO + "validate/generics.rs", CO + "lib.rs"],
  [("unique identifiers", CO + "validate/ids.rs"), ("unique names", CO + "validate/names.rs"), ("used type parameters", CO + "validate/generics.rs"), ("derived identifiers", CO + "lib.rs")],
  ["Ok or Err of validate_schema"])
p("M15", "Checks on data types reach every type of a schema",
  "Wherever a data type stands in a schema - fields of structs and of enum variants, alias targets, constants - and however deeply it is nested in lists, maps, sets, options, arrays, tuples, non-zero types or type arguments, the compiler's checks look at it: tuples have 2 to 12 elements, a type parameter counts as used exactly when some field names it. No element of a list of fields, variants or type arguments is left out.",
  ["programs"], "every data type at every position and nesting depth",
  "The tests nest types one level in a few containers; a container through which a check does not descend, or one position without a check, accepts an invalid schema silently.",
  [CO + "validate/tuples.rs", CO + "validate/generics.rs", CO + "resolve/mod.rs", "crates/mabo-parser/src/punctuated.rs"],
  [("tuple size check", CO + "validate/tuples.rs"), ("type walkers", CO + "validate/generics.rs"), ("element lists", "crates/mabo-parser/src/punctuated.rs")],
  ["Ok or Err of validate_schema"])
p("M16", "Type resolution accepts exactly the schemas whose names all resolve",
  "A set of schemas passes resolution only if every type name used in it - in fields, variants, alias targets and constants of any module - is a type parameter of its definition, or denotes an existing struct or enum with that number of type parameters: in its own module or along a path of nested modules from there, or through an import of that module, along the whole path. Every import names an existing schema, nested modules and type. Schemas whose names all resolve this way pass, and resolution never panics.",
  ["programs"], "every set of schemas: any nesting of modules, any imports and any paths",
  "The error snapshots hold one broken schema per kind of failure; a path with several segments, a name in a nested module or an import that shadows another is a combination of its own.",
  [CO + "resolve/mod.rs", "crates/mabo-build/src/lib.rs", "crates/mabo-go/src/lib.rs"],
  [("module tree", CO + "resolve/mod.rs"), ("local and remote lookup", CO + "resolve/mod.rs"), ("imports", CO + "resolve/mod.rs")],
  ["Ok or Err of resolve_schemas"])
p("M17", "Generators write every schema's code, and only after all passed the checks",
  "The Rust and the Go generator write code only after every file of the project has been read, parsed and validated and the types of all of them have been resolved together. Anything that fails on the way - also writing a file - is reported as a failure. When they report success, the code of every project file, with all its nested modules, has been written below the output directory, the Rust code where `mabo::include!` looks for it, and the code of no file has replaced that of another.",
  ["inputs", "faults"], "every project: any number of files, and a failure of any of the calls on the way",
  "No test runs the generators as a whole on a project that is invalid, has several files, or on a file system that fails.",
  ["crates/mabo-build/src/lib.rs", "crates/mabo-go/src/main.rs"],
  [("Rust generator", "crates/mabo-build/src/lib.rs"), ("Go generator and its module tree", "crates/mabo-go/src/main.rs")],
  ["files below the output directory", "result of Compiler::compile", "exit status of mabo-go"])
p("M18", "The command line tool's verdicts are right; it rewrites only what it parsed",
  "`mabo check` succeeds exactly if every given file parses and validates and all types resolve. `mabo fmt` replaces the text of a file only by the printed form of the schema it parsed from that very file, does so whenever the two differ, and leaves files that don't parse untouched. `mabo doc` writes the documentation of every project file, below the output directory. File patterns select only .mabo files, and all that match. Whatever fails ends in a failure exit status.",
  ["inputs", "faults"], "every project or set of files, and a failure of any of the calls on the way",
  "The only test of the tool checks its argument parser.",
  ["crates/mabo-cli/src/main.rs"],
  [("subcommands", "crates/mabo-cli/src/main.rs"), ("selection of files", "crates/mabo-cli/src/main.rs")],
  ["exit status", "files written"])
p("M19", "A project consists of exactly the files its patterns name",
  "Loading a project reads Mabo.toml from its directory and lists exactly the files below it (links followed; hidden and ignored ones aside) whose path relative to the project matches at least one of the patterns and that have the .mabo extension, where `*` stays within one directory and alternatives may be empty. Invalid patterns, an invalid project file and failures of the file system are errors, not files left out; discovering projects loads every Mabo.toml found, with its files relative to its own directory.",
  ["inputs", "faults"], "every directory tree and list of patterns",
  "The tests load one fixed project.",
  ["crates/mabo-project/src/lib.rs"],
  [("file selection", "crates/mabo-project/src/lib.rs"), ("loading and discovery", "crates/mabo-project/src/lib.rs")],
  ["Project::files"])
p("M20", "Announced wire sizes and next free ids are true",
  "The wire size shown for a data type contains the length of every encoding of its values, with exact bounds for primitives and open ones where there are none; it is unknown exactly where the definition is elsewhere. The next id announced for fields or variants is one above the highest in use, and none is announced if there can't be any. Neither computation panics on any schema, and the printed form shows these bounds.",
  ["programs"], "every data type of any nesting and any array length, every set of ids",
  "Snapshots hover over one schema with small ids and a few short arrays; lengths of several prefix bytes, components of unknown size and ids at the top of their range are never asked for.",
  ["crates/mabo-meta/src/lib.rs"],
  [("wire size", "crates/mabo-meta/src/lib.rs"), ("next ids", "crates/mabo-meta/src/lib.rs")],
  ["result of wire_size, next_field_id, next_variant_id", "hover text"])
PP = "crates/mabo-parser/src/"
p("M21", "Formatting a schema keeps everything that was written",
  "Printing any parsed schema gives a text that parses again, to the same schema: the same definitions in the same order, with the same names, type parameters, fields, variants, identifiers (given or omitted), data types, attributes, comment lines and literal values. Nothing that parsing accepts in front of a definition is lost on the way.",
  ["programs", "inputs"], "every schema: every definition form, data type, literal and attribute, at any nesting and with any names, numbers and texts",
  "Tests print and reparse about twenty fixed schemas; a missing separator, a literal that prints as another kind or an escape that the parser reads differently needs the one combination of neighbours or characters that nobody wrote down.",
  [PP + "lib.rs", PP + "parser/literals.rs", PP + "punctuated.rs"],
  [("printer", PP + "lib.rs"), ("literals", PP + "parser/literals.rs")],
  ["text written by Display of Schema (mabo fmt)"])
p("M22", "The parser accepts exactly the schema language and reads it as written",
  "Every text of the schema language parses, however it is laid out with white space where the language permits it, and the resulting tree has each definition, field, variant, type, literal and comment with exactly the written names, numbers and characters. Texts that leave out or misspell a mandatory part - keyword, separator, bracket, name, a name's first or other characters, number out of range - are rejected with an error. The parser never panics.",
  ["inputs"], "all names, numbers, strings and white space in every form of every construct; all ordered pairs of neighbouring definitions",
  "The parser tests hold thirty fixed files; grammars fail at the border of two constructs, at a character class or at the end of the text, and these combinations are too many to write down.",
  [PP + "parser.rs", PP + "parser/types.rs", PP + "parser/literals.rs", PP + "parser/fields.rs", PP + "parser/enums.rs", PP + "parser/structs.rs", PP + "parser/attributes.rs", PP + "parser/imports.rs"],
  [("schema and definitions", PP + "parser.rs"), ("data types", PP + "parser/types.rs"), ("literals", PP + "parser/literals.rs"), ("fields", PP + "parser/fields.rs")],
  ["result of Schema::parse"])
p("M23", "Every element's position is the exact range of its text",
  "Each position in the syntax tree - of names, identifiers, keywords, separators, brackets, fields, variants, types, literals and comment lines - covers exactly the text of that element: it starts with its first and ends behind its last character, without white space around it. Error messages, references and the language server's answers point into the source by these positions.",
  ["inputs"], "all elements in all forms and layouts",
  "The snapshots of the tests leave positions out or hold those of a few layouts; an off-by-one range or one that takes in white space shows only in another layout.",
  [PP + "parser.rs", PP + "location.rs", PP + "token.rs", PP + "parser/fields.rs", PP + "parser/enums.rs"],
  [("white space and comments", PP + "parser.rs"), ("fields", PP + "parser/fields.rs"), ("variants", PP + "parser/enums.rs")],
  ["spans of the syntax tree", "labels of errors"])
LS = "crates/mabo-lsp/src/"
p("M24", "The language server's text follows the editor",
  "After every notification about a document the server holds exactly the text the editor has: all changes of a notification applied in order, each to the text left by the one before, whether with or without a range. What it knows about the document - lines, schema, published problems - is that of this text. Deleting a document drops it and no other.",
  ["histories", "inputs"], "every sequence of openings, changes and deletions, any texts and ranges, several changes per notification",
  "No test talks to the server; a text that drifts from the editor's shows only after a specific sequence of edits, and then everything the server says is about the wrong text.",
  [LS + "handlers/mod.rs", LS + "handlers/index.rs", LS + "state.rs"],
  [("did_change", LS + "handlers/mod.rs"), ("did_open", LS + "handlers/mod.rs"), ("positions", LS + "handlers/index.rs")],
  ["documentSymbol, hover and diagnostics after edits"])
p("M25", "Every request gets exactly one answer, every notification is handled in order",
  "The server answers every request of the editor exactly once, with the id of the request and the result of that method, or with an error if the parameters are malformed, the method is unknown or the work fails. Notifications are handled once each, in the order of arrival, and never answered. No message is lost while the server itself waits for a response, and only a shutdown or a closed connection ends it.",
  ["schedules", "inputs"], "every sequence of messages and every point at which they arrive, including between a request of the server and the response to it",
  "No test runs the message loop; a lost message needs one that arrives while the server waits, an unanswered request needs parameters or methods a real editor rarely sends.",
  [LS + "main.rs", LS + "client.rs", LS + "handlers/mod.rs"],
  [("message loop", LS + "main.rs"), ("requests of the server", LS + "client.rs")],
  ["messages written to the connection"])
p("M26", "Positions are counted in the unit agreed on with the editor",
  "The position encoding the server announces is one it can convert and one the editor offered, in the editor's order of preference, or UTF-16 if there is none. Every document, whether found in a project at the start or opened later, is located in that encoding. A byte range and the range of positions made of it denote the same text, and a position and the byte offset made of it the same place.",
  ["inputs"], "every list of offered encodings, every document and every offset and position in it",
  "The tests never start the server; a wrong unit shows only with an editor that prefers another encoding and text outside ASCII.",
  [LS + "handlers/index.rs", LS + "handlers/mod.rs"],
  [("conversions", LS + "handlers/index.rs"), ("negotiation", LS + "handlers/mod.rs")],
  ["announced capabilities", "ranges in every answer of the server"])
p("M27", "Highlighting covers the elements of a document with the right kinds",
  "The highlighting sent for a document consists of tokens in ascending order that never overlap, each exactly the text of one element of the document and with the type and modifiers, by the announced legend, of that kind of element. Every keyword, name, id, comment of a definition, basic type, number and boolean has one.",
  ["inputs"], "every document that parses: all forms of all definitions, data types and literals",
  "No test asks the server for tokens; positions are sent relative to the token before, so one wrong or swapped token moves or mislabels everything behind it, but only in documents with that construct.",
  [LS + "handlers/semantic_tokens.rs", LS + "handlers/mod.rs"],
  [("tokens", LS + "handlers/semantic_tokens.rs"), ("legend", LS + "handlers/mod.rs")],
  ["answer to textDocument/semanticTokens/full"])
p("M28", "The outline of a document is its tree of definitions",
  "The outline the server sends for a document has exactly one entry for every definition, field and variant, in the order and nesting of the document. Each entry carries the element's own name (its position for an unnamed field, the whole path for an import), the kind that belongs to that sort of element, and the range of that name.",
  ["inputs"], "every document that parses: all forms and nestings of definitions",
  "No test asks the server for an outline; a wrong range or a lost entry shows only in a document with that construct, at that position.",
  [LS + "handlers/document_symbols.rs", LS + "handlers/mod.rs"],
  [("outline", LS + "handlers/document_symbols.rs"), ("handler", LS + "handlers/mod.rs")],
  ["answer to textDocument/documentSymbol"])
p("M29", "Hovering shows the facts of the element under the cursor",
  "With the cursor on the name of a module, struct, enum, variant, named field, alias or constant the server answers with that element's own comment and, as configured, its next free id or wire size, for the range of that name. Anywhere else it answers with nothing.",
  ["inputs"], "every document that parses, every position of the cursor in it, every configuration",
  "No test asks the server for hover information; text of a neighbouring element, or an answer just outside of a name, shows only at particular positions of particular documents.",
  [LS + "handlers/hover.rs", LS + "handlers/mod.rs"],
  [("hover", LS + "handlers/hover.rs"), ("handler", LS + "handlers/mod.rs")],
  ["answer to textDocument/hover"])
p("M30", "Published problems point at what is wrong",
  "If a document does not parse or is invalid, the server publishes one problem whose range is the place of the innermost error and whose message is the text of that error. For clashes the range is that of the later element, with the earlier one as related place in the same document. A valid document has no problems and is kept as parsed.",
  ["inputs"], "every variant of every error of the parser and the validation",
  "No test asks the server for diagnostics; there are about 150 different errors, each with code of its own that converts it, and a wrong place or message shows only with that one.",
  [LS + "handlers/compile.rs"],
  [("diagnostics", LS + "handlers/compile.rs")],
  ["textDocument/publishDiagnostics"])
p("M31", "Validation errors name the elements that clash, at their places",
  "The error for a reused name or id names the earlier and the later element, and gives the id or position, in that order and each with its own place in the text. An id that can't be represented, an unused type parameter and a tuple of a wrong size are reported at their own place, with their own name, value or size class.",
  ["inputs"], "every scope of a schema, pair of elements in it, and explicit or derived id",
  "The tests show one message of each kind; derived ids, third elements, later variants and nested modules each have code of their own that could blame the wrong element.",
  ["crates/mabo-compiler/src/validate/%s.rs" % x for x in ("mod", "ids", "names", "generics", "tuples")],
  [("ids", "crates/mabo-compiler/src/validate/ids.rs"), ("names", "crates/mabo-compiler/src/validate/names.rs")],
  ["mabo_compiler::validate::schema errors", "mabo check output", "textDocument/publishDiagnostics"])
p("M32", "Generated Go code states the schema and agrees with itself",
  "For every schema mabo-go writes one file per module with the declarations the schema calls for: names, comments, type parameters, fields and their types, constants. The encode, decode and size functions of each definition treat each field under its own id, with the functions for its own type, in the order of the schema.",
  ["inputs"], "every schema the compiler accepts",
  "Two snapshots fix the output for one sample; every type has its own code in each of four places (declaration, encode, decode, size), nested types and long tuples or arrays are hardly sampled, and nothing compiles the output.",
  ["crates/mabo-go/src/%s.rs" % x for x in ("definition", "encode", "decode", "size")],
  [("declarations", "crates/mabo-go/src/definition.rs"), ("decode", "crates/mabo-go/src/decode.rs")],
  ["mabo_go::render_schema", "mabo-go output files"])

p("M33", "Documentation shows each definition's own facts and its links hold",
  "For every schema mabo-doc renders one page per definition, in the directory of its module, and every link on every page leads to the page meant. Each page states its definition in schema syntax and lists the fields and variants with their own name, type, id, comment and size; index and module pages list every definition once under its kind with the first paragraph of its comment.",
  ["inputs"], "every schema the compiler accepts, at any nesting of modules",
  "Snapshots cover some thirty small schemas with one level of modules; relative links, long lists, deep types and comments with several paragraphs have their own code that no sample reaches.",
  ["crates/mabo-doc/src/lib.rs", "crates/mabo-doc/src/templates.rs", "crates/mabo-doc/templates/detail/struct.html"],
  [("pages", "crates/mabo-doc/src/lib.rs"), ("contents", "crates/mabo-doc/src/templates.rs")],
  ["mabo_doc::render_schema", "the pages written by mabo doc"])

p("M34", "Resolution errors name the use that fails and the declaration it met",
  "A type, module, schema or import that does not resolve is reported under its own name, with the module path where the search ended and its own place in the schema that uses it. A wrong number of type arguments or a definition that can't be used as a type is reported with both numbers or its kind, and with the place of that declaration in the schema that declares it. A schema in which every name resolves gives no error.",
  ["inputs"], "every set of schemas, each use and import in them, at any nesting of types and modules",
  "The tests show one message of each kind, mostly from the first field of the root module; a place or a path is computed in every branch of three separate searches, and the messages look right as long as the text around the place is short.",
  ["crates/mabo-compiler/src/resolve/mod.rs", "crates/mabo-compiler/src/resolve/error.rs"],
  [("searches", "crates/mabo-compiler/src/resolve/mod.rs"), ("errors", "crates/mabo-compiler/src/resolve/error.rs")],
  ["mabo_compiler::resolve_schemas errors", "mabo check output"])

p("M35", "Parse errors name the part at fault, at the place where the text breaks",
  "Every position in the error for a schema that can't be parsed is a place in that schema, neither before the definition at fault nor behind the first text that can't be read, and no range in it ends before it starts. An error that names a character as the problem gives the place of exactly the first one that can't be read. A name of a definition, variant, field, type parameter or import segment that is missing or starts with a wrong character is reported as a bad name of that kind.",
  ["inputs"], "every text that the parser rejects, in any definition and at any depth of modules",
  "The tests show one message for about forty faults, most of them in the first definition; positions are computed in some thirty closures, and a place that is off stays unnoticed as long as the fault is near the start.",
  ["crates/mabo-parser/src/parser/%s.rs" % x for x in ("structs", "enums", "fields", "consts", "imports")] + ["crates/mabo-parser/src/ext.rs", "crates/mabo-parser/src/location.rs"],
  [("causes", "crates/mabo-parser/src/parser/fields.rs"), ("positions", "crates/mabo-parser/src/ext.rs")],
  ["mabo_parser::Schema::parse errors", "mabo check output", "textDocument/publishDiagnostics"])

p("M36", "Every diagnostic shows the places, names and causes its error holds",
  "The diagnostic of every error of the parser and the compiler labels each place that the error holds (or states it in the message), unchanged, and nothing else; where it has two places, the labels tell declaration and use apart. Its message, help and labels show every name, id, kind and number of the error, each in its own role. An error that wraps another shows that one's labels, help and code, or the error itself, and an error about another schema brings that schema's text.",
  ["inputs"], "every kind of error of the parser, validation and type resolution, with any values",
  "The tests render about thirty of the 121 kinds of errors, each with one value; the methods come from derive macros, one of them the repository's own, and from attributes on each field.",
  ["crates/mabo-compiler/src/resolve/error.rs", "crates/mabo-compiler/src/validate/ids.rs", "crates/mabo-compiler/src/validate/names.rs", "crates/mabo-compiler/src/validate/generics.rs", "crates/mabo-parser/src/error.rs", "crates/mabo-derive/src/cause.rs", "crates/mabo-derive/src/error.rs"],
  [("labels and helps", "crates/mabo-derive/src/cause.rs"), ("wrapped errors", "crates/mabo-compiler/src/resolve/error.rs")],
  ["miette reports of mabo check", "miette::Diagnostic impls", "textDocument/publishDiagnostics"])
