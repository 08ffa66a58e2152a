"""Which rule modules decide which property, and what the evidence says about them."""

BASE_ASSUME = [
    "the MIR that rustc (pinned nightly, -Zmir-opt-level=0 equivalent, unmodified sources, default features) builds from /repo is what the stable compiler compiles",
    "models of the standard library and of the `bytes` crate in lib/models.py are faithful (each is a few lines; unknown functions stay opaque)",
    "usize has 64 bits",
]

PATHS = ("Each function is interpreted abstractly over its MIR: values are abstract terms (which data they hold, not numbers; no solver), branches partition the paths, loops are "
         "summarised by one arbitrary iteration (accumulators become sums or repetitions), workspace callees are inlined and closures followed. ")

GENX = PATHS + "Token streams are symbolic lists whose holes remember where each spliced value comes from; `quote!`, `ToTokens` and iterator adapters are modelled. "

GEN_ASSUME = BASE_ASSUME + ["the model of quote/proc-macro2 token building in lib/models.py is faithful", "allow/automatically_derived attributes on generated items have no effect on behaviour"]

SYMTEXT = ("Texts of the schema language are put together from pieces - fixed characters, one or any number of characters of a class, unknown numbers, nested types and literals - along with the syntax tree they stand for. "
           "The MIR of the parser is interpreted on them: winnow's combinators by their meaning, the repository's own parsers and closures by their code, splitting cases where a class overlaps with what is tested. ")
RULES = {
    "M01": {
        "modules": ["p_size"],
        "explain": PATHS + "For every encoder of the runtime the bytes written on each path (sum of the widths of the writer calls, element loops as sums) are compared "
                   "with the term the matching size function returns under the same conditions.",
        "rule": "size(path condition) = sum of widths written under the same path condition, for every pair of compatible paths; writer primitives have their documented width, varints the (M05-decided) varint size",
        "technique": "path-sensitive abstract interpretation over MIR (path summaries), byte counts of encoder and size function compared",
        "note": "Every encoder/size pair of the runtime crate, every path, all inputs. Trusts the width table of the buffer writer calls and the model of the standard library.",
    },
    "M02": {
        "modules": ["p_mirror"],
        "explain": PATHS + "For every encode path there must be a decode path that reads the same sequence of primitives, whose branch conditions hold for the written values, and whose result is "
                   "the encoded value after substituting what was written for what was read.",
        "rule": "for each encode path: exists decode path with equal wire shape, satisfied conditions, result = input; every length prefix equals the bytes that follow it",
        "technique": "path-sensitive abstract interpretation over MIR (path summaries), encoder traces matched against decoder traces",
        "note": "Every encoder/decoder pair of the runtime crate, every path, all values. Element callbacks are assumed to be a matching pair themselves (structural induction).",
    },
    "M03": {
        "modules": ["p_decsafe"],
        "explain": PATHS + "On every path of every decoder each buffer access carries an obligation (bytes remaining >= bytes taken), discharged from the checks that dominate it on that path; panic exits must be contradictory.",
        "rule": "each read/advance/copy on a buffer is preceded on its path by a check that bounds it; no feasible path ends in a panic, failed assertion or index check",
        "technique": "path-sensitive dataflow over MIR: availability facts discharge buffer-access obligations",
        "note": "All decoders, all paths, all inputs. Assumes Buf implementations keep their contract and element callbacks do not panic themselves.",
    },
    "M04": {
        "modules": ["p_progress"],
        "explain": PATHS + "Successful decode paths must contain at least one read of non-zero width, each iteration of a loop over the remaining input must read, and capacity arguments derived from decoded lengths must be covered by a length check.",
        "rule": "Ok path => at least one byte consumed; loop iteration on the reader => at least one byte consumed; allocation(n from input) => n <= remaining established before",
        "technique": "progress (ranking) argument over MIR path summaries plus taint of decoded lengths into allocation sizes",
        "note": "All decoders and their loops. The rank is the number of remaining bytes.",
    },
    "M05": {
        "modules": ["p_varint"],
        "explain": "Bit-provenance interpretation of the MIR of the varint functions: every bit of every value is an XOR of input bits, branch conditions become linear facts over those bits, loops are followed to "
                   "their statically bounded end. Each output bit of every path is compared with the bit the format prescribes.",
        "rule": "encode: byte j carries bits 7j..7j+6 and a continuation bit, minimal length; size = that length; decode on the encoded form followed by anything gives the value and its length; no panics; never accepts an unterminated input",
        "technique": "bit-level dataflow (GF(2)-affine provenance) over MIR, exhaustive over the paths of each width",
        "note": "All 8 widths, every value and every input slice; exact, no sampling.",
    },
    "M06": {
        "modules": ["p_fieldid"],
        "explain": "Bit-provenance interpretation of identifier packing, unpacking, transport, sizing and of skipping: every bit of the packed word is matched against the wire format, for every marker.",
        "rule": "packed = id << 3 | marker; unpack inverts it, rejects exactly the undefined markers; size = varint length of the packed word; skip consumes exactly one value of the marker's form",
        "technique": "bit-level dataflow over MIR plus trace shape of the skip function, per marker",
        "note": "All identifiers below 2^29 and all markers; skipping of varints up to 19 bytes, of length-prefixed values of any length.",
    },
    "M08": {
        "modules": ["p_nonzero"],
        "explain": PATHS + "Every function of the runtime whose result can contain the container is analysed: on each path the wrapped value must be known to be non-empty. Field visibility and mutable access are checked over all bodies.",
        "rule": "construction => emptiness excluded on that path; content private; no mutable borrow of the content; the checked constructor refuses only empty values",
        "technique": "typestate of the container over MIR paths, visibility and mutable-borrow scan",
        "note": "All constructions in the defining crate (the field is private, so there are no others).",
    },
    "M09": {
        "modules": ["p_frame"],
        "explain": PATHS + "On every successful path of every decoder, each window opened for a length prefix must be covered by a check that so many bytes are left, and must be exhausted when the path returns.",
        "rule": "take(n) => n <= remaining established on the path; Ok => the window was seen empty or advanced to its end",
        "technique": "path-sensitive dataflow over MIR: availability and exhaustion facts of sub-buffers",
        "note": "All decoders, all paths. Element callbacks are assumed to read only through the window they are given.",
    },
    "M07": {
        "modules": ["p_genmark"],
        "explain": GENX + "The first half of the generator's result for a whole field is the wire marker; it is compared with the marker whose skip rule (decided by M06) consumes exactly one value of the "
                   "form that the second half writes (decided by M10 and M02).",
        "rule": "for every data type x every non-zero inner type x every byte type option: marker = form of the value; types without a matching marker are reported",
        "technique": "trace-partitioned abstract interpretation of the code generator over MIR: emitted token templates compared per data type",
        "note": "Every data type variant as a field, every option. Findings for nested options and external types are listed.",
        "assume": GEN_ASSUME,
    },
    "M10": {
        "modules": ["p_gentype"],
        "explain": GENX + "For each of encode, decode, size and type definition the emitted tokens of every data type are compared with the required text, in which nested generator calls stand for the code of the "
                   "component type (structural induction over the data type).",
        "rule": "for every part x data type x non-zero inner type x byte type option x root flag: emitted tokens = required tokens up to alpha renaming of closure parameters and trailing separators; no panic path for an accepted type",
        "technique": "trace-partitioned abstract interpretation of the code generator over MIR: emitted token templates compared per data type",
        "note": "All data types, all options, all nestings (by induction). The required text encodes the runtime's interface; whether the runtime functions themselves are right is M01-M09.",
        "assume": GEN_ASSUME,
    },
    "M11": {
        "modules": ["p_genproto"],
        "explain": GENX + "The public entry is evaluated for every kind of definition; field and variant loops become one arbitrary iteration, so the templates stand for any number of fields. Encode, decode and size "
                   "implementations are compared item by item with the required text.",
        "rule": "struct/enum x field form x optional/required x generics: encode writes (id of the field, its marker, its value) and the end marker; decode matches the same ids, skips others, requires required fields; size adds the same parts",
        "technique": "trace-partitioned abstract interpretation of the code generator over MIR: emitted items compared per definition kind",
        "note": "Any number of fields, variants and generics; every field type in first position of the partition.",
        "assume": GEN_ASSUME,
    },
    "M12": {
        "modules": ["p_gendecl"],
        "explain": GENX + "The type declaration, alias, module, import and constant templates of the public entry are compared with the required text, constants for every pair of type and literal.",
        "rule": "every definition kind: declared name, generics, fields, variants, documentation, target and value appear where the format puts them; every constant that fits its type is emitted",
        "technique": "trace-partitioned abstract interpretation of the code generator over MIR: emitted items compared per definition kind",
        "note": "All definition kinds; nested modules by induction.",
        "assume": GEN_ASSUME,
    },
    "M13": {
        "modules": ["p_simplify"],
        "explain": PATHS + "The function that simplifies a parsed schema is evaluated on an arbitrary schema, partitioned by definition kind, field form, data type, literal kind and by which optional parts are present. "
                   "The symbolic result is compared part by part with the parsed term it has to come from.",
        "rule": "every part of the simplified schema = the parsed part of the same name: comments, names, type parameters, fields, variants, segments element by element in order, none dropped, added or doubled; data types, literals and field kinds variant by variant; "
                "ids are the explicit one or the counter, which starts at 1 and is the previous id plus one; components of data types through the recursion",
        "technique": "trace-partitioned abstract interpretation over MIR: result terms compared with the source terms they must equal",
        "note": "All schemas; nested modules and data types by induction over the recursive calls.",
    },
    "M14": {
        "modules": ["p_valid"],
        "explain": PATHS + "The public validation entry is evaluated on an arbitrary schema. Every accepting path must contain, for every scope and element kind, a loop over all elements in which each one's key is "
                   "tested to be new in a collection created once per scope; every rejecting path must end in one of the sanctioned reasons.",
        "rule": "accepting path => for each scope and kind: key (name, explicit id, derived id) inserted/looked up as new in a per-scope collection for all elements; ids within 1..2^29-1; type parameters minus used ones are empty; "
                "omitted id = previous + 1 from 1; rejecting path => repeated key of the same scope, id out of range, left-over parameter, or rejection by a recursive call or type walker",
        "technique": "path-sensitive abstract interpretation over MIR (path summaries): universally quantified trace obligations on accepting and rejecting paths",
        "note": "All schemas; nested modules by induction over the recursive call. The data type walkers are opaque here (M15).",
    },
    "M15": {
        "modules": ["p_types"],
        "explain": PATHS + "Every recursive function over data types is evaluated once per data type variant; each component type (read from the declaration of the data type) must be handed to the recursion on every accepting path, "
                   "its failure being passed on. The validation entry must hand the type at every position to a function that, evaluated on tuples of 0 to 20 elements, accepts exactly 2 to 12; and, under type parameters, to one that takes the named parameter out of the unused ones.",
        "rule": "walker x data type variant x component: recursion reached (and its Err returned) on every accepting path; position x duty: such a walker is called on that type in every accepting path; list iterators yield elements 0..n in order",
        "technique": "trace-partitioned abstract interpretation over MIR: structural induction obligations over the data type declaration",
        "note": "All data types, depths (by induction) and positions; tuple sizes up to 20, list iteration for 1 to 5 elements.",
    },
    "M16": {
        "modules": ["p_resolve"],
        "explain": PATHS + "The parts of type resolution (tree of declarations, collection of used types, lookup within the schema, in imports and along paths) are found by their parameter types and each is evaluated on arbitrary "
                   "arguments with the others kept opaque. Accepting outcomes must hold the evidence that the name denotes a struct or enum of the right module with the right number of type parameters; rejecting ones the evidence that it does not.",
        "rule": "tree: every definition recorded once under its name, kind and number of parameters; used types: each position walked, each visited type found locally, a type parameter, or passed on; lookup Ok => all path segments followed in order, "
                "declared name = used name, kind struct or enum, parameter count = argument count; Err => one of these fails; imports: each resolved in the schema of its first segment; nested modules handled by the recursion",
        "technique": "path-sensitive abstract interpretation over MIR (path summaries), per part of the resolver: evidence obligations on accepting and rejecting outcomes",
        "note": "All sets of schemas, module depths and path lengths (loops by one arbitrary iteration; path conditions and argument counts compared by evaluation of small numbers). The data type walkers are opaque here (M15).",
    },
    "M17": {
        "modules": ["p_generators"],
        "explain": PATHS + "The functions that lead from a loaded project to written files are found in the call graph and interpreted with parser, compiler and code generators opaque; every path is checked against the order of "
                   "its checks and writes, and against what it reports.",
        "rule": "each write: content = generated from simplify(parse(read(file))) of a project file, after a complete loop in which every file parsed and validated and after resolving all of them, each successfully; path reporting success => no failed call on it, "
                "none unlooked at, the code of every project file written under a name of its own; a tree of modules is written completely",
        "technique": "path-sensitive typestate over MIR path summaries (checked-before-written, failure-reported), provenance of written content and paths",
        "note": "Every path of both generators, any number of files. Loops by one arbitrary iteration; a failed file system call stands for any I/O error.",
    },
    "M18": {
        "modules": ["p_cli"],
        "explain": PATHS + "The functions behind the subcommands of the `mabo` tool are found by their argument types and interpreted; each path is checked against the verdict or effect that the subcommand promises.",
        "rule": "check: success <=> every file parsed and validated and all resolved; fmt: a file is written iff its text differs from the printed form of its own parsed schema, with that form; doc: rendered from every project file, below the output directory; "
                "failed call => error, error => failure exit status; file patterns select the .mabo files among the matches",
        "technique": "path-sensitive typestate over MIR path summaries, provenance of written content and paths",
        "note": "Every path of the three subcommands. What the printer writes is not judged here (M21).",
    },
    "M19": {
        "modules": ["p_project"],
        "explain": PATHS + "Loading a project is interpreted with the directory walk and the glob matcher opaque; the list of files returned is compared, per alternative of the walk, with what was tested about the file.",
        "rule": "file in the list <=> its path relative to the project matches the set of all patterns and its extension is mabo; patterns don't match across directories with `*`; the description is read from Mabo.toml in the project; failed call => error",
        "technique": "path-sensitive dataflow over MIR: selection condition of each walked file",
        "note": "All projects. Trusts the ignore, globset and toml crates.",
    },
    "M20": {
        "modules": ["p_meta"],
        "explain": PATHS + "The wire size function is interpreted once per data type variant with the sizes of the component types left symbolic (structural induction); the resulting closed terms and path conditions are then "
                   "compared with the true bounds of the encoding over representative component sizes and counts, overflow checks included. The next-id functions' results are compared with 1 + highest id in use, and the printed form with the bounds it is made from.",
        "rule": "per data type: min = length of its shortest encoding, max = that of its longest or none, no overflow, components listed in order; unknown for external types; next id = 1 + max over all ids, 1 if none, none at the top or for unit; "
                "printed: `min..max`, `n` only if both are equal, `min..` only if open, every component",
        "technique": "trace-partitioned abstract interpretation over MIR to closed terms, compared with the wire format's bounds",
        "note": "All data types by induction; component sizes from a table of 11 kinds, array lengths from a table up to 2^32-1. Bounds of non-zero types only have to contain the truth loosely.",
    },
    "M21": {
        "modules": ["p_print"],
        "explain": SYMTEXT + "Each such tree is handed to the abstractly interpreted printer, whose output (literal pieces, unknown names and numbers, nested elements) is in turn the input of the parser; the tree that comes back is compared piece by piece. "
                   "Types and literals inside of others stand for any type or literal (structural induction); each of their forms is printed and parsed on its own.",
        "rule": "for each form of definition, ordered pair of definitions, data type and literal: parse(print(tree)) = tree (positions aside), never rejected, no panic; every part accepted in front of a definition has a place in the tree",
        "technique": "abstract interpretation of printer and parser over MIR, composed: texts as sequences of character classes, parser combinators by their meaning, structural induction over nested elements",
        "note": "All names, numbers, characters (by character class); lists up to three or four elements, modules up to depth three. Assumes the meaning of winnow's combinators and that names are none of the built-in words.",
    },
    "M22": {
        "modules": ["p_parse"],
        "explain": SYMTEXT + "Every outcome of parsing is compared with the expected tree. Texts spoiled in one place (a part missing, replaced, with a wrong first or a bad further character, a number too large) may only have outcomes that are errors. "
                   "What follows nested elements in all these texts is checked to be among the characters with which the elements on their own were tried.",
        "rule": "text of the language, any white space at each place that permits it => exactly one reading, the expected tree, with the very pieces of the text as names and numbers; spoiled text => error; no panic",
        "technique": "abstract interpretation of the parser over MIR: parser combinators by their meaning on texts of character classes, with case splits on overlapping classes; structural induction over nested elements",
        "note": "Per construct and for ordered pairs of definitions; one place at a time with arbitrary white space, the others canonical or tight. Lists up to three or four elements. Assumes the meaning of winnow's combinators and that names are none of the built-in words.",
    },
    "M23": {
        "modules": ["p_spans"],
        "explain": SYMTEXT + "Every position of the resulting tree is compared with the border between two pieces of the text at which the element starts or ends.",
        "rule": "for each element in each form and layout: start = in front of its first piece, end = behind its last piece",
        "technique": "abstract interpretation of the parser over MIR, positions kept as borders between pieces of the text",
        "note": "Same texts as M22.",
    },
    "M24": {
        "modules": ["p_edits"],
        "explain": "Each handler of a text notification is interpreted over MIR for one to three changes, each with or without a range, on a document with any text. Texts are terms over the operations on the editable text (cut, insert), positions are terms over the line index they were looked up in. The document that is kept afterwards and what was published are compared with the text the protocol defines.",
        "rule": "kept text = editable text = text of the line index = the changes applied one after the other, each located in the text left by the previous one; schema and published diagnostics are those of this text; a deleted document, and no other, is dropped",
        "technique": "abstract interpretation over MIR with texts and positions as terms",
        "note": "ropey, line-index and the self-referencing file are modelled by their contracts; positions sent by the editor are assumed to exist in the text.",
    },
    "M25": {
        "modules": ["p_requests"],
        "explain": "The message loop is interpreted over MIR on sequences of messages with unknown ids and parameters: each method alone, unknown methods, shutdown, and messages that arrive between a request of the server and the response to it. Every response that is sent and every handler that runs is compared with the messages taken from the connection.",
        "rule": "exactly one response per request, with its id: the handler's result, its error, invalid parameters or an unknown method; exactly one run of the handler of its method per notification, in order; no other responses; the loop ends only on shutdown or a closed connection; what is announced is handled",
        "technique": "abstract interpretation of the message loop over MIR",
        "note": "Deserialization may succeed or fail; the work of the handlers is opaque unless they take messages off the connection themselves. Sending never fails while the connection is up.",
    },
    "M26": {
        "modules": ["p_units"],
        "explain": "The handler of `initialize` is interpreted over MIR for thirteen lists of offered encodings (none, empty, each supported one, pairs, unknown ones first) with a project that contains one file; the handlers that open or replace a document for each agreed encoding; and every function that converts between byte offsets and positions for each encoding of the line index.",
        "rule": "announced encoding is one the line index converts, offered by the editor (or UTF-16); it is the one kept for later documents and the one of every line index created; start is converted to start and end to end, in that encoding, with the lines of that index",
        "technique": "abstract interpretation over MIR with positions as terms",
        "note": "line-index's conversions are taken by their contract. An offset that has no position ends in an error and is not compared.",
    },
    "M27": {
        "modules": ["p_tokens"],
        "explain": "The handler for highlighting is interpreted over MIR, from the syntax tree to the numbers of the answer, for a document of each form of each definition, each ordered pair of definitions, and each form of data type and literal inside of them. "
                   "Lines of the document are numbers, columns are unknowns. The relative positions of the answer are added up again and compared, as linear expressions over the columns, with the start and end of the elements of the document; types and modifiers are looked up in the legend that the handler of `initialize` announces.",
        "rule": "each token = the whole of one element, on its line, in ascending order, none twice, with the announced type and modifiers of that kind of element; keywords, names, ids, comments of definitions, base types, numbers and booleans are all covered; no failure, no panic, an answer",
        "technique": "abstract interpretation over MIR: positions as linear terms over unknown columns, per form of the syntax tree",
        "note": "Per construct and for ordered pairs of definitions; types and literals inside of others by one representative each. Conversion of offsets to columns is M26's.",
    },
    "M28": {
        "modules": ["p_symbols"],
        "explain": "The handler for the outline is interpreted over MIR for a document of each form of each definition, each ordered pair of definitions, and each form of data type and literal inside of them (lines are numbers, columns and names are unknowns), and the tree of entries it returns is compared with the tree of definitions.",
        "rule": "one entry per definition, field and variant, in the order and nesting of the document; name = its own name (position for unnamed fields, whole path for imports), fixed kind per kind of element, both ranges = range of that name; an answer without failure for unknown and broken documents too",
        "technique": "abstract interpretation over MIR: names and positions as terms, per form of the syntax tree",
        "note": "Per construct and for ordered pairs of definitions; lists up to three or four elements. Conversion of offsets to positions is M26's.",
    },
    "M29": {
        "modules": ["p_hover"],
        "explain": "A document of each form of each definition and each ordered pair is simplified and the handler for hovering is interpreted on it over MIR, with the cursor in every piece of the text in turn. The answer is compared with the element whose name the cursor is on; "
                   "the functions that know the next free id and the wire size are replaced by ones that return their argument, so that the answer shows which element was asked about.",
        "rule": "cursor on a name => comment of that element, its next free id (structs, enums, variants) or wire size (named fields) as the settings ask for it, range of the name; elsewhere => no answer; no failure for unknown and broken documents",
        "technique": "abstract interpretation over MIR: cursor as a place between pieces of the text, comments and results of queries as terms",
        "note": "Per construct and for ordered pairs of definitions; every setting; known and unknown sizes and ids. That those numbers are true is M20's.",
    },
    "M30": {
        "modules": ["p_problems"],
        "explain": "Every form of error that parsing or validation can end with is built from the definitions of the error types, with every place in it a different unknown, and the function that makes a diagnostic of it is interpreted over MIR. Range, message and related places of the diagnostic are compared with the error.",
        "rule": "problem => diagnostic, at the place of the innermost error (its cause's place or its own range), with the text of one of the errors on the way there; clash => at the second element, the first one related, in the same document; no problem => the very tree that was parsed; no panic",
        "technique": "abstract interpretation over MIR, enumeration of the error types' variants from the type-checked program",
        "note": "Each error type once on each way from the outside to the inside, recursive ones twice. That the places in the errors themselves are true is M31's.",
    },
    "M31": {
        "modules": ["p_clashes"],
        "explain": "Syntax trees of every kind of definition, with unknown names and one thing wrong with each (two elements of one scope with the same name or id, an id that can't be represented, an unused type parameter, a tuple of a wrong size), are given to the validation, which is interpreted over MIR with maps of known contents. The error it ends with is compared with what is wrong: names, ids, positions and places of the elements.",
        "rule": "clash => error of that kind with the earlier element as first and the later as second, each at its own place and with its own name or position; id out of range => its place; unused parameter => its name and place; tuple => its size class and a place with the tuple; nothing wrong => no error",
        "technique": "abstract interpretation over MIR on syntax trees enumerated from the type-checked program",
        "note": "Scopes of up to three elements, every pair of kinds of definitions, explicit and derived ids in every combination; one defect per schema. Whether a schema is rejected at all is M14's; the words of the messages are not judged.",
    },
    "M32": {
        "modules": ["p_gocode"],
        "explain": "The function that writes the Go code is interpreted over MIR for about 370 schemas (every type, composites within composites, tuples of 2 to 12, arrays of 1 to 33, type parameters, forms of fields, comments, nested modules, constants, imports), with the case conversion of names left open. "
                   "The text it writes is split into tokens and compared with what the schema calls for by a description of the Go code that is independent of the generator.",
        "rule": "one file per module, named after it; per definition the declaration with its comments, type parameters, fields and their types in order, the constructor, and encode, decode and size functions that treat each field by its own id, type and name, with the end marker unless there are no fields; the found-check per field; no panic",
        "technique": "abstract interpretation over MIR of the generator, token-wise comparison with an independent description",
        "note": "The generator is unfinished: its known gaps are listed as known findings, each one at its own construct, the rest of the same text is still compared. Line breaks and how string constants are escaped are not judged.",
    },
    "M33": {
        "modules": ["p_pages"],
        "explain": "The function that renders the documentation is interpreted over MIR, the code its templates compile to included, for about 300 schemas (every type, composites, generics, forms of fields with ids in any order, comments with several paragraphs and blank lines, modules down to four levels, imports, constants). "
                   "What each page shows (text, links resolved from the place of the page, schema listing, Markdown parts) is compared in reading order with what the schema calls for.",
        "rule": "one page per definition under the directory of its module, tables by kind in the order of the schema with the first paragraph of each comment, breadcrumbs and tables that lead to the page meant, the definition in schema syntax, fields and variants with their own name, type, id, comment and size, the next free id; text from the schema is escaped",
        "technique": "abstract interpretation over MIR of the generator and its compiled templates, comparison of page contents with an independent description",
        "note": "The Markdown renderer and the size calculation (M20) are taken as given; tags, classes and white space outside the schema listing are not judged. Writing the pages to disk is M18's.",
    },
    "M34": {
        "modules": ["p_blame"],
        "explain": "The resolution of types is interpreted over MIR, with maps of known contents, on about 1200 sets of parsed schemas with at most one defect each: every kind of defect, in types, paths and imports, at every place a type can have, in modules up to three levels deep, with the schemas in different orders, with and without paths. "
                   "The error it ends with is compared with the defect: names, module path, numbers, kind, and the places of the use and of the declaration, each in the text of its own schema.",
        "rule": "defect => error of that kind with the name of what is missing, the path of the module where the search ended, place of the use (or of the path segment that is missing), source = the schema with the use; other numbers or kinds => both numbers, the kind, the place of the declaration and the source of the schema that declares it; no defect => no error",
        "technique": "abstract interpretation over MIR on parsed schemas with known names and places, enumerated by kind and place of the defect",
        "note": "One defect per set of schemas; a type that fails in its own schema while that schema imports something may be reported either way and isn't judged. The words of the messages are not judged.",
    },
    "M35": {
        "modules": ["p_faults"],
        "explain": "The parser is interpreted over MIR on about 660 texts outside the language, each of which misses or spoils one thing, with character classes for the pieces of the text; all closures that make or wrap errors are followed. "
                   "The error at the end of every path is taken apart: the definition it is of, the cause, and each position in it, which is compared with the place where that path stops reading.",
        "rule": "every position of an error is a place at which the parser stood: not behind the furthest text it read, not before the definition at fault; an error that names a character gives the place of the first one that can't be read; a name that is missing or starts wrong => the cause for that kind of name; an error of a kind of definition => such a definition is being read",
        "technique": "abstract interpretation of the parser combinators over MIR on texts of character classes, with tracked error positions",
        "note": "One fault per text. How wide the range of an error is isn't judged beyond its order, nor the words of the messages. One known finding: the ends of ranges are distances.",
    },
    "M36": {
        "modules": ["p_render"],
        "explain": "For every type of the parser and the compiler that is a diagnostic, and every variant of it (121 kinds of errors), the methods that a report is made of - message, help, labels, related errors, code, source text, derived by three different macros or written by hand - are interpreted over their expanded MIR on a value with unknown fields. "
                   "What they return is a term over those fields, so that each label, word and forwarded part is traced back to the field it comes from.",
        "rule": "each place of the error => one label (or a mention) and each label => exactly one place, unchanged; each name, id and number => shown unchanged in message, help or label, in the order of the sentence; label of a declaration and of a use say so; wrapped error => its labels, help, code and related errors, or itself as related; own source text => given",
        "technique": "abstract interpretation over MIR of the derived and hand-written diagnostic methods on values with unknown fields; def-use of every field",
        "note": "The words of messages are judged only where they tell two places or numbers apart. Uniqueness of codes isn't judged. How miette draws a report is outside.",
    },
}
for _r in RULES.values():
    _r.setdefault("assume", BASE_ASSUME)
    _r.setdefault("level", "other")
