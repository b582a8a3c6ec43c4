# The properties: properties.jsonl and MANIFEST.json are written from this table (tools/mkmeta.py).
PROPS = []
def prop( id, title, statement, over, text, why, files, mech, level_note, technique, claimed = True, na = None ):
    PROPS.append( dict( id = id, title = title, statement = statement, over = over, text = text, why = why, files = files, mech = mech, level_note = level_note, technique = technique, na = na ) )

prop( "C09", "String interning and the macro table are exact maps from text",
  "Within one context, interning returns a string with exactly the given bytes, and two interned strings up to the configured cache length share storage if and only if their bytes are equal, however many strings are interned and even when they share a hash. A registered macro is found by exactly its name, with the kind and flags it was last registered with, and a name that was not registered is not found. Strings handed out earlier keep their address and content through all later interning, registration and context growth.",
  [ "inputs", "histories" ], "every sequence of interning and macro registration over strings of any length and content, including engineered hash collisions and tiny arena sizes",
  "The tests intern only the names of the few sources they parse; collisions, limits and arena roll-over depend on the history of strings.",
  [ "base/components/interface.cpp", "base/components/types.hpp", "base/dependencies/hashing.cpp" ],
  [ ( "cache_str / get_cached_str_allocator", "base/components/interface.cpp" ), ( "register_macro / lookup_macro", "base/components/interface.cpp" ), ( "crc32 key", "base/dependencies/hashing.cpp" ) ],
  "Generated histories against std::map models, with strings engineered to collide in the hash; AddressSanitizer on. Bounded history length.", "stateful model-based property testing with shrinking" )

prop( "C10", "Strings and string builders behave like a reference byte string",
  "For every sequence of string-builder operations (append, format append, trim, replace spaces, clear, comparison, search, reserve and shrink) the content, length and terminating NUL are those of the same operations on a plain byte string, whatever the growth pattern. Comparison, containment, trimming, visualization and character-search helpers on strings agree with a byte-wise reference for every input, including empty and prefix-related ones.",
  [ "inputs", "histories" ], "every content (any byte except NUL), length up to several growth steps, and operation order",
  "Growth boundaries, empty operands and prefix relations are a combinatorial space; the tests use the builders on one path only.",
  [ "base/dependencies/strings.hpp", "base/dependencies/strings.cpp", "base/dependencies/string_ops.cpp", "base/dependencies/string_ops.hpp" ],
  [ ( "strbuilder_* growth and header bookkeeping", "base/dependencies/strings.hpp" ), ( "c_str_* and char_* helpers", "base/dependencies/string_ops.cpp" ) ],
  "Generated operation sequences compared with std::string after every step under AddressSanitizer. Operations that alias the builder with its own content are outside the domain.", "stateful model-based property testing with shrinking" )

prop( "C11", "Dynamic arrays and hash tables behave like reference containers",
  "For every sequence of operations, a dynamic array holds exactly the elements of a reference sequence in order (append, insert at, append ranges, remove at, pop, fill, resize, reserve, clear), reports whether an operation was possible, and never touches memory outside its allocation. For every sequence of set, get, remove, map, rehash and clear, a hash table maps exactly the keys of a reference map to their last values, through every growth.",
  [ "histories", "inputs" ], "every operation sequence, element size, index (including out of range) and key distribution, including keys that share a bucket",
  "Container faults need particular operation orders around growth and collisions; the tests never exercise them directly.",
  [ "base/dependencies/containers.hpp" ],
  [ ( "array_* (header, growth formula)", "base/dependencies/containers.hpp" ), ( "hashtable_* (open chains over entry indices)", "base/dependencies/containers.hpp" ) ],
  "Generated operation sequences compared element by element with std::vector / std::map under AddressSanitizer.", "stateful model-based property testing with shrinking" )

prop( "C12", "Allocators hand out disjoint, aligned, preserved memory within their bounds",
  "For every sequence of requests to the heap, arena, pool, virtual-memory and fallback allocators, each block returned lies wholly inside the allocator's memory, has the requested alignment, does not overlap any other live block, and keeps its content until freed or resized (a resize preserves the common prefix). A request that cannot be satisfied is refused without disturbing live blocks, and temporary-memory snapshots restore exactly the earlier usage. The memory copy, move, set, compare and find helpers agree with a byte-wise reference for every length, alignment and overlap.",
  [ "histories", "inputs" ], "every sequence of allocation, resize, free, free-all and snapshot calls with generated sizes and alignments; every buffer length and overlap",
  "Overlap and boundary bugs depend on the order and size of requests; the tests only use the default heap on one path.",
  [ "base/dependencies/memory.cpp", "base/dependencies/memory.hpp" ],
  [ ( "arena_allocator_proc / pool_allocator_proc / heap_allocator_proc", "base/dependencies/memory.cpp" ), ( "mem_copy / mem_move / mem_set / mem_find", "base/dependencies/memory.cpp" ), ( "fallback allocator", "base/components/interface.cpp" ) ],
  "Shadow-memory model over generated request histories, with guard bytes and AddressSanitizer.", "stateful model-based property testing with shrinking" )

prop( "C13", "Formatted printing and number conversion produce exactly the specified text",
  "For every format made of the supported directives (%d %i %u %x %X %o %c %s %S %SB %p %f %r %% with flags, width, precision and size modifiers) and matching arguments, formatting produces exactly the text the directive specifies and reports length plus one; when the buffer is too small it writes the maximal prefix that fits, terminated, never writes past it, and reports failure. Converting integers to text in any base from 2 to 36 and back gives the same integer, text-to-number conversions agree with the C library on valid text, and the CRC and hash functions equal their published definitions.",
  [ "inputs" ], "every combination of directives, flags, widths, precisions, argument values and buffer sizes in the documented domain",
  "The space of directive combinations, extreme values and buffer sizes cannot be enumerated by samples; the tests print only a few fixed messages.",
  [ "base/dependencies/printing.cpp", "base/dependencies/string_ops.cpp", "base/dependencies/hashing.cpp" ],
  [ ( "c_str_fmt_va and its _print_* helpers", "base/dependencies/printing.cpp" ), ( "i64_to_str / u64_to_str / c_str_to_i64 / c_str_to_f64", "base/dependencies/string_ops.cpp" ), ( "crc32 / crc64", "base/dependencies/hashing.cpp" ) ],
  "Differential against snprintf/strtoll/bitwise CRC references over generated formats and arguments; %f compared to within one unit of the last decimal.", "differential property testing with shrinking" )

prop( "C15", "Contexts are independent, deterministic and return everything they take",
  "The same work (parsing, building, formatting, interning) gives the same text in every context, whatever sizes and allocators the context was configured with, whatever other contexts did before or do in between, and after any number of resets. Code held by one context keeps serializing to the same text while other contexts are created, used, reset and released. Releasing a context returns every block of its containers, code pools and string arenas to its allocators and leaves no current context behind if it was the current one.",
  [ "histories", "configurations" ], "every interleaving of init, set_context, work, reset and deinit over several contexts with generated limits",
  "Cross-context leakage and growth faults appear only for particular histories and small limits; the tests use one context with default sizes.",
  [ "base/components/interface.cpp" ],
  [ ( "init / reset / deinit / set_context", "base/components/interface.cpp" ), ( "make_code pools, string arenas, fallback buckets", "base/components/interface.cpp" ) ],
  "Generated lifecycles with counting allocators against a fresh-context reference; contexts are released newest first, temporary strings belong to the caller's temporary allocator.", "stateful model-based property testing with shrinking" )

prop( "C05", "Parsing arbitrary text terminates without touching memory it does not own",
  "For every input text, valid or not, every parse entry point terminates, reads only the bytes of the text it was handed (which need not be terminated), does not write to it and never accesses memory outside the library's own. It either returns code or reports a failure; code returned without a reported failure keeps no reference to the caller's text, serializes (always to the same text) and duplicates to the same text. A parse that fails leaves the context able to parse the next source exactly as before.",
  [ "inputs" ], "every byte sequence: plain, truncated, mutated and random token sources through all twenty parse entry points, with every kind of macro registered",
  "The tests parse a handful of valid files; the look-ahead and recovery paths are reached only by truncated and malformed text.",
  [ "base/components/lexer.cpp", "base/components/parser.cpp", "base/components/interface.parsing.cpp" ],
  [ ( "lex", "base/components/lexer.cpp" ), ( "parse_* and their look-ahead", "base/components/parser.cpp" ), ( "parse entry points", "base/components/interface.parsing.cpp" ) ],
  "Grammar-aware mutation of a declaration corpus under AddressSanitizer with the source in an exactly sized block, in the configuration where failures do not end the process. Sources of a few hundred bytes; nesting is shallow.", "mutation fuzzing with shrinking, under AddressSanitizer" )

SRC = "Supported source is generated from a grammar of the documented subset: variables (specifiers, multi-word and qualified types, template arguments, pointers and references, arrays, bit fields, initializers, comma lists), functions and their definitions, member and free operators, conversion operators, constructors and destructors (in and out of class), classes and structs with bases, access labels and nested members, unions, enums with underlying types, templates, typedefs, using, friends, namespaces, extern blocks, export, preprocessor directives, attributes and comments."

prop( "C01", "Parsing and serializing supported code keeps every token in order",
  "For every translation unit made of the constructs the parser documents as supported, parsing reports no failure and serializing the result yields the same sequence of C++ tokens as the source - identifiers, literals, operators, attributes, comments and preprocessor directives, each once and in order - up to the documented normalizations (position of a leading const, the = before a braced initializer, explicit base access, export distributed over its block).",
  [ "inputs" ], "every supported translation unit: nesting of namespaces, types and templates, any combination of specifiers, attributes, declarators, initializers, bodies, directives and comments",
  "The tests parse a few fixed headers; lost or reordered tokens depend on which constructs meet, a combinatorial space.",
  [ "base/components/lexer.cpp", "base/components/parser.cpp", "base/components/code_serialization.cpp", "base/components/ast.cpp" ],
  [ ( "lex", "base/components/lexer.cpp" ), ( "parser_parse_* and their look-ahead", "base/components/parser.cpp" ), ( "*_to_strbuilder*", "base/components/code_serialization.cpp" ) ],
  SRC + " The output is re-tokenized by an independent tokenizer and compared with the generated tokens. Function bodies and initializers are short token runs; up to 8 declarations per file.", "grammar-based property testing (round trip) with shrinking" )

prop( "C02", "What the library serializes parses again to the same AST and the same text",
  "For every supported translation unit, the text the library serializes is accepted again by its own parser without a reported failure, gives an AST with the same nodes and the same facts (names, types, specifiers, parameters, values, bases, bodies, comments), and serializes to the same text up to empty lines. Serializing the same AST twice gives the same text.",
  [ "inputs" ], "every supported translation unit in every spacing of its tokens",
  "Only a round trip through arbitrary combinations shows that what is printed is what was meant; the tests never parse their own output.",
  [ "base/components/parser.cpp", "base/components/code_serialization.cpp", "base/components/ast.cpp" ],
  [ ( "*_to_strbuilder*", "base/components/code_serialization.cpp" ), ( "parse_global_body", "base/components/interface.parsing.cpp" ) ],
  SRC + " Sources are generated with canonical, random and minimal white space; the two ASTs are compared by an independent walker.", "grammar-based property testing (fixpoint) with shrinking" )

prop( "C03", "The AST of parsed code holds exactly what the source declares",
  "For every supported translation unit, the AST built by parsing has one node of the right kind per declaration, in source order and nesting, and each node's members - name, value or return type with its specifiers and array dimensions, specifiers, attributes, parameters with types, names and default values, template parameters, base types with access, access labels, bit-field width, initializer, body, module flags and inline comment - say exactly what the source says, with nothing missing and nothing added.",
  [ "inputs" ], "every supported translation unit: any combination of constructs, nesting and optional parts",
  "Members of the AST a user navigates may be wrong although the text prints right; the tests do not look at the AST.",
  [ "base/components/parser.cpp", "base/components/ast_types.hpp", "base/components/lexer.cpp" ],
  [ ( "parser_parse_*", "base/components/parser.cpp" ), ( "AST_* members", "base/components/ast_types.hpp" ), ( "code_append / body_append / params_append", "base/components/ast.cpp" ) ],
  SRC + " The generator records the facts of each declaration as it emits the tokens; an independent walker of the typed AST members produces the same notation.", "grammar-based property testing against a source model, with shrinking" )

prop( "C16", "Registered macros are read as what they were registered for",
  "Whatever table of macros is registered (register_macro, register_macros, register_macros_arr, a #define met while lexing; the last registration of a name stands), each use of a registered name is read as its type and flags say: statement macros, with their arguments, their body when one is expected and their ;, stand as one entry of a global, namespace, linkage, class, struct or union body; typename macros are types wherever a type is; expression macros are values, and stand in front of, behind or in place of a parameter and behind an enumerator; macros allowed as attribute, specifier, definition or identifier are taken where those are. Functional macros are those whose name is followed by a parenthesis at once, others those whose name is not; any other use of the name is an ordinary identifier. The source is accepted, serializes to its own tokens, its AST says what the source says, and the output parses again to the same AST.",
  [ "inputs" ], "every table of macros and every supported translation unit that uses them",
  "The tests parse one header set with one fixed macro table; which combination of macro type, flags, argument form and place in the source works is a matter of every combination.",
  [ "base/components/parser.cpp", "base/components/lexer.cpp", "base/components/interface.cpp", "docs/Parsing.md" ],
  [ ( "parse_simple_preprocess, parse_macro_as_definiton, parse_attributes, parse_params", "base/components/parser.cpp" ), ( "lex_found_token, lex_preprocessor_define", "base/components/lexer.cpp" ), ( "register_macro*, lookup_macro", "base/components/interface.cpp" ) ],
  SRC + " A random macro table is registered, and the generator puts uses of it into the source, each with the fact its type and flags call for.", "grammar-based property testing over generated macro tables with shrinking" )

prop( "C20", "White space between tokens carries no meaning to the parser",
  "For every supported translation unit, spaces, tabs, line breaks (LF or CRLF) and empty lines between tokens - or the absence of any where none is needed to keep two tokens apart - change neither whether the source is accepted, nor the AST that is built, nor the tokens that are serialized. (Directives and line comments end with their line, and a comment on the line of a declaration belongs to it; a compound assignment operator outside of a class needs its first parameter and result spelled alike.)",
  [ "inputs" ], "every placement of white space between the tokens of every supported translation unit",
  "Look-ahead that counts formatting tokens works for the usual layout and fails for others; tests have one layout per construct.",
  [ "base/components/lexer.cpp", "base/components/parser.cpp" ],
  [ ( "lex / skip_whitespace / Tok_NewLine", "base/components/lexer.cpp" ), ( "look-ahead: lex_at, lex_next, lex_idx_behind", "base/components/parser.cpp" ), ( "parser_strip_formatting", "base/components/parser.cpp" ) ],
  SRC + " Each source is rendered with random or minimal white space and checked against the facts and tokens it was generated from.", "metamorphic grammar-based property testing with shrinking" )

prop( "C06", "Code assembled with the upfront constructors is the code it was made of",
  "For every supported declaration, building it with the upfront constructors (def_*) from its parts - names, types, specifiers, attributes, parameters, values, bases, access, bodies and their entries, whichever of the variadic, array and append forms is used - is accepted without a reported failure, serializes to the same tokens as the parsed declaration, and yields an AST holding the same facts. Members the constructors have no argument for are set on the result; declarations they cannot express (anonymous types, function typedefs, operators as entries of a class body) are taken as they are.",
  [ "inputs" ], "every supported translation unit, taken apart and assembled again in every form the interface offers",
  "The constructors and the parser are two independent paths to one AST; the tests assemble a few fixed declarations.",
  [ "base/components/interface.upfront.cpp", "base/components/ast.cpp", "base/components/code_serialization.cpp" ],
  [ ( "def_* constructors", "base/components/interface.upfront.cpp" ), ( "def_*_body, def_params, def_specifiers and their array forms", "base/components/interface.upfront.cpp" ), ( "body_append / params_append", "base/components/inlines.hpp" ) ],
  SRC + " The parsed AST is walked and every node rebuilt from its parts; tokens and facts of the result are compared with the original's.", "differential grammar-based property testing (parser against constructors) with shrinking" )

prop( "C07", "Upfront constructors accept exactly the arguments they are specified for",
  "Every upfront constructor accepts any combination of arguments of the kinds it takes, with those it requires present, and the code it returns has the kind that goes with the arguments (definition or forward declaration, member or free operator), holds exactly the arguments it was given and reports no failure. Any other argument - a missing required one, one of another kind, an invalid name, an operator with a parameter list that operator cannot have, an entry the body cannot hold - makes it report a failure and return invalid code, leaving the arguments as they were and registering nothing. The variadic and array forms of a body and validation of a finished body agree on the entries.",
  [ "inputs" ], "every constructor with every kind of code, null, valid and invalid names and values in every argument; every operator with 0 to 4 parameters; every body with every kind of entry",
  "Validation is a product of constructors, arguments and kinds of code; the tests only make valid calls.",
  [ "base/components/interface.upfront.cpp", "base/components/ast.cpp" ],
  [ ( "def_* and their checks", "base/components/interface.upfront.cpp" ), ( "operator__validate", "base/components/interface.upfront.cpp" ), ( "code_validate_body", "base/components/ast.cpp" ) ],
  "Arguments are drawn from a zoo with real code of every kind; what each constructor takes is a table in the harness. Arguments that are dangling or malformed code are outside of the domain.", "property testing against a specification table, with shrinking" )

prop( "C08", "Bodies, lists and comparison of code stay consistent under every edit",
  "After every sequence of edits - appending new, shared, duplicated or whole bodies of code, appending parameters, adding and removing specifiers, adding interfaces - iteration, counts, indexed access, links to parents and neighbours and the serialized text all describe the same entries in order, code that already belongs somewhere is copied rather than moved, and duplicates are equal to their original and serialize alike. Comparison of code holds between a tree, its duplicate and a second parse of the same source in both directions, and fails in both directions once a name, type, specifier, parameter, value, attribute, module flag, body entry or their order is changed.",
  [ "histories", "inputs" ], "every sequence of edits over bodies of every kind, parameter lists, specifier lists up to and beyond their capacity, class and struct interfaces; every single change to every supported translation unit",
  "Broken links and shared entries appear only after particular edits; a comparison that ignores a member is seen only by changing exactly that member.",
  [ "base/components/ast.cpp", "base/components/inlines.hpp", "base/components/code_types.hpp" ],
  [ ( "body_append, params_append, define_params_append, specifiers_append/remove, *_add_interface", "base/components/inlines.hpp" ), ( "code_append / code_duplicate / iteration", "base/components/inlines.hpp" ), ( "code_is_equal", "base/components/ast.cpp" ) ],
  "Edit histories against sequences of a reference model; comparison is checked by changing one member of one node. The text of comments, attributes, untyped and preprocessor code is not compared by the library and not changed.", "stateful model-based property testing with shrinking" )

prop( "C04", "Every parse entry point reads exactly the declaration it is named for",
  "For every supported declaration of its kind, each parse_* entry point (class, struct, union, enum, function, operator, operator cast, variable, constructor, destructor, namespace, extern linkage, export, template, friend, using, typedef, typename, define) accepts the text on its own, returns code of that kind, and that code serializes to the tokens of the declaration and holds its facts. Several such parses in one context do not disturb one another: code returned earlier is unchanged at the end. Text of another kind handed to an entry point that begins with a keyword of its own is reported as a failure, and the next parse works as if nothing had happened.",
  [ "inputs", "histories" ], "every supported declaration of every kind through its own entry point, several in any order in one context, with texts of the wrong kind in between",
  "The tests only parse whole files; each entry point has its own lexing, scope set-up and hand-over to the shared parser.",
  [ "base/components/interface.parsing.cpp", "base/components/parser.cpp", "base/components/lexer.cpp" ],
  [ ( "parse_*", "base/components/interface.parsing.cpp" ), ( "parser_parse_*", "base/components/parser.cpp" ) ],
  SRC + " Declarations of one kind are generated and go through the entry point of that kind.", "grammar-based property testing against a source model, with shrinking" )

prop( "C14", "Templates substitute exactly their tokens and untyped code is its text",
  "token_fmt, its va_list form, code_fmt and untyped_token_fmt return the template with every <name> of a given token replaced by the value of that token - once, values are not substituted again - and every other character unchanged, whatever the values, the number of tokens and unmatched < and >; output that does not fit the buffer is cut off at its size; nothing of one call is left for the next. Code parsed from a substituted declaration is that declaration. untyped_str, untyped_fmt and def_execution hold and print exactly the given (formatted) text, which stays in one piece and in order in the bodies it is put into.",
  [ "inputs" ], "every template, set of up to 12 tokens with any values, buffer size; every untyped text",
  "Substitution is a scan with a hash table; the boundary cases (empty value, adjacent tokens, unmatched brackets, a full buffer) are products of template and values.",
  [ "base/components/interface.untyped.cpp", "base/components/interface.hpp", "base/components/inlines.hpp" ],
  [ ( "token_fmt_va / token_fmt_impl", "base/components/interface.untyped.cpp" ), ( "untyped_str, untyped_fmt, untyped_token_fmt", "base/components/interface.untyped.cpp" ), ( "def_execution", "base/components/interface.upfront.cpp" ) ],
  "Differential against a reference substitution; AddressSanitizer on. Token names with colliding 32-bit hashes are outside of the domain.", "differential property testing with shrinking" )

prop( "C17", "Files hold exactly what was printed and read back exactly",
  "A file written by a Builder holds exactly the concatenation of what was printed to that Builder - code, formatted text, padding lines - however many builders are interleaved and whatever the file held before, and a file that cannot be opened or written is reported. file_read_contents returns exactly the bytes of a file, zero-terminated if asked; scan_file returns exactly the text of a file without a leading INTELLISENSE_DIRECTIVES block; parse_file gives the AST of parsing its text; none of them changes the file. Files and in-memory streams (new, cloned from and fixed to a buffer) behave as one sequence of bytes under any order of reads, writes, seeks and size queries.",
  [ "inputs", "histories" ], "every sequence of builder operations over interleaved builders; every file content and block placement; every sequence of operations over files and memory streams",
  "Output over buffer sizes, a block ending at the end of a file, or a seek beyond the end depend on the history and the sizes; the tests write a few files.",
  [ "base/auxiliary/builder.cpp", "base/auxiliary/scanner.cpp", "base/dependencies/filesystem.cpp" ],
  [ ( "builder_*", "base/auxiliary/builder.cpp" ), ( "scan_file, parse_file", "base/auxiliary/scanner.cpp" ), ( "file_* and the memory stream", "base/dependencies/filesystem.cpp" ) ],
  "Histories against std::string models in a scratch directory; AddressSanitizer on. What is left of a file that holds nothing but the block is not checked.", "stateful model-based property testing with shrinking" )

prop( "C18", "Keywords, operators and predefined code have exactly their C++ spelling",
  "Every enumerator of specifiers, operators, tokens, kinds of code, access and macro kinds converts to exactly its C++ spelling (or its own name), and back to itself; any other text - a prefix, an extension, another case, a word with the same hash - is no specifier and no token. Declarations whose names are such words, or words with a meaning only in directives, parse as the declarations they are. The predefined code of a context (types, specifiers, access labels, pragma once, ...) holds and prints exactly what its name says, in every context and after any other work or a reset.",
  [ "inputs" ], "every enumerator; every near-keyword as a name in every supported declaration; predefined code after any amount of parsing and resets",
  "The tables are generated from CSV files and looked up by a 32-bit hash; one wrong row or length shows only in the code that uses it.",
  [ "base/components/gen/especifier.hpp", "base/components/gen/etoktype.hpp", "base/components/gen/eoperator.hpp", "base/components/gen/ecodetypes.hpp", "base/components/lexer.cpp", "base/components/interface.cpp" ],
  [ ( "spec_to_str, str_to_specifier, spec_is_trailing", "base/components/gen/especifier.hpp" ), ( "toktype_to_str, str_to_toktype", "base/components/gen/etoktype.hpp" ), ( "operator_to_str", "base/components/gen/eoperator.hpp" ), ( "identifiers and keywords", "base/components/lexer.cpp" ), ( "predefined code", "base/components/interface.cpp" ) ],
  "The spelling of every enumerator is a table of the harness. " + SRC, "property testing against a specification table, grammar-based generation, with shrinking" )

prop( "C21", "Every route to the text of a code gives the same text and changes nothing",
  "Whatever code is held - parsed from supported source, or any kind of code put into a body by hand - its text is the same by whichever route it is asked for: code_to_strbuilder, the function of its kind, the members and overloads of C++, each as a new string or appended to one (of which what was there stays), once or repeatedly, of the code or of a duplicate of it. The text of a body is the text of its entries, one after the other. Its kind, validity, entries and debug description say what it is. Making texts, descriptions or duplicates of a code or any part of it changes neither the code nor its text.",
  [ "inputs" ], "every node of every AST of the source generator; every kind of code the library knows in bodies of several kinds",
  "The tests only print whole files; a kind's own function, its appending and forward forms and its members are separate code paths, most of which no test runs.",
  [ "base/components/code_serialization.cpp", "base/components/inlines.hpp", "base/components/ast.cpp", "base/components/code_types.hpp" ],
  [ ( "code_to_strbuilder_ref, code_debug_str, code_duplicate", "base/components/ast.cpp" ), ( "<kind>_to_strbuilder, _ref, _def, _fwd", "base/components/code_serialization.cpp" ), ( "body, comment, attributes, execution, parameters", "base/components/inlines.hpp" ), ( "members and overloads", "base/components/code_types.hpp" ) ],
  "All routes of every node of generated ASTs are compared with each other and with the text of its parts; AddressSanitizer on. " + SRC, "metamorphic and differential property-based testing with shrinking" )

prop( "C22", "CSV tables parse into exactly their fields and survive being written",
  "For every well-formed table - plain, empty and quoted fields with delimiters, quotes and line breaks in them, blanks around fields, any delimiter, LF or CRLF, empty lines, with or without a header and a last line break - parsing succeeds and yields exactly its columns, rows and fields, and writing the result and parsing it again yields the same table. Rows of different length, a quote that is not closed and empty text are reported as errors. The one and two column readers yield exactly the columns of the file.",
  [ "inputs" ], "every table of up to 5 columns and 60 rows with generated fields",
  "The tests only read the library's own enum tables, which use no quoting, no empty fields and one row shape.",
  [ "base/dependencies/parsing.cpp", "base/auxiliary/scanner.cpp" ],
  [ ( "csv_parse_delimiter", "base/dependencies/parsing.cpp" ), ( "csv_write_*", "base/dependencies/parsing.cpp" ), ( "parse_csv_one_column / parse_csv_two_columns", "base/auxiliary/scanner.cpp" ) ],
  "Generated tables against the fields they were made of, and a round trip; AddressSanitizer on.", "round-trip and model-based property testing with shrinking" )

prop( "C19", "Every generated form of the library behaves as the library it is made from",
  "The generators produce libraries that compile, and for every program of calls - parsing, upfront construction, editing, comparing, duplicating, iterating and serializing code, substitution in templates, the string cache and macros, files and CSV, containers, strings, formatting and allocators - the C++ single header, the segmented library, the variant for Unreal Engine and the C library (as single header and as segments) accept and refuse the same calls and produce the same text, kinds, counts and values as the components in base/. (The C library spells the library's own macros with its gen_ prefix, in source and output alike; Unreal spells FORCEINLINE.)",
  [ "inputs", "histories" ], "every program of up to about 60 calls over generated source text and arguments, through all five generated forms",
  "The project's tests build some of the generated libraries and run one fixed program in each; differences made by the generators (containers and overloads regenerated for C, components replaced for Unreal, code reordered) show only for the calls and inputs that reach them.",
  [ "gen_c_library/c_library.cpp", "gen_c_library/components/containers.array.hpp", "gen_c_library/components/containers.hashtable.hpp", "gen_c_library/components/memory.fixed_arena.hpp", "gen_singleheader/singleheader.cpp", "gen_segmented/segmented.cpp", "gen_unreal_engine/unreal.cpp", "gen_unreal_engine/components/parser_case_macros.cpp", "base/helpers/base_codegen.hpp", "base/helpers/misc.hpp" ],
  [ ( "c_library.cpp: components rewritten for C, containers generated per type, generic selection", "gen_c_library/c_library.cpp" ), ( "gen_array / gen_hashtable", "gen_c_library/components/containers.array.hpp" ), ( "singleheader / segmented assembly", "gen_singleheader/singleheader.cpp" ), ( "components replaced for Unreal", "gen_unreal_engine/unreal.cpp" ), ( "generated enums and their tables", "base/helpers/base_codegen.hpp" ) ],
  "The generators are built and run on the current tree, the five libraries compiled with AddressSanitizer and driven by one interpreter of generated programs; their logs must be those of base/. Generated for Linux: the project's refactor tool (a Windows binary) is stood in for by a script with the same rules. Programs that share one node between two lists are outside the domain.", "differential property-based testing of the generated libraries with shrinking" )

prop( "C23", "The enumerations the library generates for itself are those of their tables",
  "For every table of kinds, operators, specifiers, tokens and attribute macros (the CSV files in base/enums and any other of their form), the code base_codegen makes of it - for C++ and for C - compiles, and has one enumerator per row with the value of the row's position, of the stated width and with the stated extra enumerators; its lookup functions give exactly the spelling (or keyword) of the row for each enumerator, find each spelling again, say of exactly the trailing specifiers that they trail, and count the rows. The enumerations compiled into the library are those of its own tables.",
  [ "inputs" ], "every table: any number of rows, enumerator names, spellings (empty ones, quotes and escapes, operators, digraph-like runs) and attribute macros",
  "The build generates from one set of tables and compiles what comes out; nothing compares names, values and spellings with the tables, and other tables are never tried.",
  [ "base/helpers/base_codegen.hpp", "base/enums/ECodeTypes.csv", "base/enums/EOperator.csv", "base/enums/ESpecifier.csv", "base/enums/ETokType.csv", "base/enums/AttributeTokens.csv", "base/components/gen/ecodetypes.hpp", "base/components/gen/eoperator.hpp", "base/components/gen/especifier.hpp", "base/components/gen/etoktype.hpp" ],
  [ ( "gen_ecodetypes / gen_eoperator / gen_especifier / gen_etoktype", "base/helpers/base_codegen.hpp" ), ( "the tables", "base/enums/ETokType.csv" ), ( "the generated enums the library is built with", "base/components/gen/etoktype.hpp" ) ],
  "Generated tables; what is generated of them is compiled by clang and asked for every value and spelling, compared with the table. AddressSanitizer on for the generator.", "property-based testing against the table as reference, with shrinking" )

prop( "C24", "C++ methods, overloads and conversions do what the functions they map to do",
  "Every method, overload, iterator and conversion of the C++ interface - of Str, StrBuilder, Arena, FixedArena, Pool, Builder, Code and the code of every kind, of the enumerations and of macros - has the effect and the result of the function it maps to: two objects taken through the same history, one by functions and one by the C++ forms, stay equal. Loops written with begin/end, range-for, next and ++ visit the same codes; InvalidCode and NullCode convert to every kind; the overloads that take an array make what the *_arr functions make of it.",
  [ "inputs", "histories" ], "every history of operations and every code, parsed or constructed, whichever form each step is written in",
  "The tests and the library itself call the functions; a method nobody has called can do anything, or not compile, and one that differs does so only for some arguments.",
  [ "base/dependencies/strings.hpp", "base/dependencies/memory.hpp", "base/auxiliary/builder.hpp", "base/components/ast.hpp", "base/components/code_types.hpp", "base/components/inlines.hpp", "base/components/interface.hpp", "base/components/gen/ast_inlines.hpp", "base/components/gen/ecodetypes.hpp", "base/components/gen/eoperator.hpp", "base/components/gen/especifier.hpp" ],
  [ ( "Member Mapping regions", "base/dependencies/strings.hpp" ), ( "Arena / FixedArena / Pool methods", "base/dependencies/memory.hpp" ), ( "Code and its kinds: methods, overloads, InvalidCode_ImplictCaster", "base/components/code_types.hpp" ), ( "operators and conversions", "base/components/gen/ast_inlines.hpp" ), ( "array overloads", "base/components/interface.hpp" ) ],
  "Generated histories on twin objects, and every node of generated trees asked both ways; AddressSanitizer on. Assigning a code that has a parent, and heap alignment beyond 16 bytes, are outside the domain. Serializing methods are decided by C21, Array's and HashTable's by C11.", "differential (function against method) property-based testing with shrinking" )
