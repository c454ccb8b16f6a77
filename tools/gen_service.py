SVC = ["crates/service/src/lib.rs", "crates/service/src/binder.rs", "crates/service/src/helpers.rs", "crates/service/src/files.rs"]
F = "crates/service/src/features/"
LIM = " Indexes are generated only where the module-wide numbering used by the service agrees with the index space (known finding, see DESIGN.md)."

prop("C11", "Answers depend only on the current texts, not on the edit history",
     "After every history of document edits and requests, each answer of the language service equals the answer of a fresh service that was only given the current text of that document. Edits of one document never change the answers for another.",
     ["histories", "inputs"], "all histories of opening and changing several documents (edits, reverts, rewrites, corruptions) interleaved with requests of every kind",
     "Results are memoised across revisions; a stale or wrongly shared result needs a particular sequence of edits and requests, while the tests commit one text per service.",
     SVC, [("incremental queries", "crates/service/src/lib.rs"), ("symbol tables", "crates/service/src/binder.rs")],
     "Stateful: random histories against a fresh service as the reference, compared as JSON responses.",
     "stateful property-based testing: differential against a fresh service", ["wat_service::LanguageService"])
prop("C12", "Every request is answered on every text, with places in the document",
     "For every document text (also malformed, incomplete or non-ASCII) and every position or range, each editor request terminates without crashing. Every position and range in the answers denotes a place of the current document, counted in lines and UTF-16 code units, with its start not after its end. A position after the end of its line is taken for the end of that line.",
     ["inputs"], "all texts, all request kinds, positions inside and outside the document",
     "The editor asks on every keystroke, mostly on incomplete code; the tests ask at hand-picked places of complete code.",
     SVC, [("request handlers", "crates/service/src/features"), ("position conversion", "crates/service/src/helpers.rs")],
     "Fuzzing with valid, corrupted and garbage texts; nesting depth is bounded and the tab size is at least 1.",
     "fuzzing: crash and range-invariant oracle", ["wat_service::LanguageService"])
prop("C13", "Go to definition, declaration and type lead to the bound symbol",
     "For every identifier or index that refers to a function, type, global, table, memory, parameter, local or block label, go-to-definition leads exactly to the definition that the scoping rules of the text format bind it to (in the same module, kind and scope, the innermost enclosing label), and nowhere when there is none. Go-to-declaration does so for module-level operands of instructions, go-to-type-definition leads from a referenced function to the type it uses, and all three give nothing at any other token.",
     ["inputs", "programs"], "all generated modules with known bindings, every token of them",
     "Bindings depend on the combination of kinds, names, nesting and reference sites; tests ask at a few dozen places.",
     SVC + [F + "definition.rs"], [("name resolution", "crates/service/src/binder.rs"), ("go to", F + "definition.rs")],
     "The generator knows the intended binding of every reference." + LIM,
     "property-based testing: reference model of bindings", ["goto_definition, goto_declaration, goto_type_definition"])
prop("C14", "Find references lists exactly the uses of the symbol",
     "From a definition or from any of its uses, find-references lists exactly the places that are bound to that definition, each once, and the definition itself exactly when asked for. Uses of other symbols of the same name, in other modules, functions, kinds or blocks, are never listed.",
     ["inputs", "programs"], "all generated modules with known bindings, every definition and use, with and without the declaration",
     "Shadowing, equal names across kinds and mixtures of names and indexes are combinatorial.",
     SVC + [F + "references.rs"], [("name resolution", "crates/service/src/binder.rs"), ("references", F + "references.rs")],
     "The generator knows the intended binding of every reference." + LIM,
     "property-based testing: reference model of bindings", ["find_references"])
prop("C15", "Renaming edits every occurrence of the symbol and breaks nothing else",
     "Renaming a symbol at any occurrence replaces exactly the identifier tokens of that symbol (definition, uses, and the repeated label at the end of a block), each once and nothing but the identifier, and never touches symbols of other scopes. Invalid new names are refused, and rename is offered exactly on identifiers.",
     ["inputs", "programs"], "all generated modules, every identifier, fresh and invalid new names",
     "A missed or wrongly included occurrence depends on the neighbourhood of scopes and kinds.",
     SVC + [F + "rename.rs"], [("rename", F + "rename.rs")],
     "Module-level symbols of other kinds with the same name in the same module may be renamed along (an existing snapshot pins that), but only completely. Renaming the module identifier is not judged.",
     "property-based testing: reference model of bindings, applied edits", ["rename, prepare_rename"])
prop("C16", "Undefined, duplicate and second-module diagnostics are exact",
     "A reference is reported as undefined exactly when no definition in its scope matches, at the place of the reference. Definitions of the same name in one scope are each reported with the places of all the others, every module after the first is reported, and well-bound code gets none of these reports and no syntax error.",
     ["inputs", "programs"], "all generated modules with planted undefined references, duplicated names and additional modules",
     "Both missing and false reports depend on combinations of scopes; a false report needs an otherwise valid program.",
     SVC + ["crates/service/src/checker/mod.rs", "crates/service/src/checker/undef.rs", "crates/service/src/checker/dup_names.rs", "crates/service/src/checker/multi_modules.rs"],
     [("undefined references", "crates/service/src/checker/undef.rs"), ("duplicated names", "crates/service/src/checker/dup_names.rs")],
     "Labels count as nested only in directly enclosing blocks; a label index of the function body itself is a known finding." + LIM,
     "property-based testing: reference model of diagnostics", ["pull_diagnostics"])
prop("C17", "Operand checks report exactly the ill-typed operands",
     "Code whose operands fit the instruction signatures of the WebAssembly specification and the declared types of functions, locals and globals gets no operand diagnostic, in folded, flat and mixed form. An operand of a wrong type, a wrong number of operands, a literal in place of an operand and an immediate of the wrong kind are each reported at their place with the right types or numbers, and hovering an instruction shows its opcode of the specification.",
     ["inputs", "programs"], "all generated instruction sequences over the whole instruction set, well-typed and with injected faults",
     "Over 400 instructions combine freely in folded and flat code; the tests cover a few dozen.",
     SVC + ["crates/service/src/checker/typeck.rs", "crates/service/src/checker/literal_operands.rs", "crates/service/src/data_set/instr_meta.rs", "crates/service/src/types_analyzer.rs"],
     [("operand checks", "crates/service/src/checker/typeck.rs"), ("instruction table", "crates/service/src/data_set/instr_meta.rs")],
     "The reference checker derives signatures from naming rules and opcodes from the order in the specification. Flat code is judged up to the first instruction with an unknown effect and not inside blocks; writes to locals and globals and results of bodies are not judged.",
     "property-based testing: reference checker, fault injection", ["pull_diagnostics, hover"])
prop("C18", "Semantic tokens decode to the right places and kinds for every client",
     "For every document and every set of token types a client supports, the encoded semantic tokens decode, with the legend the server announces, to exactly the highlighted tokens of the source, in order, at their true UTF-16 places and lengths and with the kind of what they are bound to. Tokens of kinds the client does not support are left out without displacing others, and a range request yields exactly the tokens of that range.",
     ["inputs", "configurations"], "all generated modules with comments and non-ASCII text, all subsets of token types, all ranges",
     "Relative encoding makes one wrong delta displace everything after it; tests use a fixed client and ASCII text.",
     SVC + [F + "semantic_tokens.rs"], [("token encoding", F + "semantic_tokens.rs"), ("legend negotiation", "crates/service/src/features/semantic_tokens.rs")],
     "Known finding: in range answers the columns on the first line count from the first token (pinned by a snapshot); exactly that deviation is accepted." + LIM,
     "property-based testing: decoding against a reference model", ["semantic_tokens_full, semantic_tokens_range"])
prop("C19", "Outline, folding and selection ranges mirror the syntax",
     "The document outline lists exactly the module-level definitions of each module with their locals, in source order, with names and ranges of the definitions. Folding ranges are exactly the constructs that span several lines, and selection ranges at a token are exactly the token and its enclosing constructs from inside out, each inside the next.",
     ["inputs", "programs"], "all generated modules and layouts, several positions per request",
     "Depends on layout and nesting of all constructs.",
     SVC + [F + "document_symbol.rs", F + "folding_range.rs", F + "selection_range.rs"], [("outline", F + "document_symbol.rs"), ("folding", F + "folding_range.rs"), ("selection", F + "selection_range.rs")],
     "Expected nodes come from the generator. Modules without definitions may be missing from the outline; numbers shown for unnamed definitions are judged only where the module-wide numbering agrees with the index space.",
     "property-based testing: reference model (expected syntax)", ["document_symbol, folding_range, selection_range"])
prop("C20", "Hover and inlay hints show the declaration of the bound symbol",
     "Hovering a definition or a use of a function, type, global, parameter or local shows the signature or type as declared (also through a type use), functions with their documentation comments, for the hovered token's range. Inlay hints show exactly the types of used locals and globals and the names of functions at their end, for the requested range.",
     ["inputs", "programs"], "all generated modules with documentation comments, every token, all ranges",
     "Depends on the bound declaration and its form; tests hover about forty places.",
     SVC + [F + "hover.rs", F + "inlay_hint.rs", "crates/service/src/types_analyzer.rs"], [("hover", F + "hover.rs"), ("inlay hints", F + "inlay_hint.rs"), ("signature rendering", "crates/service/src/types_analyzer.rs")],
     "Declarations are rendered from the generator's model. Which of several types of the same name counts is not judged." + LIM,
     "property-based testing: reference model of declarations", ["hover, inlay_hint"])
prop("C21", "Call hierarchy is complete and its two directions agree",
     "Preparing the call hierarchy at a function or at a call yields that function with its name, place and signature. Its incoming calls are exactly the call instructions bound to it and its outgoing calls exactly the call instructions inside it, so a call is outgoing from A to B exactly when it is incoming to B from A.",
     ["inputs", "programs"], "all generated modules, every function and every call",
     "The two directions are computed separately; tests cover a few calls each.",
     SVC + [F + "call_hierarchy.rs"], [("call hierarchy", F + "call_hierarchy.rs")],
     "Calls are the instructions whose operand is bound to a function." + LIM,
     "property-based testing: reference model and duality", ["prepare_call_hierarchy, call_hierarchy_incoming_calls, call_hierarchy_outgoing_calls"])
prop("C22", "Code actions are offered where they apply and keep the meaning",
     "Splitting is offered exactly inside a parameter, result or local group with several types, joining exactly when the selection covers adjacent unnamed parameters of a header with several types in all, and the memory-argument fix exactly for folded instructions with whitespace around `=`, each only when its kind is requested. Applying an action yields the same declaration written the other way (or the intended memory argument), keeps every comment and everything else, and leaves no syntax error behind.",
     ["inputs", "programs"], "all generated modules and layouts, cursors and selections, requested kinds",
     "Tests apply each action to a handful of headers without comments; what an edit drops or glues together depends on layout and neighbours.",
     SVC + [F + "code_action.rs", "crates/service/src/refactorings"], [("offering", F + "code_action.rs"), ("split", "crates/service/src/refactorings/func_header_split.rs"), ("join", "crates/service/src/refactorings/params_join.rs"), ("memory argument fix", "crates/service/src/refactorings/fix_invalid_mem_arg.rs")],
     "The token sequence after an edit is predicted from the generated syntax. Comments inside broken memory arguments and literals other than decimal ones glued to `=` are not generated.",
     "property-based testing: metamorphic (edit applied, tokens compared with the predicted ones)", ["code_action"])
prop("C23", "Completion offers exactly the visible definitions and the expected words",
     "Behind a complete or partial reference, completion offers exactly the definitions of that kind that are visible there (by name, else by number), labels innermost first by their depth, with the right type details, and accepting an item refers to that definition. Behind a partly typed field keyword, clause keyword, value type or numeric/control instruction it offers the word that belongs there and no word of a kind that cannot be written there. Behind other operands it offers nothing, except `offset=` and `align=` where a load or store takes them.",
     ["inputs", "programs"], "all generated modules and layouts, every reference and every keyword, instruction and type with every typed prefix",
     "What is visible depends on the enclosing module, function and blocks; tests complete about a hundred fixed places.",
     SVC + [F + "completion.rs", "crates/service/src/binder.rs", "crates/service/src/data_set"], [("context detection and items", F + "completion.rs"), ("label scopes", "crates/service/src/binder.rs")],
     "Not judged: words the service never offers (`then`, `item`, heap types, block type clauses, instructions added after the first specification), and table operands of call_indirect." + LIM,
     "property-based testing: reference model of scopes, metamorphic (accepted item resolved)", ["completion"])
prop("C24", "The server process answers every message as the service does",
     "In every session over its standard streams, the server answers each request exactly once with the id of the request: with the result of the language service on the latest text of the document, or with an error when the method is unknown, the parameters are malformed or the service refuses. Diagnostics of the latest text are published after every opening and change unless the client pulls them, and cleared on closing; shutdown and exit end the process normally. At initialisation it announces everything that it handles.",
     ["histories", "inputs"], "all sessions of openings, changes, closings and requests over several documents, in one go or awaited, for clients with different capabilities",
     "There is no test of the server; routing, ids, synchronisation and publishing only show in whole sessions.",
     ["crates/server/src/server.rs", "crates/server/src/main.rs"], [("message loop", "crates/server/src/server.rs")],
     "The real binary is built from the working tree and driven over pipes; the expected answers come from an in-process service, whose answers the other properties judge. Requests about documents that were never opened are not generated.",
     "stateful property-based testing: differential between the server process and the service", ["wat_server process over its standard streams"])
prop("C25", "The typed view of syntax trees agrees with the tree",
     "For every tree the parser yields, each node is taken for exactly the typed node (and variants) of its kind, and each accessor yields exactly the children it is named after: for well-formed source those the grammar derivation prescribes, in order, for malformed source those present in the tree. Kinds survive the conversion to and from their raw numbers.",
     ["inputs", "programs"], "all trees of generated modules and of corrupted texts, every node and every accessor",
     "There is no test of the typed view; the formatter and the language service rest on it, and which child an accessor picks depends on what surrounds it.",
     ["crates/syntax/src/ast/mod.rs", "crates/syntax/src/ast/module.rs", "crates/syntax/src/ast/instr.rs", "crates/syntax/src/ast/ty.rs", "crates/syntax/src/lib.rs", "crates/syntax/src/kind.rs"], [("typed nodes", "crates/syntax/src/ast"), ("kind conversion", "crates/syntax/src/lib.rs")],
     "Places are compared without surrounding trivia. Only what the parser can build is covered.",
     "property-based testing: reference model (grammar derivation, untyped tree)", ["wat_syntax::ast accessors and casts"])
prop("C26", "Answers depend neither on the layout of the source nor on its names",
     "When whitespace and comments of a document are changed, every answer of the language service at a token stays the same, with the places in it moved along with the tokens. When all identifiers are consistently replaced by others, the answers are the same with the identifiers replaced. Both hold for well-formed and for ill-formed token sequences.",
     ["inputs", "programs"], "all pairs of renderings of a token sequence, well-formed or corrupted token by token, with and without an injective renaming, every request kind at every token",
     "Each test has one layout and one set of names; a check that looks at the wrong neighbour or compares texts instead of bindings only shows in another layout or under other names.",
     SVC + ["crates/service/src/features", "crates/service/src/checker", "crates/service/src/refactorings"], [("positions to tokens", "crates/service/src/helpers.rs"), ("name interning", "crates/service/src/idx.rs")],
     "Folding ranges (counted in lines) and documentation comments are not compared; formatting is judged by C05 to C10.",
     "property-based testing: metamorphic relations (layout change, consistent renaming)", ["all request handlers of LanguageService"])
prop("C27", "Answers about a module do not depend on other modules of the file",
     "In a document of several modules, each answer of the language service inside of one module equals the answer when all other modules are blanked out. Document-wide answers are those of the single modules put together, apart from the report that there is more than one module.",
     ["inputs", "programs"], "all documents of up to three modules, with undefined and duplicated names, ill-typed code and free numeric references, every request kind at every token",
     "Nearly all tests have one module; a symbol or type that leaks from one module into another needs matching names or numbers in both.",
     SVC + ["crates/service/src/features", "crates/service/src/checker", "crates/service/src/types_analyzer.rs"], [("symbols per module", "crates/service/src/binder.rs")],
     "Range formatting is not compared (it depends on the column). Only documents whose modules are syntactically separate are generated: recovery from a syntax error may swallow a following module.",
     "property-based testing: metamorphic relation (other modules blanked out)", ["all request handlers of LanguageService"])
prop("C28", "Format requests and written options reach the formatter as documented",
     "The edits answered to a formatting or range formatting request turn the document into exactly what the formatter yields for the tab size and insert-spaces option of the request. Options written as JSON are read under each documented spelling, take the documented default when left out, keep their values when written and read again, and have their effect.",
     ["inputs", "configurations"], "all texts, tab sizes and ranges; all subsets, spellings and values of the options",
     "The tests use one configuration and small documents; conversions of ranges, line endings and options only show in combination.",
     FMT + [F + "formatting.rs", "crates/service/src/helpers.rs"], [("options", "crates/formatter/src/config.rs"), ("request handlers", F + "formatting.rs")],
     "The result of the formatter itself is judged by C05 to C10.",
     "property-based testing: differential (request against direct call), round trip of options", ["formatting", "range_formatting", "FormatOptions"])
prop("C29", "Neither nesting nor repetition makes parsing, formatting or requests hang",
     "The time for parsing, formatting and answering any request stays moderate when constructs of the format are nested in one another up to 60 levels or repeated up to 200 times, well-formed or not. In particular code whose ends and parentheses are not written yet never makes the time (or the number of syntax errors) multiply with each level.",
     ["inputs", "programs"], "all nestings and repetitions of a catalogue of constructs up to the stated sizes, completely, partly or not closed, with junk inside",
     "A recursive parser with alternatives and recovery can retry each level several times, which is exponential in the depth; tests use shallow code.",
     ["crates/parser/src/parser"] + FMT + SVC, [("alternatives and recovery", "crates/parser/src/parser/mod.rs"), ("blocks", "crates/parser/src/parser/instr.rs")],
     "Measured in CPU time of the thread at growing sizes; a step fails above 6 s where below 0.8 s is the most ever seen. Polynomial growth within the sizes is not judged; deeper nesting is limited by the stack.",
     "property-based testing: invariant (bound on time) over generated nestings of growing size", ["Parser::parse, wat_formatter::format, all request handlers of LanguageService"])
