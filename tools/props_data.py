LEX = "crates/mitex-lexer/src/token.rs"
MAC = "crates/mitex-lexer/src/macro_engine.rs"
STR = "crates/mitex-lexer/src/stream.rs"
LIB = "crates/mitex-lexer/src/lib.rs"
PAR = "crates/mitex-parser/src/parser.rs"
ARG = "crates/mitex-parser/src/arg_match.rs"
SYN = "crates/mitex-parser/src/syntax.rs"
CON = "crates/mitex/src/converter.rs"
SPEC = "packages/mitex/specs/latex/standard.typ"

prop("C01", "Tokenization is exact and lossless",
 "Lexing any text yields, in order, exactly the tokens the LaTeX lexical rules describe: every character belongs to exactly one token, kinds follow the rules (words, blanks, line breaks, comments, braces, punctuation, commands, starred names known to the specification, conditionals, environment markers with their name), and no length of input changes that. Peeking never changes what is eaten, and eating a token in parts yields its remaining text with the same kind. Without macros or conditionals in it, a text gives the same tokens whether macro expansion is on or off.",
 ["inputs", "configurations"], "all texts (any Unicode, any length, across every internal buffer boundary), under any command specification, with and without the macro engine",
 "the lexer's own tests pin a handful of short strings; page-sized inputs, Unicode blanks, comments inside environment markers and partial consumption are untested",
 [LEX, STR, LIB], [("token regexes and command/environment callbacks", LEX), ("page cache, peek/eat/consume", LIB)],
 "property-based differential fuzzing against an independent reference tokenizer",
 "random search over generated texts; trusts the reference tokenizer in harness/src/reflex.rs",
 ["mitex_lexer::Lexer"])

prop("C02", "The syntax tree keeps every token and nests groups correctly",
 "Parsing any text succeeds and yields a tree whose leaves, read in order, are exactly the tokens of the text, except for the blanks and block comments between a command or environment head and its arguments, the wrapping of environment markers and the markers of conditional blocks. Every brace, bracket, parenthesis, formula and environment node starts with its opening token, contains its closing token (if any) only as its last element, and a text whose groups are balanced yields correspondingly nested nodes.",
 ["inputs", "configurations"], "all texts, well-formed or not, under any command specification",
 "snapshot tests cover about a hundred hand-picked formulas; loss or duplication of a token in an unusual combination of constructs is not sampled",
 [PAR, SYN], [("item_list/item_group/match_arguments and trivia buffering", PAR)],
 "property-based fuzzing with a reconstruction invariant and a reference tokenizer",
 "random search; the invariant is checked on every generated text, nesting on generated balanced texts",
 ["mitex_parser::parse", "mitex_parser::parse_without_macro"])

prop("C03", "Commands take exactly the arguments their declared shape says",
 "For any command specification, a command takes as arguments exactly the items its declared pattern describes: none, a fixed number, up to a maximum, a glob over bracket/parenthesis/term kinds, everything to the end of the scope, the single item before it, or everything before and after it. A term is a braced group, a single character of a word, or one command with its own arguments; what is not taken stays outside, in order. Arguments are never taken across an alignment mark or out of the enclosing group.",
 ["inputs", "configurations"], "all command specifications and all token sequences following (or preceding) a command",
 "tests use a few commands of the shipped specification; the pattern space and the interaction of patterns with scopes is not sampled",
 [PAR, ARG, "crates/mitex-spec/src/lib.rs"], [("ArgMatcher", ARG), ("match_arguments", PAR)],
 "property-based testing with randomly generated specifications against a constructive expected tree",
 "random search over generated specifications and generated uses with known argument lists",
 ["mitex_parser::parse"])

prop("C04", "Scripts, primes, limits and infix commands bind to the right items",
 "In any formula, a subscript, superscript or prime attaches to exactly the preceding item (a single character of a word only for what follows the mark), scripts chain on the same base, and without a base an empty base is used. A limits-style command wraps exactly the preceding item; an infix command such as \\over wraps everything before and after it inside its group; a style command covers everything up to the end of its group, cell or row. None of these bindings reaches outside the enclosing group, delimiter pair, formula or environment.",
 ["inputs"], "all formulas built from these constructs, nested to any depth",
 "the tests pin single uses; combinations and nesting are unbounded",
 [PAR, CON], [("attach_component, list state", PAR), ("convert_attach_component", CON)],
 "property-based testing with a constructive oracle (generated syntax tree -> expected output)",
 "random search; the expected output is built from the generator's own tree, not from the parser's")

prop("C05", "Using a macro equals writing out its definition",
 "Converting a text that uses macros defined by \\newcommand and friends gives the same result as converting the text in which every use is replaced by the definition's body with arguments substituted: braced or single-token arguments, an optional first argument given in brackets or taken from its default, macros used in macro bodies and in arguments, and environments with begin and end parts around their body. Definitions themselves leave nothing in the output, and text before a definition or of an undefined name is not affected.",
 ["programs", "inputs"], "all sets of macro definitions and all documents using them (no unbounded recursion)",
 "tests pin single short expansions; nesting, argument positions, defaults, page boundaries and interaction with other constructs are unbounded",
 [MAC, STR, LIB], [("MacroEngine expansion", MAC), ("token streams", STR)],
 "property-based metamorphic testing against a reference macro expander",
 "random search; trusts the reference expander and that the substituted text has no macros left")

prop("C06", "Macro definition commands follow their defining discipline",
 "Along any sequence of definitions and uses, a use sees the definition in force at that point: \\newcommand, \\DeclareRobustCommand and \\newenvironment introduce a name, \\renewcommand and \\renewenvironment replace an existing one, \\providecommand has effect only for a name not defined yet. Defining an existing name anew, redefining an unknown one, giving too few arguments or ending a macro environment with the wrong name or not at all is reported as an error rather than ignored. A definition takes effect from its place on, whatever the blanks, comments or star in its parts, and command and environment macros are never confused with each other.",
 ["histories", "programs"], "all sequences of definitions, redefinitions and uses",
 "each defining command is tested at most once, never in sequences",
 [MAC], [("trapped_by_macro / identify_macro_update", MAC)],
 "stateful model-based testing: a reference macro table predicts output or error of each generated history",
 "random search over generated histories; trusts the reference model")

prop("C07", "Conditionals select exactly the right branch",
 "In any nesting, \\iftrue keeps its first branch and drops the second, \\iffalse drops its first branch and keeps the second, and \\iftypst emits its first branch verbatim as Typst code and drops the second; dropped branches leave no trace, whatever they contain, including macro definitions and further conditionals. The surrounding text is converted as if the conditional were replaced by the chosen branch.",
 ["programs", "inputs"], "all nestings of conditionals with and without \\else, in text and math, with macros inside",
 "tests contain only single conditionals",
 [MAC, PAR, CON], [("reading_if stack, skip_false_tokens", MAC), ("eat_body_of_ifs", PAR)],
 "property-based metamorphic testing: document with conditionals vs document with the chosen branches",
 "random search over generated nestings")

prop("C08", "Leaving a macro scope restores the definitions exactly",
 "For any sequence of opening scopes, defining or removing names, and rolling back or committing, every lookup returns what a stack of plain maps would return: rolling back restores exactly the bindings at the time the scope was opened, committing keeps the current ones. Existing lookups of other names are never affected.",
 ["histories"], "all operation sequences over scopes and names",
 "two short fixed sequences are tested",
 ["crates/mitex-lexer/src/snapshot_map.rs", MAC], [("undo log", "crates/mitex-lexer/src/snapshot_map.rs"), ("create_scope/restore", MAC)],
 "stateful model-based testing against a stack of maps",
 "random search over operation sequences")

prop("C09", "Argument patterns match exactly the argument sequences they describe",
 "Prefix matching a sequence of argument kinds (or any string without slashes) against a glob of literals, ?, *, character classes, negation, escapes and brace alternatives answers true exactly for the prefixes of the strings the glob describes, and whole matching of a glob without braces answers true exactly for those strings. Matching with captures agrees with matching without. Any pattern, however malformed, is answered for any string without slashes, without panicking or looping.",
 ["inputs"], "all patterns and paths over the documented syntax",
 "the table tests fix patterns; combinations of wildcards, braces and classes are unbounded",
 ["crates/mitex-glob/src/lib.rs"], [("glob_match_internal / glob_match_prefix", "crates/mitex-glob/src/lib.rs")],
 "property-based differential testing against a reference matcher (sets of positions over the parsed pattern)",
 "random search; brace groups without stars or braces inside whose longest alternative decides right (the rest is listed in known-findings.txt); robustness on all inputs",
 ["mitex_glob::glob_match", "mitex_glob::glob_match_prefix", "mitex_glob::glob_match_with_captures"])

prop("C10", "Command specifications survive every encoding unchanged",
 "Writing a command specification to its binary form and reading it back (copied or viewed in place, aligned or not) gives the same commands, environments, argument patterns, aliases and context features, and so does the JSON form. The shorthand forms of the JSON package query mean exactly their documented long forms, and when several packages define a name the last one wins; the specification that the command line tool generates from package lists is their merge in that order, and a missing or malformed list is refused. Bytes that are not a specification are rejected, not misread.",
 ["inputs", "configurations"], "all specifications and all encodings of them",
 "tests print one specification; round trips are not tested",
 ["crates/mitex-spec/src/lib.rs", "crates/mitex-spec/src/stream.rs", "crates/mitex-spec/src/query.rs", "crates/mitex-spec/src/preludes.rs"],
 [("rkyv archive", "crates/mitex-spec/src/stream.rs"), ("JSON query types", "crates/mitex-spec/src/query.rs")],
 "property-based round-trip testing with randomly generated specifications",
 "random search over generated specifications")

prop("C11", "Every catalogued command converts by its declared shape and alias",
 "Every command and environment of the shipped specification (as the Typst specification files export it) is known to the converter with exactly its declared argument pattern and alias: used with the declared number of arguments in any context it supports, it converts to its alias applied to its converted arguments. A name that is not in the specification and not a macro is reported as an unknown command or environment, never dropped.",
 ["inputs", "configurations"], "all catalogued commands and environments, times generated arguments and contexts; all unknown names",
 "tests touch a fraction of the roughly thousand catalogued commands",
 [SPEC, "packages/mitex/specs/mod.typ", "packages/mitex/specs/prelude.typ", "crates/mitex-spec-gen/build.rs", CON], [("specification files", SPEC), ("spec generation", "crates/mitex-spec-gen/build.rs"), ("convert_normal_command", CON)],
 "property-based testing over the catalogue with a constructive oracle",
 "all names are visited with generated arguments; trusts `typst query` for the exported catalogue")

prop("C12", "Conversion always terminates with a result or an error",
 "Converting any text in text or math mode, under any specification and in any state of well-formedness, returns either Typst code or an error message; it never panics, aborts or loops (recursive macro definitions excepted). The same holds for lexing and parsing alone, also with tokens consumed in parts.",
 ["inputs"], "all texts, well-formed or not",
 "tests use well-formed inputs",
 [LEX, MAC, PAR, CON], [("error results", CON)],
 "robustness fuzzing with structured soup generators and mutation of well-formed documents",
 "random search with panics, aborts and unbounded allocation as failures; nesting depth is bounded by the generator")

prop("C13", "Accepted formulas and documents convert to valid Typst",
 "Whenever conversion of a well-formed formula or document succeeds, the result is syntactically valid Typst: without errors when parsed in the mode it is meant for, and self-contained, so that following text is not swallowed and every group opened by the result is closed by it.",
 ["inputs"], "all well-formed formulas and documents",
 "tests compare strings and never parse the output",
 [CON], [("converter escapes and delimiters", CON)],
 "property-based testing with the Typst parser as oracle",
 "random search; trusts the typst-syntax parser; the input domain is the generator's grammar of well-formed input")

prop("C14", "Math conversion preserves the content and structure of a formula",
 "For any well-formed formula the converted Typst contains every character, symbol, operator and argument of the formula, in order, applied to the same operands: words letter by letter, commands by their alias with each argument in its place, groups, roots with their index, delimiter pairs, text in formulas, and Typst's own special characters escaped so that they stand for themselves. Nothing is added, dropped, merged or moved.",
 ["inputs"], "all well-formed formulas over the supported constructs, nested to any depth",
 "tests pin some dozens of formulas; compositions are unbounded",
 [CON, PAR], [("converter", CON)],
 "property-based testing with a constructive oracle (generated syntax tree -> expected Typst)",
 "random search; the oracle is an independent rendering of the generated tree, compared modulo insignificant blanks")

prop("C15", "Text conversion preserves the text and separates text from math",
 "For any document in text mode the converted markup contains the words, punctuation and paragraph breaks of the source in order, with Typst's markup characters escaped so that they stand for themselves, inline and display formulas converted as math in their place, and text commands applied to exactly their arguments. Text commands inside formulas convert their arguments as text, and formulas inside those as math again.",
 ["inputs"], "all documents over the supported text constructs",
 "tests pin single commands",
 [CON], [("mode switching", CON)],
 "property-based testing with a constructive oracle",
 "random search; expected markup rendered independently from the generated document")

prop("C16", "Math environments keep their rows and cells",
 "For any matrix, array, cases, aligned-like or substack construct, with any cells, the converted call has exactly the source's cells and rows in order: alignment marks and row breaks become the separators of that environment, and only those directly inside it do. Environment arguments are passed as named arguments, and in text mode the environment becomes a block formula of its own.",
 ["inputs"], "all environments, shapes of rows and cells, and nestings",
 "tests pin two-by-two examples",
 [CON, PAR], [("LaTeXEnv separators", CON)],
 "property-based testing with a constructive oracle",
 "random search over generated grids, nested environments included")

prop("C17", "Lists keep items, order and nesting",
 "For any nesting of itemize and enumerate lists, the converted markup has exactly the source's items, in order, with the marker of the innermost list, each item's text on its own line and indented by its depth, so that Typst reads back the same nesting. An \\item outside of a list is an error.",
 ["inputs"], "all nestings and contents of lists",
 "tests pin one nesting",
 [CON], [("indentation state", CON)],
 "property-based testing: constructive oracle plus re-reading the output with the Typst parser",
 "random search over generated lists")

prop("C18", "Comments and layout do not change the meaning",
 "Adding or removing comments, and blanks or line breaks where LaTeX ignores them (between tokens of a formula, between a command and its arguments, between the parts of a definition or of an environment marker), does not change the converted Typst code other than in insignificant blanks. Commented-out text never reaches the output and never swallows what follows its line.",
 ["inputs"], "all formulas and documents, all placements of comments and blanks",
 "a few comment placements are tested",
 [LEX, PAR, CON], [("trivia handling", PAR)],
 "property-based metamorphic testing",
 "random search over pairs of texts that differ in layout only")

prop("C19", "Conversion is a pure function of text, mode and specification",
 "Converting the same text in the same mode always gives the same result, whatever was converted before, on whichever thread, alone or concurrently; macro definitions, conditionals, labels or errors of one conversion never leak into another.",
 ["histories", "schedules"], "all histories of conversions and all interleavings of threads",
 "each test converts once from a fresh state",
 [MAC, CON, "crates/mitex-spec-gen/src/lib.rs"], [("per-call engine and converter state", MAC)],
 "stateful property-based testing over conversion histories, single- and multi-threaded",
 "random search over histories; real threads without controlled schedules")

prop("C20", "Figures, tables and labels convert faithfully",
 "A tabular environment converts to a table with the declared columns, alignments and vertical rules, its cells in order (empty ones included) and its horizontal rules in their places; figures and tables keep their caption and body; a label attaches to the element it labels. Malformed column specifications and misplaced or incomplete commands are reported as errors.",
 ["inputs"], "all tables, figures and labels over the supported constructs",
 "tests pin one table and one figure",
 [CON], [("convert_env_table / convert_env_figure / label handling", CON)],
 "property-based testing with a constructive oracle and the Typst parser",
 "random search over generated tables and figures")

prop("C21", "The command line tool writes exactly the conversion of its input",
 "For any input file, the compile command writes the library's conversion of the file's content (after the import of the package and the definitions of the names it uses) to the requested output, or by default to the input's name with the .typ extension, never by default to the input itself; the syntax stage writes the syntax tree instead. When the file cannot be read, is not UTF-8 or its conversion fails, or the command line is not a proper one, it reports the error with a failing exit status and leaves existing files as they were. The manual command writes one page for the tool and one for each of its commands with all of their options, a completion script knows every command and option, the forms of the version agree with each other; what cannot be written is an error, never a panic.",
 ["inputs", "configurations"], "all file contents, file names and option combinations",
 "the tool has no tests",
 ["crates/mitex-cli/src/main.rs", "crates/mitex-cli/src/lib.rs"], [("compile command", "crates/mitex-cli/src/main.rs")],
 "property-based testing of the built program in scratch directories, differential against the library",
 "random search over generated command lines and files")

prop("C22", "The WebAssembly plugin interface agrees with the library",
 "For any input bytes, the plugin's conversion functions return exactly the library's result for that text, or its error; text that is not UTF-8 is reported as an error and bytes that are not a specification are rejected. An empty specification means the default one, and specifications compiled or exchanged through the plugin mean the same as the originals.",
 ["inputs", "configurations"], "all input bytes and specifications",
 "the plugin interface has no tests",
 ["crates/mitex-wasm/src/lib.rs"], [("plugin functions", "crates/mitex-wasm/src/lib.rs")],
 "property-based differential testing of the plugin functions against the library",
 "random search; the plugin's source is compiled natively with a stand-in for the plugin protocol macro")

prop("C23", "Converted formulas evaluate in Typst with the shipped package",
 "Every formula built from catalogued commands with arguments of the declared shape converts to Typst code that the shipped package evaluates without error in its own scope, as a formula and inside a document.",
 ["inputs"], "all formulas over the catalogued commands",
 "no test evaluates the output",
 ["packages/mitex/specs/mod.typ", SPEC, "packages/mitex/mitex.typ", CON], [("mitex-scope", "packages/mitex/specs/mod.typ")],
 "property-based testing with the Typst compiler as oracle",
 "random search; formulas are compiled in batches")

prop("C24", "The web preview's document patching yields the new document",
 "Patching any displayed document tree towards any new one results in exactly the new tree, and elements with the same content key are reused in place rather than rebuilt. Glyphs, clip paths and style rules of all updates stay available. When the preview comes to rest after updates of the pages, the outline and the viewport that arrive in any order and at any moment, it shows exactly the last document: each page once, in its place, in its current size and with its current content, and the outline as if it had been built anew, with its titles nested by level and placed after the pages before them. What is in view is rendered; in slide mode exactly the chosen page is shown, fitted into the container. Zooming, page colour, cursor and a click's source location follow what is displayed.",
 ["inputs", "histories", "schedules"], "all sequences of document trees, outlines, viewports, zooms and clicks, and the moments at which they arrive",
 "the existing tests fix a few sequences of keys; no test patches a document",
 ["packages/typst-dom/src/typst-patch.mts", "packages/typst-dom/src/typst-outline.mts", "packages/typst-dom/src/typst-doc.mts"],
 [("view interpretation, instructions and patchSvgToContainer", "packages/typst-dom/src/typst-patch.mts"),
  ("patchOutlineEntry", "packages/typst-dom/src/typst-outline.mts"), ("TypstDocument", "packages/typst-dom/src/typst-doc.mts")],
 "stateful property-based testing of the bundled sources on a model of the DOM, with a model of the renderer's updates and controlled timers",
 "random search over generated histories and schedules, shrunk to a choice sequence")

prop("C25", "Colours and graphics keep their parameters and scope",
 "A colour command applies its colour, with its model if given, to exactly the text it governs: \\color to everything up to the end of the group or cell, \\textcolor and \\colorbox to their argument. Included graphics keep path, width and height as given, other options being ignored; an image command without its file is reported as an error.",
 ["inputs"], "all colour and graphics commands with generated parameters, in text and math",
 "tests pin a few uses",
 [CON], [("convert_command_color / convert_command_includegraphics", CON)],
 "property-based testing with a constructive oracle",
 "random search over generated uses")

prop("C26", "The shipped Typst package shows what was written",
 "In Typst, mitex-convert gives what the library gives for the same text, mode and (compiled) specification, for strings and raw text alike; what the library refuses is refused there with its message, and anything but text is refused. mi and mimath/mitex make an inline or block equation of the converted formula with the given settings; mitext shows the words, styles, lists, tables, figures, formulas, labels and references of the document, each in its place, with labels at the elements they were given to.",
 ["inputs"], "all formulas, documents, specifications and equation settings, through the WebAssembly plugin",
 "the package is not run by any test",
 ["packages/mitex/mitex.typ", "packages/mitex/lib.typ", "crates/mitex-wasm/src/lib.rs", CON], [("mitex / mimath / mi / mitext / mitex-convert", "packages/mitex/mitex.typ")],
 "property-based testing through the Typst compiler: differential against the library and a constructive model of the evaluated content",
 "random search; the plugin is compiled to WebAssembly with a stand-in for the protocol crate")

prop("C27", "The web playground shows and offers the conversion of what is typed",
 "At rest after any sequence of edits, and whenever the compiler is loaded and answers, the playground's output is the conversion of the text in the input, or empty with the conversion's error shown; the preview is the compiled document of that very text, never of an earlier one. The code offered for copying is, for every convertible formula, valid Typst code that gives the block equation of the converted formula.",
 ["inputs", "histories", "schedules"], "all typed texts, sequences of edits and moments at which the compiler is loaded and answers",
 "the playground is not run by any test",
 ["packages/mitex-web/src/main.ts", "packages/mitex/mitex.typ"], [("App / Preview / CopyButton", "packages/mitex-web/src/main.ts")],
 "stateful property-based testing of the bundled sources with stand-ins for the DOM, the reactive library and the compiler, the conversion by the real plugin; the copied code is run by the real Typst compiler",
 "random search over generated histories and schedules, shrunk to a choice sequence")

prop("C28", "The typed views of a tree show what the text says",
 "For any text, the typed views of the syntax tree agree with what is written: a formula view tells inline from display formulas and a formula with its own closing delimiter from one without (a single $ counts as complete); a command view gives the command's name and its arguments in order; an environment view gives the name, the arguments and the end; a delimiter view gives the two sides with their symbols. Views exist for exactly the nodes of their kind, one for each such construct of the text, and looking at them never fails, whatever the text.",
 ["inputs"], "all texts, well-formed or not",
 "the tests look at about fifteen single constructs, never at nested ones",
 [SYN], [("syntax_tree_node! views and their accessors", SYN)],
 "property-based testing with a constructive model (the generator's own list of constructs) and fuzzing of arbitrary text",
 "random search; the expected views are built from the generated meaning, not from the tree")

prop("C29", "The document editor shows, compiles and stores one and the same text",
 "In the web's document editor, in whatever order the stored files, the fetched repository, the compiler and its fonts get ready, at rest the editor shows the main file as it was last loaded or edited; the compiler has, the browser stores and the preview is compiled from that very text and the current contents of all other files, styled for the current colour scheme; an error of the compilation is shown until one succeeds. Another visit starts with what the last one stored. Exports offer the current document in the light scheme under the right name and type. Following a link scrolls to the linked place of the page with the linked number and marks it, and what lies at a link is highlighted only while the mouse is over it.",
 ["inputs", "histories", "schedules"], "all files, edits, visits and moments at which the parts get ready; all page layouts, scroll positions and places",
 "the editor is not run by any test",
 ["packages/mitex-web/src/tools/underleaf.ts", "packages/mitex-web/src/tools/underleaf-fs.ts", "packages/mitex-web/src/tools/underleaf-editor.ts", "packages/mitex-web/src/tools/underleaf-preview.ts", "packages/mitex-web/src/tools/typst.ts"],
 [("DirectoryView / FsState", "packages/mitex-web/src/tools/underleaf-fs.ts"), ("Editor", "packages/mitex-web/src/tools/underleaf-editor.ts"), ("App", "packages/mitex-web/src/tools/underleaf.ts"), ("handleTypstLocation / initTypstSvg", "packages/mitex-web/src/tools/typst.ts")],
 "stateful property-based testing of the bundled sources with stand-ins for the DOM, the reactive library, the editor widget, git, the browser's storage and the compiler",
 "random search over generated histories, schedules and layouts, shrunk to a choice sequence")

prop("C30", "The work of a conversion grows in proportion to the length of its text",
 "For any text that is made of many pieces side by side (paragraphs, formulas, items, rows, cells, lines, definitions and uses of macros, branches of conditionals, comments), as a document of its own or inside of one construct, the time of a conversion grows in proportion to the number of the pieces and not faster. Constructs nested some tens of levels deep convert at once too: the time does not multiply with every level. (Beyond that, what a deeper and deeper nesting costs is not judged.)",
 ["inputs"], "all pieces and surroundings, at three lengths each up to about 100 000 bytes; nestings of up to three constructs in turn, to 42 levels",
 "the tests convert texts of some hundred bytes and never look at the time",
 [CON, PAR, MAC, STR], [("convert_text / convert_math", "crates/mitex/src/lib.rs"), ("MacroEngine", MAC), ("Parser", PAR)],
 "property-based testing with a metamorphic relation: processor time of a text and of the same text four and sixteen times as long",
 "random search; processor time of the thread, the least or the median of several runs, with a factor of four between the bound and proportional growth")
prop("C31", "Each paragraph of a document and each formula of a paragraph converts on its own",
 "What a paragraph or a formula converts to does not depend on what stands before or after it in the document, nor what follows on it: if no part defines macros, leaves a construct open or takes in the text beyond it (as the syntax tree shows), the conversion of several paragraphs is that of each, one after the other, and that of a text with several formulas has each formula's own conversion in its place. This holds for well-formed texts, for texts with missing, doubled, swapped or stray tokens, and for commands and environments of the specification with missing or empty arguments and bodies.",
 ["inputs"], "documents of two or three paragraphs and texts with two to four formulas in various surroundings, constructed or damaged",
 "the tests convert single formulas and short documents; the state a converter carries along (mode, environment, indentation, labels, starts of lines) shows in what follows only",
 [CON, PAR], [("Converter::convert", CON), ("convert_env", CON), ("Parser", PAR)],
 "property-based testing with a metamorphic relation: the conversion of joined parts equals the joined conversions of the parts",
 "random search over constructed and damaged texts; parts that fail to convert or reach beyond themselves in the syntax tree are discarded by rule")
