#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": None}})

# ------------------------------------------------------------------ generator
p("T01", "Declarations are reproduced with exactly their symbols and exactly their types",
  "For every accepted text input, the tool reports and generates code for exactly the functions and objects the input declares: none lost, none invented, every name verbatim, and every C type identical to the declared one (qualifiers, pointer levels, array bounds, callback parameters, variadic tails). Layout that does not change the C meaning (white space, both comment styles, preprocessor lines with line splices, the extern keyword, type-definition blocks, a missing last semicolon) never changes the result. The three parameter-name modes give the same types.",
  ["inputs"], "all accepted declaration files: any number of declarations of any supported form, any layout and noise, every -param mode and output format",
  "The suite feeds one fixed file (tests/helloworld.txt and 3 variants) with about ten declarations; the input language is unbounded and the parser works by token patterns, so type damage only shows on shapes the file does not contain.",
  ["src/lex.l", "src/lex.yy.c", "src/tokenize.cpp", "src/parse.cpp", "src/check_pattern.cpp", "src/parameter_names.cpp", "src/substitute.cpp"],
  [("lexer states for comments/preprocessor/line splits", "src/lex.l"), ("tokenize_stream, remove_superfluous_parentheses, create_typedefs, format_prototype", "src/tokenize.cpp"), ("check_prototype and the pattern table", "src/parse.cpp, src/check_pattern.cpp"), ("get_parameter_names / create_parameter_names", "src/parameter_names.cpp")],
  ["-print-symbols output and generated headers, compiled against the model's own types (std::is_same)"])

p("T02", "-P and -S select exactly the requested symbols; a missing -S symbol is an error",
  "With -P prefixes and/or -S names, the output contains exactly the declared symbols that start with one of the prefixes or equal one of the names, each once; without either, all symbols of a text input. Any name given with -S that the input does not declare makes the run fail with a message naming every missing symbol. The same selection rule holds for Clang AST input, where -ast-all-symbols selects everything and giving no selection at all is an error.",
  ["inputs", "configurations"], "all symbol sets and all combinations of -P/-S values, including overlapping, repeated, identical and partially missing ones, text and AST input",
  "The tests use one prefix and one or two -S names that all exist; overlap between prefix and list, repeats, missing names and the early exit of the AST reader are never exercised.",
  ["src/parse.cpp", "src/clang_ast.cpp", "src/utils.cpp", "src/utils.hpp"],
  [("filter modes, save_symbol, m_symbol_list bookkeeping", "src/parse.cpp"), ("filter in get_declarations / parse_clang_ast", "src/clang_ast.cpp"), ("is_prefixed, get_filter_mode, sort_dedup", "src/utils.cpp")],
  ["symbol set printed by -print-symbols and dispatched by generated code", "exit code and stderr"])

p("T03", "A Clang AST dump gives the same symbols and types as the header it came from",
  "For any C header of supported declarations, feeding the tool the text dump clang prints for that header selects the same functions and objects with the same C types as the header itself declares, including variadic functions, callback parameters, arrays and repeated declarations. Colour escapes, Windows line endings and a byte order mark do not change the result.",
  ["inputs"], "all headers of supported declarations, real dumps of the installed clang, coloured or not, LF or CRLF, with and without unrelated declarations around",
  "One committed dump (tests/ast.txt) of one header is used; nothing compares AST mode against the C meaning of other headers.",
  ["src/clang_ast.cpp", "src/lex.l", "src/lex.yy.c", "src/tokenize.cpp"],
  [("extraction of declarations and parameters", "src/clang_ast.cpp:get_declarations,get_parameters"), ("AST lexer state", "src/lex.l")],
  ["-print-symbols output and generated header for AST input, compiled against the header's own types"])

p("T04", "Rejected input or options: failure exit, a diagnostic, and no file touched",
  "Whenever the command line, an %option line or the declarations are unacceptable (unknown option or value, unreadable input, illegal character, unparsable or duplicate declaration, nothing declared, missing selected symbol, ambiguous parameter), the tool exits with a failure status and explains itself on standard error. In that case no output file is created, changed or removed, even with -force, and nothing of a header is printed on standard output.",
  ["inputs", "configurations"], "all unacceptable inputs and option combinations, with pre-existing, absent or protected output paths",
  "The suite has no negative test at all: every test feeds valid input and only checks success.",
  ["src/main.cpp", "src/options.cpp", "src/opt_parser.h", "src/tokenize.cpp", "src/parse.cpp", "src/parameter_names.cpp", "src/clang_ast.cpp", "src/generate.cpp"],
  [("parse everything before open_ofstream", "src/main.cpp, src/generate.cpp"), ("error / error_cmd exceptions to exit 1", "src/main.cpp"), ("multiple_definitions, read_parameter_names diagnostics", "src/parse.cpp, src/parameter_names.cpp")],
  ["exit status, stderr, stdout", "directory snapshots (inode, mode, mtime, bytes) before and after"])

p("T05", "No input, template or option can crash, hang or corrupt the generator",
  "For arbitrary bytes as declaration file, AST dump, custom template or template directory, and for arbitrary option values, the tool terminates with a normal exit status: success, or failure with a diagnostic. It never dies from a signal or an unhandled exception, never loops forever, and never performs an invalid memory access or other undefined behaviour.",
  ["inputs", "configurations"], "arbitrary byte strings (up to tens of kilobytes here) for every input channel, combined with arbitrary option sets",
  "Tests run only well-formed inputs, without sanitizers.",
  ["src/lex.yy.c", "src/tokenize.cpp", "src/parse.cpp", "src/check_pattern.cpp", "src/parameter_names.cpp", "src/clang_ast.cpp", "src/substitute.cpp", "src/generate.cpp", "src/data.cpp", "src/utils.cpp", "src/options.cpp", "src/opt_parser.h"],
  [("iterator/size checks in check_pattern", "src/check_pattern.cpp"), ("exception to exit code mapping", "src/main.cpp"), ("template list handling", "src/data.cpp, src/generate.cpp")],
  ["exit status / signal, stderr, AddressSanitizer and UBSan reports of the instrumented build"])

p("T06", "No overwrite without -force, links never followed, no other file written",
  "Without -force the tool never modifies, replaces or truncates anything that already exists at an output path, be it a file, a link (dangling or not) or a directory; it fails instead. With -force the path is replaced by a fresh regular file and whatever a link pointed to stays untouched. No path other than the named output (or the two files derived from it by -separate) is created, changed or removed.",
  ["configurations", "inputs"], "all kinds of pre-existing objects at the output path(s), every output mode (single, separate, custom template, all formats), with and without -force",
  "Build rules always write fresh names or pass -force; no test has a pre-existing target, a link or a directory.",
  ["src/generate.cpp", "src/gendlopen.cpp", "src/cio_ofstream.hpp", "src/data.cpp"],
  [("open_ofstream: remove on force, symlink_status check", "src/generate.cpp"), ("extension replacement for -separate", "src/generate.cpp:generate")],
  ["snapshots of the scratch tree and of link targets before/after", "system-call trace of files opened for writing"])

p("T07", "Exit status 0 means the complete output was written",
  "If the tool exits with status 0, every byte of the requested output has reached the file(s) or standard output. If a write fails at any point (disk full, file size limit, full or closed standard output, failure on the second file), the tool reports it and exits with a failure status.",
  ["fault_sequences", "crash_points"], "a write failure injected at any byte offset of any output channel, in every output mode",
  "No test injects an I/O error.",
  ["src/cio_ofstream.hpp", "src/cio_ofstream.cpp", "src/generate.cpp", "src/substitute.cpp", "src/gendlopen.cpp", "src/data.cpp", "src/main.cpp"],
  [("cio::ofstream open/close", "src/cio_ofstream.cpp"), ("save::ofs", "src/generate.cpp")],
  ["exit status against the bytes that reached the target, compared with an undisturbed run"])

p("T08", "The same request gives the same bytes through every channel and spelling",
  "Output is a function of the declarations and the effective options only: repeated runs give identical bytes (apart from the date line, which -no-date removes), and so do a file or standard input, a file or standard output (for the same header name), LF or CRLF input, an option on the command line or as %option line, and every documented spelling and order of the options. %option lines override the command line, and -ignore-options makes them inert.",
  ["inputs", "configurations"], "all inputs and option sets, all pairs of equivalent ways to state them",
  "Each test states its request in one way, and only compiles the result; equivalence of channels is never compared.",
  ["src/options.cpp", "src/opt_parser.h", "src/opt_parser++.hpp", "src/tokenize.cpp", "src/generate.cpp", "src/gendlopen.cpp", "src/open_file.cpp"],
  [("option parser: prefixes and separators", "src/opt_parser.h"), ("parse_options", "src/options.cpp"), ("OPTION lexer state", "src/lex.l"), ("note(): date line", "src/generate.cpp")],
  ["bytes of the outputs of equivalent invocations"])

p("T09", "Dumped templates are faithful, and the built-ins can be replaced by them",
  "-dump-templates writes every built-in template, complete and unaltered. Generating with -templates-path pointing at an unmodified dump gives the same output as generating with the built-in templates, for every format and option set; editing a dumped template changes the output by exactly that edit (template file names in line directives aside). A missing or unreadable template is reported as an error.",
  ["configurations", "inputs"], "all formats and option sets, with dumps unmodified or edited at any line of any template",
  "No test uses -dump-templates or -templates-path.",
  ["src/data.cpp", "src/generate.cpp", "src/substitute.cpp", "src/utils.cpp", "src/gen_templates_data.c", "src/list.h"],
  [("save_to_file, load_from_file, load_template", "src/data.cpp"), ("embedding at build time", "src/gen_templates_data.c"), ("get_lines: line joining", "src/utils.cpp")],
  ["bytes of the dump against the template sources", "bytes of outputs with built-in, dumped and edited templates"])

p("T10", "Custom templates expand exactly as documented",
  "A line without placeholders is copied unchanged (apart from the identifier prefix); a line, or a group of lines joined by a trailing @, with function, object or symbol placeholders is emitted once per function, object or symbol, in order, with every placeholder replaced by that symbol's data and nothing else altered. Lines between the parameter-skip markers appear only in the mode they are for, and mixing placeholder kinds on one line is an error.",
  ["inputs"], "all custom templates (any text, placeholder mix, joining, markers, line endings, missing final newline) and all declaration sets and parameter modes",
  "No test uses -template; the built-in templates exercise only the placeholder combinations they happen to contain.",
  ["src/substitute.cpp", "src/utils.cpp", "src/gendlopen.cpp"],
  [("substitute_line and replace_* loops", "src/substitute.cpp"), ("get_lines, save_to_line", "src/utils.cpp"), ("process_custom_template", "src/gendlopen.cpp")],
  ["output bytes against an independent reference expander"])

p("T11", "A custom prefix renames the whole generated interface and isolates it",
  "With -prefix NAME, every identifier and macro of the generated interface carries the given prefix and none of the default prefix remains, in every format; the code behaves exactly like the default-prefix code with the names changed. Outputs generated with different prefixes, even for libraries with the same symbol names, can be used together in one program: each keeps its own library handle, pointers, error text and path.",
  ["inputs", "configurations", "histories"], "all valid identifier prefixes, all formats and options, all pairs of prefixes in one program and all interleavings of operations on the two interfaces",
  "Two tests use one fixed prefix each, alone in the program.",
  ["src/gendlopen.cpp", "src/substitute.cpp", "src/generate.cpp", "src/tokenize.cpp", "src/templates/common.h", "src/templates/c.h", "src/templates/cxx.hpp"],
  [("replace_prefixes, prefix()", "src/gendlopen.cpp"), ("typedef names", "src/tokenize.cpp:create_typedefs"), ("prefix use in defines", "src/generate.cpp")],
  ["tokens of the output", "run-time state dumps of two interfaces in one process"])

p("T12", "-line attributes every generated line to its true origin, changing nothing else",
  "With -line, each line of the output is attributed, by the C rules for line directives, either to the template file and the line in it that it was produced from, or to its own position in the generated file. Removing the directives gives exactly the output produced without -line.",
  ["inputs", "configurations"], "all formats, prefixes, parameter modes, symbol sets, custom templates and template directories",
  "One test compiles a header made with -line; a wrong line number or file name still compiles.",
  ["src/substitute.cpp", "src/generate.cpp", "src/gendlopen.cpp", "src/data.cpp", "src/gen_templates_data.c"],
  [("m_substitute_lineno bookkeeping", "src/substitute.cpp"), ("line_directive and line counting", "src/generate.cpp")],
  ["line attribution of the output, computed by the C preprocessor and compared with the template sources"])

p("T13", "What options add to the output is exactly what was asked for",
  "The default library macros equal the name given with -library (verbatim, quoted, with the platform's file extension, or composed from an ABI number), whatever the name; every -D macro is defined with its value unless already defined; every -include line appears with the right quoting, in order; the header can be included repeatedly with either guard style; -format, -separate, -no-date, -no-pragma-once have their documented effect and no other.",
  ["inputs", "configurations"], "all option values (any library name, macro, include name), repeated and combined, on the command line or as %option lines, in every format",
  "Tests pass one or two fixed values per option and only check that the result compiles and runs.",
  ["src/generate.cpp", "src/gendlopen.cpp", "src/options.cpp", "src/templates/filename_macros.h", "src/templates/common.h"],
  [("format_libname, quote_lib", "src/generate.cpp"), ("add_def, add_inc", "src/gendlopen.cpp"), ("header_guard_begin/end", "src/generate.cpp")],
  ["macro values and include order as seen by the real preprocessor and compiler", "run-time value of the default library name"])

p("T14", "Every output for accepted declarations compiles cleanly in its language",
  "For every accepted set of declarations and every combination of output format, documented configuration macro and option, the generated files compile as C (C99 and later) or C++ (C++11 and later) for the formats that promise it, with gcc and clang, without errors or warnings, and link.",
  ["inputs", "configurations", "programs"], "all accepted declaration sets (including only functions, only objects, one symbol, variadic, void, const and array objects) x formats x macros x options x language standards x compilers",
  "Around 28 fixed programs are compiled from one declaration file.",
  ["src/generate.cpp", "src/substitute.cpp", "src/templates/common.h", "src/templates/common.c", "src/templates/c.h", "src/templates/c.c", "src/templates/cxx.hpp", "src/templates/cxx.cpp", "src/templates/minimal.h", "src/templates/minimal_cxxeh.hpp", "src/templates/plugin.h", "src/templates/plugin.c"],
  [("templates", "src/templates/*"), ("HAS_VA_ARGS defines, COMMON_PREFIX", "src/generate.cpp")],
  ["compiler exit status and diagnostics, over a configuration matrix"])

# ------------------------------------------------------------------ generated code
p("R01", "C interface: every call sequence matches the documented state machine",
  "For every sequence of load, load-symbols (all, by number, by name), free, forced free and query calls, with any call failing at any point, each return value and the state it leaves (library loaded or not; all, some or no symbols loaded; each symbol's address) are those of the documented state machine: each symbol pointer is always either null or its address in the library currently loaded; loading all symbols succeeds exactly when every symbol is found and otherwise reports failure and keeps the library loaded; loading a library while one is loaded fails and changes nothing; a failed free keeps everything, a successful or forced free resets every symbol.",
  ["histories", "fault_sequences"], "all call sequences (dozens of operations) over libraries that are present, absent, broken or lack symbols, with loader faults injected at any call, with and without wrappers, separate files and static linkage",
  "Each test performs one successful load/free sequence, one test loads a single symbol; failures and re-entry are not tested.",
  ["src/templates/c.c", "src/templates/c.h", "src/templates/common.c", "src/templates/common.h"],
  [("load/free/load_symbol functions", "src/templates/c.c"), ("handle state structure", "src/templates/c.h")],
  ["return values and full state dump after every operation, checked against a reference model", "intercepted loader calls"],
  [{"name": "handle state", "meaning": "library handle, symbol pointers, error buffer, path", "where": "src/templates/c.h"}])

p("R02", "Every library handle opened is closed exactly once and never used after",
  "Over any history of operations and injected loader faults, in every output format, the generated code passes to the loader only handles the loader gave it and that are still open; each successful open is matched by exactly one successful close once the program releases the library (explicitly, by automatic release, by destruction where enabled, or, in the minimal formats, by a failed or repeated load). No handle is lost while it is still open, except by a forced free whose close fails.",
  ["histories", "fault_sequences"], "all operation histories and fault points, all formats (C, C++, minimal C and C++, plugin) and release modes",
  "No test observes loader calls; leaks and double closes are invisible because the process exits right after.",
  ["src/templates/c.c", "src/templates/cxx.cpp", "src/templates/cxx.hpp", "src/templates/minimal.h", "src/templates/minimal_cxxeh.hpp", "src/templates/plugin.c"],
  [("free / force_free / autorelease", "src/templates/c.c"), ("dl::free, destructor", "src/templates/cxx.cpp"), ("free on failed symbol load", "src/templates/minimal.h"), ("gdo_release_plugins", "src/templates/plugin.c")],
  ["event log of every loader call with unique handle identities, checked offline for conservation and use-after-close"])

p("R03", "Code using the generated names behaves as if linked to the library directly",
  "After a successful load, every function and object used through its plain name in ordinary C or C++ code (functions: calls and use as a function pointer value; objects: any expression, such as address-of, assignment, indexing, increment, member access, calls through them) has the same effect and value as in a program linked directly against the library: the same arguments, results, side effects and object addresses. This holds in every output format and with wrapper functions.",
  ["inputs", "programs"], "all supported declaration sets and all client expressions over their names, all formats and wrapper settings",
  "The tests call half a dozen functions of one library and set one callback object.",
  ["src/templates/c.h", "src/templates/c.c", "src/templates/cxx.hpp", "src/templates/cxx.cpp", "src/templates/minimal.h", "src/templates/minimal_cxxeh.hpp", "src/substitute.cpp"],
  [("alias macros and symbol pointers", "src/templates/c.h, cxx.hpp, minimal.h, minimal_cxxeh.hpp"), ("symbol lookup by name", "src/templates/c.c, cxx.cpp")],
  ["transcript of a generated client program run twice: linked directly, and through the generated code"])

p("R04", "Wrapper functions forward calls exactly and refuse to call what is not loaded",
  "With wrapper functions enabled, each call reaches the library function exactly once with the same arguments (including variadic ones where supported) and returns its result, and a hook macro defined for the function runs exactly once before it. Calling a wrapper whose symbol is not loaded never calls through a null pointer: it reports the function on the documented error path and aborts, or loads the library first when automatic loading is on.",
  ["inputs", "histories", "configurations"], "all function signatures and argument values, all states (not loaded, loaded, symbol missing, freed), hooks on any subset, static/inline/visibility settings, C and C++",
  "One wrapped program makes a few calls after a successful load; the not-loaded path and hooks are not tested.",
  ["src/templates/c.c", "src/templates/c.h", "src/templates/cxx.cpp", "src/templates/cxx.hpp", "src/templates/common.h"],
  [("wrapper bodies, GDO_HOOK, check for null", "src/templates/c.c, src/templates/cxx.cpp"), ("variadic handling", "src/templates/c.c, src/generate.cpp")],
  ["call log written by the library itself and by the hooks", "exit signal and message of the calling process"])

p("R05", "Automatic loading loads once, on first use, and releases at exit",
  "With automatic loading, the first use of any wrapped function loads the library and all symbols (or, in lazy mode, only the symbol used, later ones on their own first use) before the call takes place; later uses do not load again. If the library or symbol cannot be loaded, the program gets a diagnostic that names the function and the library or missing symbol and a failure exit status, and the function is not called. The library is released at program exit.",
  ["histories", "fault_sequences", "configurations"], "all orders of first uses, eager and lazy mode, C and C++, mixed with explicit load/free calls, with the library or any symbol missing",
  "Two tests load an existing library automatically and call functions once; lazy mode, failures and order are not covered.",
  ["src/templates/c.c", "src/templates/cxx.cpp", "src/templates/common.h"],
  [("quick load / lazy load functions", "src/templates/c.c"), ("autoload in C++ wrappers", "src/templates/cxx.cpp"), ("autorelease through atexit", "src/templates/c.c")],
  ["loader event log interleaved with the library's call log", "exit status and diagnostics"])

p("R06", "The error text always describes the last operation, and fits",
  "After every operation of the C and C++ interfaces the reported error text is never null; it says that there was no error exactly when the last load, symbol load, free or path query succeeded, and after a failure it is the documented message or the loader's own explanation for that failure, never one left from an earlier operation. Names and loader messages of any length never overflow the text: it stays terminated and within its buffer.",
  ["histories", "fault_sequences", "inputs"], "all operation histories and failure kinds; names and loader messages from empty to tens of kilobytes",
  "Tests print the error text only when they fail; nothing checks its content, staleness or bounds.",
  ["src/templates/c.c", "src/templates/cxx.cpp", "src/templates/common.h", "src/templates/plugin.c"],
  [("error buffer helpers", "src/templates/c.c"), ("last error of the C++ class", "src/templates/cxx.cpp")],
  ["error text after every operation, against the reference model and injected loader messages, under AddressSanitizer"])

p("R07", "The reported library path is the loaded file, and is never stale",
  "While a library is loaded and at least the documented information is available, the path the generated code reports is the absolute path of the file that was actually loaded, whatever name or search rule found it. When no library is loaded it reports none (with an error text), and after loading a different library it reports the new one.",
  ["histories", "inputs", "configurations"], "all histories of loading different libraries, by absolute, relative, linked and searched names, in C and C++, one or several objects",
  "Tests print the path without checking it.",
  ["src/templates/c.c", "src/templates/cxx.cpp", "src/templates/common.c"],
  [("library path lookup", "src/templates/c.c, src/templates/cxx.cpp, src/templates/common.c")],
  ["reported path against the real path of the mapped file (same device and inode)"])

p("R08", "C++ class: every history over one or more objects matches the documented model",
  "For every sequence of construction, load, load-symbols, free, query and destruction over one or more loader objects, with failures at any point, results and state are those of the documented model: objects share one loaded library, a failed load leaves the loaded library and symbols as they were, free resets every symbol, destruction releases only when asked to, each object reports its own file name, flags and error, and the message callback receives each wrapper failure report once.",
  ["histories", "fault_sequences"], "all operation sequences over up to several objects, all constructors and options, loader faults at any call",
  "Tests use one object and one successful load/free.",
  ["src/templates/cxx.hpp", "src/templates/cxx.cpp"],
  [("class dl: load, free, destructor, static state", "src/templates/cxx.hpp, src/templates/cxx.cpp")],
  ["return values and state dump after each operation, against a reference model", "intercepted loader calls and callback log"])

p("R09", "Minimal headers load all or nothing",
  "In the minimal C and C++ formats a load either succeeds with the library open and every symbol resolved to the library's address, or fails (false with a message, or the documented exception naming the library or symbol) with the library closed again and no symbol usable. Freeing closes the library and resets the symbols, and loading and freeing can be repeated in any order.",
  ["histories", "fault_sequences", "inputs"], "all load/free histories over good, absent, broken and incomplete libraries, with any symbol missing at any position and faults injected at any loader call",
  "Two tests load an existing, complete library once.",
  ["src/templates/minimal.h", "src/templates/minimal_cxxeh.hpp"],
  [("load and free functions", "src/templates/minimal.h"), ("loader class and exceptions", "src/templates/minimal_cxxeh.hpp")],
  ["return values / exceptions, state and loader events against a reference model"])

p("R10", "Plugin loader: each plugin loads, fails and is released on its own",
  "For any list of plugin files, loading yields one record per requested plugin in the given order, each carrying its own handle and its own symbols' addresses; a plugin that is absent or broken gives a record without handle, a symbol that a plugin lacks is null in that plugin's record only, and neither disturbs the others. When memory runs out, loading gives no result and leaves nothing open. Releasing the result closes every opened plugin exactly once and frees all memory.",
  ["inputs", "histories", "fault_sequences"], "all lists (empty, long, repeated files) mixing good, absent, broken and incomplete plugins, repeated load and release, null and empty names, injected loader faults",
  "One test loads two good plugins.",
  ["src/templates/plugin.h", "src/templates/plugin.c"],
  [("gdo_load_plugins / gdo_release_plugins", "src/templates/plugin.c")],
  ["records dumped by the client, loader events, leak checker"])

p("R11", "Separate header/body outputs behave like the single file and share one state",
  "Code generated with -separate and used from any number of source files behaves exactly like the single-file output: all source files see one library handle, one set of symbols and one error state, there are no duplicate or missing definitions, and static or hidden linkage settings keep each user's state private where documented.",
  ["programs", "histories", "configurations"], "all operation histories distributed over several source files, for C and C++, wrapped or not, with static linkage variants",
  "Two tests use two source files with one call each.",
  ["src/generate.cpp", "src/data.cpp", "src/templates/common.h", "src/templates/c.h", "src/templates/c.c", "src/templates/cxx.hpp", "src/templates/cxx.cpp", "src/templates/plugin.h", "src/templates/plugin.c"],
  [("separate output", "src/generate.cpp, src/data.cpp"), ("linkage macros", "src/templates/common.h, c.h, cxx.hpp")],
  ["state dumps taken from different translation units after every operation; linker diagnostics"])

p("R12", "Generated code is free of memory errors, undefined behaviour and leaks",
  "For every operation history, fault sequence and argument (null and over-long names and out-of-range symbol numbers included where the interface allows them), the generated C and C++ code never reads or writes outside its objects, uses freed memory, performs undefined behaviour or leaks memory it allocated or file descriptors it opened.",
  ["histories", "fault_sequences", "inputs"], "all histories over all formats with hostile arguments and injected loader faults",
  "Tests run without sanitizers and with one friendly argument per call.",
  ["src/templates/common.c", "src/templates/c.c", "src/templates/cxx.cpp", "src/templates/plugin.c", "src/templates/minimal.h", "src/templates/minimal_cxxeh.hpp"],
  [("error buffer and path helpers", "src/templates/c.c, common.c, cxx.cpp"), ("plugin list allocation", "src/templates/plugin.c")],
  ["AddressSanitizer, UBSan and leak-checker reports over random histories"])

p("R13", "Loaded symbols work in any thread and separate interfaces do not interfere",
  "Once an interface is loaded, any number of threads may at the same time call its functions (by plain name, through pointers, wrapped with hooks, or by automatic loading after the first load), use its objects and ask for its load state: every result is the one a direct link would give and the generated code makes no unsynchronised conflicting memory access. Interfaces that share no state (different prefixes, private static copies, separate plugin lists) may be loaded, used, queried and freed in different threads at the same time, each behaving as it does alone.",
  ["schedules", "histories", "configurations"], "all schedules of calls and state queries on shared loaded interfaces, and of independent histories of several interfaces in one process, over all formats and their wrapper, automatic loading, static and separate variants",
  "All tests are single threaded and use one interface per process.",
  ["src/templates/c.c", "src/templates/c.h", "src/templates/cxx.hpp", "src/templates/cxx.cpp", "src/templates/plugin.c", "src/templates/minimal.h", "src/templates/minimal_cxxeh.hpp"],
  [("wrapper and state query functions", "src/templates/c.c, cxx.hpp, cxx.cpp"), ("per-interface state", "src/templates/c.c, cxx.cpp, plugin.c, minimal.h")],
  ["ThreadSanitizer reports", "per thread comparison of every result, state, error text and path; recorded schedule"])

p("R14", "Generated code keeps its guarantees on the Windows loader API",
  "Compiled for Windows (LoadLibraryEx, or dlopen through GDO_USE_DLOPEN; narrow or wide characters, GDO_CONVERT_FILENAME, C, C++, minimal and plugin formats, automatic loading, wrappers, message boxes), the generated code asks the loader for exactly the given file name (forward slashes as backslashes) in the given encoding with the given flags, reports success exactly when the loader calls succeeded, publishes exactly the resolved addresses, frees each library it loaded once, returns the full path (or an error if it does not fit) of the library loaded now, and its error text names what failed with the code of the call that failed, never that of another call; file names and texts converted between char and wchar_t are unchanged; no misuse of memory or of the API happens, also when calls or allocations fail.",
  ["histories", "faults", "configurations"], "all histories of API calls with any file and symbol names, any failing Windows call or allocation, every Windows build configuration",
  "The tests run on Linux only; none of the Windows code is compiled.",
  ["src/templates/c.c", "src/templates/c.h", "src/templates/common.h", "src/templates/common.c", "src/templates/cxx.hpp", "src/templates/cxx.cpp", "src/templates/plugin.c", "src/templates/minimal.h", "src/templates/minimal_cxxeh.hpp", "src/templates/filename_macros.h"],
  [("GDO_WINAPI, GDO_DLFCN_WIN32 and _UNICODE branches", "src/templates/c.c, cxx.cpp, common.h, plugin.c, minimal.h, minimal_cxxeh.hpp, filename_macros.h")],
  ["emulated Windows API that records every call and injects failures", "ASan/UBSan/LSan", "model of state, path, encoding and error text"])

p("R15", "Generated code keeps its guarantees on other systems, C libraries, compilers",
  "Compiled with what other supported systems declare and provide (musl, Android, FreeBSD, DragonFly, OpenBSD, NetBSD, Solaris, macOS, AIX; C libraries that hide dladdr(), dlinfo() and dlmopen(); compilers that are not GCC-like; GNU C90 to C17), the generated C, C++, minimal and plugin code builds and links, also from several source files of one program, and matches the same documented behaviour: requested files, flags and namespaces (those the system has), success and symbol state, handles closed once, error texts; the reported path is the loaded file, found by the means the system has (dlinfo, dladdr, AIX loadquery with archive member as path(member)), or an error; library name macros and make_libname() give the system's documented names; wrappers and names work as if linked.",
  ["histories", "faults", "configurations"], "all histories of API calls, any failing loader call, every supported system and build configuration",
  "The tests run on one Linux system with glibc and GCC; none of the code for other systems is compiled.",
  ["src/templates/common.h", "src/templates/common.c", "src/templates/c.c", "src/templates/c.h", "src/templates/cxx.cpp", "src/templates/cxx.hpp", "src/templates/minimal.h", "src/templates/minimal_cxxeh.hpp", "src/templates/plugin.c", "src/templates/filename_macros.h"],
  [("platform branches: GDO_HAVE_DLINFO/DLADDR/DLMOPEN, prototypes, RTLD_* defaults", "src/templates/common.h"), ("_AIX, path query branches", "src/templates/common.c, c.c, cxx.cpp"), ("library names", "src/templates/filename_macros.h, cxx.cpp"), ("macro wrappers without GCC", "src/templates/c.h")],
  ["platform macros, declarations and calls emulated over a loader shim", "reference models with each platform's capabilities", "two-file programs judged by their output"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
