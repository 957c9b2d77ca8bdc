prop("F05", "Literal text matches itself and nothing else",
  "Pattern text outside regular-expression and substitution blocks matches exactly the same characters of the input, whatever characters it contains; and with the literal-text modifier, block delimiters are ordinary text too.",
  ["inputs", "programs"], "all literal pattern texts (including every character special to the regex engine), in every directive kind and matching strategy, over all inputs",
  "Each matching strategy (substring, multi-substring, compiled regex, regex set, part-by-part) escapes or compares literal text in its own code; tests use letters and spaces.",
  ["filecheck/src/pattern/matcher/", "filecheck/src/pattern/search/", "filecheck/src/parse/lexer/"],
  [("strategy selection and escaping", "filecheck/src/pattern/matcher/matchers/"), ("splitting a pattern line into parts", "filecheck/src/parse/lexer/")],
  ["verdict of a verification run", "reported matches"], MODEL, "literal texts made of regex metacharacters, adjacent to regex blocks, with and without the modifier")
prop("F06", "Variables carry exactly the text they captured",
  "A pattern that defines a variable binds it to the text its part matched, and a later use (in the same pattern or after it) matches exactly the latest such text, character by character; failed attempts bind nothing.\nUsing a variable nothing has defined is an error, a definition on the command line counts as made before the first directive, and with scoped variables each label forgets local variables and keeps the global ones.",
  ["programs", "inputs", "histories"], "all check files defining, redefining and using variables across all directive kinds, over all inputs",
  "Bindings are made inside speculative scopes by four matching strategies and must be undone or kept depending on what matches later; tests use single definitions followed by a single use.",
  FC + ["filecheck/src/env.rs", "filecheck/src/pattern/matcher/matchers/smart/", "filecheck/src/pattern/visitors/"],
  [("scopes saved or dropped with an attempt", "filecheck/src/env.rs:ScopeGuard"), ("binding of captures", "filecheck/src/pattern/matcher/result.rs:bind_captures_in"), ("part-by-part matching", "filecheck/src/pattern/matcher/matchers/smart/searcher.rs")],
  ["verdict of a verification run", "reported matches"], MODEL + " with an environment of variables", "check files that follow the input, redefine variables, use them in every directive kind including unordered groups and exclusions, with and without labels and scoping",
  [("bindings", "values of local, global and command line variables", "filecheck/src/env.rs:Bindings")])
prop("F07", "Numeric expressions are exact and respect their formats",
  "A numeric block matches exactly the texts that denote, in its explicit or implied format (sign, base, case, precision, prefix), a number satisfying its constraint, where the expression is evaluated with mathematical integers; and it binds that number for later blocks.\nAn expression with an undefined variable, without a value (division by zero) or without a common format is an error, never a silent match.",
  ["programs", "inputs", "configurations"], "all numeric formats, expressions, variables and values, including negative ones and those at the limits of machine integers",
  "Value, format and padding combine multiplicatively and interact with where a match may begin and end; tests have a handful of expressions of small positive numbers.",
  FC + ["filecheck/src/expr/", "filecheck/src/pattern/matcher/matchers/smart/", "filecheck/src/parse/grammar.lalrpop"],
  [("expression evaluation", "filecheck/src/pattern/matcher/matchers/smart/searcher.rs:evaluate_expr"), ("formats", "filecheck/src/expr/"), ("expression grammar", "filecheck/src/parse/grammar.lalrpop")],
  ["verdict of a verification run", "reported matches"], MODEL + " with exact integer arithmetic", "expressions constructed so that they equal a number of the input (and off by a little), through variables, functions, parentheses, line numbers and command line definitions, in every format",
  [("bindings", "numbers and formats bound to variables", "filecheck/src/env.rs:Bindings")])
prop("F08", "Options change matching only as documented",
  "Case-insensitive matching accepts exactly what matching after case folding accepts; a blank or tab in literal text matches either, unless strict whitespace is requested, in which case both match themselves only; CRLF and LF line endings of either file are interchangeable.",
  ["configurations", "inputs"], "all option combinations, check files and inputs",
  "Every matching strategy handles each option separately, so option × strategy × input combinations have to be enumerated.",
  ["filecheck/src/lib.rs", "filecheck/src/pattern/", "filecheck/src/parse/", "core/src/text/"],
  [("whitespace canonicalisation of patterns", "filecheck/src/pattern/matcher/matchers/whitespace.rs"), ("case folding per matcher", "filecheck/src/pattern/matcher/matchers/")],
  ["verdict of a verification run", "reported matches"], MODEL + " and metamorphic relations (CRLF vs LF)", "the same generator as F01 with options, tabs and repeated blanks, mixed case")
prop("F09", "Implicit exclusions guard every gap between positive matches",
  "Every pattern excluded through the command line must be absent from every stretch of input between consecutive positive matches, before the first and after the last: the verdict is the one obtained by writing the exclusions explicitly at each of these places of the check file. Each is a pattern of its own; an invalid one is an error.",
  ["configurations", "programs", "inputs"], "all implicit exclusions, check files and inputs",
  "The relation must hold for every layout of labels, groups and other exclusions; tests check one layout.",
  FC + ["filecheck/src/test/mod.rs", "filecheck/src/check/program.rs"], [("insertion of implicit exclusions into the compiled program", "filecheck/src/check/program.rs")],
  ["verdict of a verification run"], MODEL + " applied to the check file with the exclusions written out", "F01–F04 check files with one to four implicit exclusions, some invalid on their own, occurring in some of the gaps")
prop("F10", "Exactly the intended lines are taken as directives",
  "A line of the check file is a directive if and only if it contains a configured check prefix at its start or after white space, followed by an optional known suffix and a colon, and is not commented out; every such directive is executed in order and nothing else is, wherever it stands on its line and whatever surrounds it.",
  ["programs", "configurations"], "all check files, prefix and comment-prefix configurations",
  "Recognition is done by a hand-written scanner over multi-pattern search; missing a directive silently weakens every test that uses it, which passing tests never show.",
  ["filecheck/src/parse/lexer/", "filecheck/src/parse/parser.rs", "filecheck/src/lib.rs"],
  [("prefix search", "filecheck/src/parse/lexer/patterns.rs"), ("directive scanner", "filecheck/src/parse/lexer/mod.rs"), ("unused prefixes", "filecheck/src/test/mod.rs")],
  ["verdict of a verification run", "reported matches", "error for unused prefixes"], MODEL, "near-miss directives, leading text and comment leaders, several prefixes, nested prefixes, comment prefixes")
prop("K01", "The path index agrees with a plain map from paths to values",
  "After any sequence of insertions, updates and clearing, in any order and however each path is spelled, the path index contains exactly the inserted paths with their last value; lookups, nearest-ancestor queries, iteration (in order), listing below a path (to any depth) and listing of files return exactly the corresponding entries.",
  ["histories", "inputs"], "all insertion orders and shapes of paths, existing on disk or not",
  "The index is a compressed tree whose nodes split and merge depending on the insertion order; suites and their configuration are looked up through it.",
  ["core/src/fs/path_tree.rs"], [("node splitting and prefix comparison", "core/src/fs/path_tree.rs")],
  ["results of contains/get/nearest_ancestor/iter/children"], "stateful property-based testing against an ordered map, with shrinking", "random sequences of operations over a small alphabet of path components, spellings with . and .. and trailing slash; all queries compared after each step",
  [("nodes", "compressed tree of path components with their values", "core/src/fs/path_tree.rs:Node")])
prop("K02", "Source positions convert back and forth without loss",
  "For every loaded text and every character position in it, converting the position to line and column and back yields the same position; lines, slices, selections and the context shown around a span are exactly the corresponding parts of the text, and positions outside it are rejected.",
  ["inputs"], "all texts (multi-byte characters, any mix of line endings, empty) and positions",
  "Every diagnostic's location depends on it; tests use ASCII texts.",
  ["core/src/diagnostics/"], [("line index", "core/src/diagnostics/source_file.rs"), ("lookup by file name", "core/src/diagnostics/source_manager.rs")],
  ["results of location queries"], "property-based testing against a direct scan of the text, with shrinking", "random texts with multi-byte characters and every kind of line ending; every position of each text is converted both ways")
prop("K03", "Interned names are equal exactly when their texts are",
  "However and from however many threads names are interned, the text read back is the text interned, two names are equal exactly when their texts are, and they sort like their texts.",
  ["schedules", "inputs"], "all interleavings of threads interning overlapping sets of names",
  "Check and insertion in the shared table must be one step; a race shows only under contention on the same new name.",
  ["core/src/symbol/mod.rs"], [("global table", "core/src/symbol/mod.rs")],
  ["text, equality and order of names"], "stateful concurrent property-based testing: threads released together intern the same new names in random orders", "up to 8 threads started on a barrier, new names in every case, every pair of resulting names compared",
  [("table", "map from text to index and back", "core/src/symbol/mod.rs:Interner")])
prop("K04", "Edits leave a source file consistent with its text",
  "After any sequence of whole or partial replacements of a source file, its content is the edited text and every query by line, column or offset answers as for a newly loaded file with that text; rejected edits change nothing, and references obtained before an edit keep showing the text they were obtained for.",
  ["histories"], "all sequences of edits, including empty ones, ones spanning lines and ones at line ends",
  "The line index is updated incrementally; an error shows only in queries after particular sequences.",
  ["core/src/diagnostics/source_file.rs", "core/src/diagnostics/source_manager.rs"], [("incremental line index", "core/src/diagnostics/source_file.rs:update"), ("copy on write", "core/src/diagnostics/source_manager.rs:update")],
  ["content and results of location queries"], "stateful property-based testing against a string editing model, with shrinking", "random edit sequences over random texts; all queries and all earlier references compared after each edit",
  [("line_starts", "start offset of every line", "core/src/diagnostics/source_file.rs")])
prop("K05", "Line-ending search and range arithmetic agree with a direct scan",
  "Within any part of any buffer, searching for the first or last line ending returns its position and length exactly; ranges behave as the sequence of numbers they denote, compare like pairs, and requested bounds are accepted exactly when they lie within the allowed range.",
  ["inputs"], "all buffers, sub-ranges and bounds",
  "Offsets are relative to sub-ranges in some functions and absolute in others; boundary cases decide whether a match is attributed to the right line.",
  ["core/src/text/mod.rs", "core/src/range.rs"], [("line-ending search", "core/src/text/mod.rs"), ("ranges", "core/src/range.rs")],
  ["returned offsets and ranges"], "property-based testing against a byte-by-byte scan, with shrinking", "random buffers with LF, CRLF, lone CR and multi-byte characters; random sub-ranges and sequences of range operations")
prop("L01", "Feature expressions mean what the grammar says",
  "A feature expression is accepted exactly when it follows the documented grammar, and evaluates according to it (negation binds tighter than conjunction, conjunction tighter than disjunction, parentheses, name patterns with embedded regular expressions) against any set of available features; requirement and exclusion lists report unmet conditions exactly when there are some, and a printed expression reads back with the same meaning.",
  ["inputs", "configurations"], "all expressions and feature sets",
  "A wrong precedence or a pattern applied to the wrong part silently runs or skips tests; the space of expressions is unbounded.",
  ["lit/src/config/expr/boolean.rs", "lit/src/config/features.rs"], [("tokenizer and parser", "lit/src/config/expr/boolean.rs"), ("feature sets", "lit/src/config/features.rs")],
  ["value of an expression", "acceptance", "reported missing features"], "property-based testing against an independent parser and evaluator, print/read round trip, with shrinking", "random expressions with and without parentheses, random white space, single-token mutations; random feature sets")
prop("K06", "A test list is a sequence, however it is consumed",
  "Under any sequence of pushes, pops, cursor moves, insertions, removals, splits and splices the list of tests holds exactly the expected tests in the expected order; iterating it forwards, backwards, or in parallel yields every test exactly once.",
  ["histories", "schedules"], "all sequences of list operations and all ways of splitting the list among workers",
  "The list is intrusive with a separately tracked length and position; parallel iteration splits it at arbitrary points.",
  ["lit/src/test/list.rs"], [("length and cursor position bookkeeping", "lit/src/test/list.rs"), ("splitting for parallel iteration", "lit/src/test/list.rs:Drain")],
  ["contents, order and length"], "stateful property-based testing against a vector, with shrinking", "random operation sequences including cursors at the null element; parallel iteration with random split limits",
  [("len/pos", "tracked length and cursor position", "lit/src/test/list.rs")])
SH = ["lit/src/formats/sh/", "lit/src/utils.rs"]
LB = "property-based testing: generated test suites run with the built binary, with shrinking; "
prop("L02", "Test scripts run their commands in order until one fails",
  "Exactly the commands of a test script are executed, each as written after joining continued lines (blanks at the end of a line are insignificant) and replacing line numbers, in order, up to the first failing one; the test fails if and only if one of them fails. An invalid script executes nothing and is reported as unresolved.",
  ["programs", "inputs"], "all test scripts: comment leaders, continuations, line endings, end markers, noise and invalid directives",
  "A command that is silently not run, or whose status is lost, makes a test pass; the passing test never shows it.",
  SH, [("script parser", "lit/src/formats/sh/script/parser.rs"), ("generated shell program", "lit/src/formats/sh/engine.rs")],
  ["side effects of the commands (a log each appends to)", "reported outcome and line numbers"], LB + "oracle: commands with known effect and status generated together with the script", "up to four scripts per suite, up to six commands each")
prop("L03", "Substitutions expand to exactly their values",
  "In every command, each substitution that is defined at that point (built in, configured, or defined and redefined by the script) is replaced by its value character for character, doubled percent signs become one, in values too, and everything else is left alone; each test has a temporary file of its own. Redefining the undefined or defining twice is an error.",
  ["programs", "configurations"], "all sequences of definitions and uses, values and file names with special characters",
  "Names and values pass through a regex engine, so special characters in either change the command; tests use plain words.",
  SH + ["lit/src/config/substitutions.rs", "lit/src/test/config.rs"], [("scoped substitution sets", "lit/src/config/substitutions.rs"), ("definitions in scripts", "lit/src/formats/sh/script/directives.rs")],
  ["text printed by the commands"], LB + "oracle: expansion computed piece by piece", "values containing $ and regex metacharacters, directory and file names with blanks and $")
prop("L04", "Every test is reported once, with the outcome its result implies",
  "With any number of workers and any selection, every discovered test is run exactly as often as needed (not at all if excluded or unsupported, again only while failing and retries remain) and reported once with the outcome that follows from its conditions and exit status; lists, counts and exit status of the run agree with these outcomes.",
  ["schedules", "configurations", "programs"], "all suites, mixes of outcomes, worker counts and selections",
  "The report is assembled from results of parallel workers; a lost or doubled result, or a failure not reflected in the exit status, turns a red build green.",
  ["litcheck/src/commands/lit.rs", "lit/src/formats/sh/", "lit/src/test/", "lit/src/config/"], [("work queue and result collection", "litcheck/src/commands/lit.rs"), ("retries and expected failures", "lit/src/formats/sh/engine.rs")],
  ["report lines, summary and exit status", "number of executions of each test"], LB + "oracle: decision table per test, report recomputed from it", "up to 80 tests in two suites, all directives, retries, signals, filters, -j1 to -j8",
  [("results", "reports of finished tests by outcome", "litcheck/src/commands/lit.rs:collect_results")])
prop("L05", "Selecting paths selects exactly the tests below them",
  "For any list of files and directories, however spelled and overlapping, lit runs each test below them exactly once, under the nearest enclosing suite: the visible files that match the suite's patterns and no exclusion, and the suites nested below, whatever else, such as broken links, lies around; filters then keep exactly the tests whose name they accept. Listing and running agree.",
  ["inputs", "configurations"], "all directory trees with nested suites, patterns, exclusions, inputs and filters",
  "A test that is not discovered cannot fail; discovery depends on the order and overlap of the inputs through caches.",
  ["lit/src/suite/", "lit/src/test/registry/", "core/src/fs/"], [("suite lookup and caches", "lit/src/suite/registry/default.rs"), ("directory walk", "lit/src/test/registry/default.rs")],
  ["listed and run tests, suite sizes"], LB + "oracle: direct enumeration of the generated tree", "trees of depth three, nested suites with and without a separate source directory, one to four inputs",
  [("config_cache", "suites by directory", "lit/src/suite/registry/default.rs"), ("search_paths", "selected paths of a suite", "lit/src/suite/mod.rs")])
prop("L06", "A test sees the configuration of its directory, however it is selected",
  "The environment, substitutions, features, patterns, exclusions and format that apply to a test are those of its suite overridden, entry by entry, by the local configuration of each directory down to the test; they are the same whether the suite, a directory or the file is selected. Extra search paths come first.",
  ["configurations"], "all nestings of local configuration files and ways to select a test",
  "Configurations are inherited through a cache that is filled in the order of selection.",
  ["lit/src/suite/registry/default.rs", "lit/src/test/config.rs", "lit/src/test/registry/default.rs", "lit/src/utils.rs"], [("inheritance", "lit/src/test/config.rs"), ("local configuration lookup", "lit/src/suite/registry/default.rs")],
  ["text printed by the tests", "outcomes"], LB + "oracle: overlay of the generated configurations", "up to four levels of directories, both formats, several selections per run",
  [("local_config_cache", "configuration by directory", "lit/src/suite/registry/default.rs")])
prop("L07", "A time limit stops tests that exceed it and affects no others",
  "With a time limit, a test that exceeds it is stopped at the limit and reported as timed out, with its output so far, whatever processes it started, and any other test has its usual outcome; however much a test prints, and however large its script is, it does not get stuck.",
  ["schedules", "programs"], "all tests around the limit, process structures and output sizes",
  "Pipes fill up and descendants keep them open; both show only with particular sizes and process trees.",
  ["lit/src/utils.rs", "lit/src/formats/sh/engine.rs"], [("waiting for the child with a limit", "lit/src/utils.rs:wait_with_timeout")],
  ["outcomes", "wall-clock time of the run", "side effects of the tests"], LB + "oracle: outcome by construction, wall clock", "up to eight tests at a time, background processes, output beyond the pipe capacity on either stream")
prop("L08", "not inverts exactly the failures it should",
  "Running a command under not succeeds exactly if the command exits with a non-zero status or, when a crash is expected, is killed by a signal; a command that cannot be run gives a status of its own. The command gets its arguments, input, environment and directory unchanged.",
  ["inputs"], "all exit statuses, signals, argument lists, and nesting",
  "Tests of failing behaviour rely on it; accepting a crash as a failure hides crashes.",
  ["litcheck/src/commands/not.rs", "litcheck/src/main.rs", "lit/src/test/config.rs"], [("status mapping", "litcheck/src/commands/not.rs")],
  ["exit status", "what the command received"], "property-based testing with shrinking: generated commands run under not, directly and from a test script; oracle: the documented status table", "all classes of statuses, ten signals, arguments looking like options, not within not")
prop("F11", "Whatever the files contain, a run ends with a verdict",
  "On any check file, input, options and definitions, however malformed, a run of filecheck ends in bounded time with a pass, a failure or a rejection of the check file; it never crashes, any failure comes with a message, the matches it reports are parts of the files, and running it again gives the same verdict and message.",
  ["inputs", "programs", "configurations"], "all texts of check files and inputs, all definitions and matching options",
  "Malformed files come from typing errors in tests and from broken tools under test, exactly when a clear verdict is needed; the shapes of malformed text are unbounded and each crash needs a particular one.",
  ["filecheck/src/"], [("lexer and parser of check files", "filecheck/src/parse/"), ("matching", "filecheck/src/check/"), ("reports of failures", "filecheck/src/errors/"), ("definitions on the command line", "filecheck/src/expr/")],
  ["end of the run", "verdict", "message", "reported matches"], "structure-aware fuzzing (mutation of generated check files, token soup) with crash, hang and determinism oracles, and shrinking", "mutations of valid check files and inputs by deletions, duplications and 150 tokens including control characters, multi-byte text, unbalanced brackets and huge numbers; every run repeated")
prop("F12", "The exit status of filecheck tells whether the checks passed",
  "Run as a program, filecheck exits with 0 if and only if the checks pass under the given options, with 1 if they fail or its files are unusable, and with 2 if it is misused, whatever name it is called by, wherever the files come from (paths, standard input), and however its options are spelled, ordered and repeated; options in the environment act like options in front of those on the command line, and empty input is rejected unless allowed.",
  ["configurations", "inputs"], "all command lines, environments and sources of the files",
  "The exit status is all a test script sees; an option lost between the command line and the checks silently weakens or breaks every test which relies on it.",
  ["litcheck/src/main.rs", "litcheck/src/commands/filecheck.rs", "filecheck/src/lib.rs", "litcheck/src/commands/not.rs"], [("command names and environment", "litcheck/src/main.rs"), ("options", "filecheck/src/lib.rs:Options"), ("definitions", "filecheck/src/expr/")],
  ["exit status", "presence of a message"], "property-based testing: generated command lines run with the built binary, with shrinking; oracle: exit status by construction for misuse, otherwise differential against the library with the options set directly", "all options in all spellings, shuffled, partly in FILECHECK_OPTS with random quoting; files by path or standard input; 27 kinds of misuse; clashing prefixes; unreadable and non-text files; run under not")
prop("F13", "Malformed directives are always reported",
  "A check file with a malformed directive (unclosed or invalid blocks, invalid names, formats, expressions or counts, missing or superfluous patterns, misplaced relative directives) is rejected, wherever the directive stands and whatever the input, and the message is about that directive; no text around a malformed block makes it valid.",
  ["programs", "inputs"], "all check files with a malformed directive",
  "A typing error which is taken for something valid silently changes what a test checks; the combinations of errors and context are unbounded.",
  ["filecheck/src/parse/", "filecheck/src/ast/pattern.rs"], [("pattern lexer", "filecheck/src/parse/lexer/mod.rs"), ("grammar of blocks", "filecheck/src/parse/grammar.lalrpop"), ("concatenation of blocks", "filecheck/src/ast/pattern.rs")],
  ["rejection of the check file", "location of the message"], "property-based testing: malformed directives inserted into generated valid check files, with shrinking; oracle: rejected by construction", "40 kinds of malformed directives at a random position of a random valid check file, with text and blocks around them")
prop("F14", "The report of a failure is about the checks that failed, and true",
  "When checks fail, the report names a directive which really is not satisfied, with its place in the check file; a match reported as excluded or as being on the wrong line is a match of the directive named, an excluded one lies in the gap it guards, and a region reported as searched without a match is the region in which the directive had to match.\nThe annotated copy of the input shows all of it with every match made before the failure at its place, and is left out if so requested.",
  ["programs", "inputs", "configurations"], "all failing check files and inputs",
  "A report which points at the wrong directive or claims that text is absent which is there misleads whoever has to fix the failure; tests compare verdicts and a few fixed reports.",
  ["filecheck/src/errors.rs", "filecheck/src/test/result.rs", "filecheck/src/check/mod.rs", "filecheck/src/rules/"],
  [("errors of each directive kind", "filecheck/src/rules/"), ("combination of errors of groups", "filecheck/src/check/mod.rs:check_group"), ("searched regions and the annotated input", "filecheck/src/errors.rs")],
  ["places marked in the report, with their captions"], MODEL + "; every statement of the report about a place of a file is checked against the files", "failing check files of all directive kinds; with and without the annotated input")
prop("L09", "The output of a test is shown exactly when asked for, and unaltered",
  "Each executed test has its line in the output unless it did not fail and quiet output was requested; below this line and nowhere else, its standard output, standard error with each command in front of its own output, and exit status are shown in full if requested for all tests, or for failed ones if it failed. What is shown is that of the last attempt, whatever the number of workers.",
  ["configurations", "schedules", "programs"], "all combinations of output options, outcomes, output texts and workers",
  "Workers print at the same time, and the options interact; a report attached to the wrong test, or cut off, misleads whoever reads it.",
  ["litcheck/src/commands/lit.rs", "lit/src/test/result.rs", "lit/src/formats/sh/engine.rs", "lit/src/utils.rs"], [("printing of results", "litcheck/src/commands/lit.rs:TestRunner"), ("layout of a result", "lit/src/test/result.rs"), ("collected output", "lit/src/utils.rs")],
  ["text printed below each test"], LB + "oracle: the text which the generated commands write, with a table of what is shown", "up to six tests, three retries, output beyond the pipe capacity, text which is not valid UTF-8 or does not end its line, commands with backslashes and quotes")
prop("L10", "Features describe the host and the target, and select tests accordingly",
  "The features of the host, the given target (by default the host), and of the suite are available to the conditions of every test and listed for its suite; a target which is not a target is an error. Filters in the environment act like those on the command line, which take precedence.",
  ["configurations"], "all targets, conditions over their features, and filters",
  "Most conditions in tests are about the target; a feature that is missing silently skips tests.",
  ["lit/src/test/config.rs", "lit/src/config/", "litcheck/src/commands/lit.rs"], [("default features", "lit/src/test/config.rs:set_default_features"), ("options", "lit/src/config/mod.rs"), ("listing", "litcheck/src/commands/lit.rs:show_suites")],
  ["outcomes of the tests", "listed features"], LB + "oracle: table of the features of each target", "16 targets, conditions with up to two features, five kinds of invalid targets, filters on the command line and in the environment")
prop("L11", "A run leaves nothing behind and changes nothing but its temporary files",
  "Every test finds its own empty place for temporary files; after running or listing, also if tests fail, are killed or cannot be run, or another suite is broken, these files are gone, the files of the suite are as they were, and nothing else is left but directories that mirror those of the tests in a working directory.",
  ["programs", "configurations"], "all suites, temporary files made by tests, and outcomes",
  "Leftovers of one run are found by the next one, and tests then pass or fail depending on history.",
  ["lit/src/suite/mod.rs", "lit/src/formats/sh/mod.rs", "litcheck/src/commands/lit.rs"], [("temporary directory of a suite", "lit/src/suite/mod.rs:temp_dir"), ("temporary directory of a test", "lit/src/formats/sh/mod.rs")],
  ["files in the suites and the directory for temporary files before and after"], LB + "oracle: snapshots of the directory tree before and after", "one or two suites with default, relative and absolute working directories; files, directories and links; retries, signals, broken suites, listing",
  [("temp_dir", "temporary working directory of a suite", "lit/src/suite/mod.rs")])
prop("K07", "A source refers to the text it was loaded with, and a name to the latest",
  "Every text that was loaded has an identifier of its own under which exactly this text, with the updates made to it since, is found; a name refers to the text loaded last under exactly this name, and loading this text again under it changes nothing.\nHandles obtained earlier keep their text, copies of a registry are independent, and all of this holds when files are loaded concurrently.",
  ["histories", "schedules"], "all histories of loads, updates and copies in several registries, from any number of threads",
  "Check files, inputs, scripts and options of the command line all live in this registry; a name or identifier which refers to another text silently verifies the wrong file.",
  ["core/src/diagnostics/source_manager.rs", "core/src/diagnostics/filename.rs", "core/src/diagnostics/source_file.rs"],
  [("registry", "core/src/diagnostics/source_manager.rs"), ("names", "core/src/diagnostics/filename.rs")],
  ["text, name and identifier of every source after each operation"], "stateful property-based testing against tables, with shrinking", "up to twelve operations on up to three registries; names that look alike but differ in kind, files on disk that are missing, not UTF-8, or have such names; concurrent loads by up to four threads",
  [("uris", "identifier of the latest source of every name", "core/src/diagnostics/source_manager.rs:DefaultSourceManagerImpl")])
prop("K08", "Positions are numbers, spans are ranges, and spanned values are values",
  "Arithmetic on lines, columns and byte positions is that of mathematical integers, refused or clamped at the limits as the operation says; indices and numbers differ by exactly one; a span has the start, end, length and file it was made from, and a value with a span compares, hashes and prints like the value.\nThe part of a file which a span selects is exactly its bytes, limited to the file, and converting it to a place and back yields the same span.",
  ["inputs"], "all numbers up to the limits of machine integers, all texts and spans",
  "These types are used for every position of every match and report; errors at their limits and off-by-one conversions show only with particular values.",
  ["core/src/diagnostics/source_file.rs", "core/src/diagnostics/span.rs", "core/src/diagnostics/location.rs", "core/src/diagnostics/source_manager.rs"],
  [("indices and numbers", "core/src/diagnostics/source_file.rs:declare_dual_number_and_index_type"), ("spans", "core/src/diagnostics/span.rs"), ("places", "core/src/diagnostics/location.rs")],
  ["results of the operations"], "property-based testing against arithmetic on wider integers and slices of the text, with shrinking", "numbers of all magnitudes and at the limits, signed offsets; spans of known and unknown files; all spans of random texts")
prop("K09", "Searching a directory finds exactly the files asked for, and they read exactly",
  "Searching a directory, recursively or not, by predicate, by file type or by pattern, yields every file below it that qualifies exactly once and nothing else, whatever characters its path contains and whichever links are broken or lead back; reading a file yields its text, with line endings normalised if so requested, and a file that is no text is rejected.",
  ["inputs", "programs"], "all directory trees, patterns and file contents",
  "Discovery of tests rests on it; a file which is not found is a test that never runs, and names with special characters are rare in tests.",
  ["core/src/fs/filesearch.rs", "core/src/input.rs"], [("search", "core/src/fs/filesearch.rs"), ("inputs", "core/src/input.rs")],
  ["files found", "texts read"], "property-based testing against the list of files created, with shrinking", "trees of up to eight files and directories with hidden names, blanks, brackets and other characters special to patterns; texts with all line endings")
