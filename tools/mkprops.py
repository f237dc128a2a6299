#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": list(observe), "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

FC = "filecheck/src/"
# ---------------------------------------------------------------- FileCheck
p("C01", "Positive checks accept exactly the inputs that satisfy them in order",
  "A check file made of plain, -NEXT, -SAME and -EMPTY checks is accepted exactly when every check can be matched in turn: a plain check takes the first match after the end of the preceding match, -NEXT must match on the line right after it, -SAME on the rest of the same line, and -EMPTY requires the line after that of the preceding match to exist and be empty. Otherwise verification fails; it never passes an input in which some check has no such match, and never rejects one in which all do. Every match is reported once, in check order, without overlaps.",
  ["inputs", "programs"], "every check file over these directives and every input text",
  "The shipped tests hold a few dozen fixed check/input pairs; acceptance is a relation over all pairs, and the interesting ones (match ends at a line end, empty lines, end of file, repeated text) are rarely among them.",
  [FC+"rules/plain.rs", FC+"rules/next.rs", FC+"rules/same.rs", FC+"rules/empty.rs", FC+"check/mod.rs", FC+"cursor.rs", FC+"check/program.rs"],
  [("rule per directive applied at a cursor that only moves forward", FC+"rules/*.rs"), ("cursor and line arithmetic", FC+"cursor.rs"), ("compilation of check lines to blocks", FC+"check/program.rs")],
  ["Test::verify result and match list", "exit status of `litcheck filecheck`"])
p("C02", "A -NOT pattern is rejected exactly in the region it guards",
  "A -NOT check fails verification exactly when its pattern occurs in the input between the match of the preceding positive check (or the start of the input or block) and the match of the following positive check (or the end of the input or block). Text outside that region never makes it fail, and an occurrence inside it is never overlooked, whichever and however many -NOT checks share the region. A pattern given with --implicit-check-not is forbidden in the same way in all text between, before and after the matches of positive checks (a group of -DAG checks counts as one match that reaches from its first to its last text).",
  ["inputs", "programs"], "every arrangement of -NOT checks among positive checks, every input, and every set of implicit -NOT patterns",
  "Tests place a forbidden text in one or two positions; the guarantee is over all positions relative to both neighbouring matches, including the two boundaries and empty regions.",
  [FC+"rules/not.rs", FC+"check/mod.rs", FC+"check/program.rs", FC+"context.rs"],
  [("bounded search of NOT patterns between two matches", FC+"rules/not.rs"), ("grouping of NOT checks with the following match", FC+"check/program.rs")],
  ["Test::verify result"])
p("C03", "-DAG groups match in any order, and delimit what follows",
  "A run of consecutive -DAG checks is accepted exactly when every check of the run, taken in file order, has a match in the remaining input that does not overlap the text taken by another check of the run; the order of the matches in the input does not matter. Each check takes its first match that overlaps none taken before it; where that leaves a later check of the run without one, another choice is taken if there is one. The check after the run continues after the last text the run matched. A -NOT between two runs separates them: every match of the later run must lie after the earlier run, and the forbidden pattern must not occur between them.",
  ["inputs", "programs"], "every group of -DAG checks, surrounding checks, and every ordering of the matching lines in the input",
  "A group of n lines has n! input orders times the overlaps between patterns; tests use two or three orders.",
  [FC+"rules/dag.rs", FC+"pattern/visitors/static.rs", FC+"pattern/visitors/dynamic.rs", FC+"pattern/search/pattern_set.rs", FC+"check/mod.rs"],
  [("DAG rule and pattern-set visitors", FC+"rules/dag.rs"), ("multi-pattern search", FC+"pattern/search/")],
  ["Test::verify result and match list"])
p("C04", "-LABEL checks split the input into independent blocks",
  "Every -LABEL check matches, in order, at the first occurrence of its text on a line after that of the previous label, before any other check is considered, and verification fails if one is missing. Checks written between two labels only ever match text on the lines between those of the two labels (text before the first label for checks before it, up to the end of input for checks after the last one). A check that fails in one block does not change which text the other blocks see.",
  ["inputs", "programs"], "every division of a check file by labels, and every input",
  "Tests have a handful of labelled files; leakage of a match across a block boundary needs the pattern to occur in a neighbouring block at the right place.",
  [FC+"check/mod.rs", FC+"check/program.rs", FC+"context.rs", FC+"input.rs", FC+"cursor.rs"],
  [("block discovery and bounds", FC+"check/mod.rs"), ("cursor bounds", FC+"cursor.rs")],
  ["Test::verify result and match list", "errors of a failing verification"])
p("C05", "-COUNT-n needs exactly n successive matches",
  "A check -COUNT-n is accepted exactly when n plain checks with the same pattern in its place would be: n non-overlapping matches one after another, after which the following check continues behind the n-th. Fewer than n matches always fail verification, and surplus occurrences never do by themselves. A count that is zero or not a number is rejected as an invalid check file.",
  ["inputs", "programs"], "every n up to the supported maximum, every pattern and every input",
  "Tests try counts of one to three with the exact number present; off-by-one errors show only next to the boundary and with following checks.",
  [FC+"rules/count.rs", FC+"parse/lexer/mod.rs", FC+"ast/directive.rs"],
  [("count rule repeating the match", FC+"rules/count.rs"), ("count parsing", FC+"parse/lexer/mod.rs")],
  ["Test::verify result and match list"])
p("C06", "String variables capture and substitute literally, with correct scope",
  "[[NAME:regex]] binds NAME to exactly the text its regex matched, and a later [[NAME]] matches only that text, character for character, whatever characters it holds; variables given with -D behave alike. The latest binding on the path of successful matches applies, and using an unbound variable is an error, never a match. With --enable-var-scope, variables not starting with $ are forgotten at each -LABEL, and those starting with $ survive.",
  ["inputs", "programs", "histories"], "every sequence of bindings and uses, every captured text including regex metacharacters, with and without variable scoping",
  "Tests capture identifiers such as register names; texts with metacharacters, rebinding, and scope boundaries are not sampled.",
  [FC+"context.rs", FC+"env.rs", FC+"pattern/matcher/matchers/smart/searcher.rs", FC+"pattern/matcher/matchers/smart/builder.rs", "core/src/variables/mod.rs"],
  [("variable environment with scopes", FC+"env.rs"), ("substitution during matching", FC+"pattern/matcher/matchers/smart/searcher.rs"), ("-D parsing", "core/src/variables/mod.rs")],
  ["Test::verify result and captures"])
p("C07", "Numeric variables and expressions match exactly the value they denote",
  "[[#%fmt,NAME:]] matches a number written in the format (unsigned, signed, lower- or upper-case hex, with optional precision and alternate form) and binds its value. [[#expr]] matches exactly the text of the value of the expression, computed with exact integer arithmetic, in the format given or inherited from its operands; [[#NAME: expr]] and [[#NAME: == expr]] match a whole number with that value in that format, and bind it. Any other number is not a match. Overflow, an undefined variable or a value that the format cannot write makes the check fail and never match or crash.",
  ["inputs", "programs"], "every expression over +, -, literals, numeric variables and @LINE, every format, and every number in the input",
  "The tests evaluate a few fixed sums; the claim ranges over all values, formats and boundary magnitudes, and over numbers that nearly match.",
  [FC+"expr/num.rs", FC+"expr/mod.rs", FC+"expr/parser.rs", FC+"pattern/matcher/matchers/smart/operand.rs", FC+"pattern/matcher/matchers/smart/searcher.rs", FC+"ast/pattern.rs"],
  [("number formats and arithmetic", FC+"expr/num.rs"), ("constraint evaluation while matching", FC+"pattern/matcher/matchers/smart/searcher.rs")],
  ["Test::verify result and captures"])
p("C08", "Whitespace, case and full-line options change matching as documented",
  "Without --strict-whitespace, a space or tab in pattern text matches a space or a tab in the input alike, one for one, and blanks around the pattern are ignored; with it, they must agree exactly. With --ignore-case, letters match regardless of case in every kind of check, and otherwise never do. --match-full-lines makes a positive check cover a whole input line.",
  ["inputs", "programs", "configurations"], "every combination of the options, every kind of check, every pattern and input",
  "Each option multiplies every directive and pattern kind; tests sample one directive per option.",
  [FC+"lib.rs", FC+"parse/parser.rs", FC+"ast/pattern.rs", FC+"pattern/matcher/mod.rs", FC+"test/mod.rs", FC+"pattern/matcher/matchers/whitespace.rs"],
  [("canonicalisation of horizontal whitespace", FC+"parse/parser.rs, "+FC+"test/mod.rs"), ("case folding in each matcher", FC+"pattern/matcher/")],
  ["Test::verify result under each option set"])
p("C09", "Only lines with an active check prefix are checks",
  "A line of the check file is a check exactly when it contains one of the configured check prefixes, at the start of the line or after white space, followed by nothing or one known suffix and a colon, and no comment prefix with a colon precedes it on the line in the same way. All other text has no influence on the verdict, and the same checks spelled with another configured prefix, in another position on the line or surrounded by other text give the same verdict. A check file with no check at all is reported as an error, not as a pass (unless implicit forbidden patterns are given), and so are prefixes that are empty or malformed, or both a check and a comment prefix.",
  ["inputs", "configurations"], "every set of check and comment prefixes and every surrounding text",
  "Tests use CHECK and a few alternatives; silently ignoring a check line turns a failing test green and cannot be seen from passing examples.",
  [FC+"parse/lexer/mod.rs", FC+"parse/lexer/patterns.rs", FC+"lib.rs", FC+"ast/directive.rs"],
  [("multi-pattern search for prefixes", FC+"parse/lexer/"), ("prefix validation", FC+"lib.rs")],
  ["Test::verify result; exit status"])
p("C10", "Pattern text matches literally outside {{ }} and as a regex inside",
  "Text of a check outside {{...}} and [[...]] matches only itself, whatever characters it contains; text inside {{...}} is a regular expression that is one unit of the pattern, so alternatives and repetitions in it do not extend to neighbouring text. {LITERAL} makes the whole pattern literal. The text reported as matched is always text the pattern matches, located at the leftmost possible position.",
  ["inputs", "programs"], "every mixture of literal text and regular expressions and every input",
  "There are several specialised matchers (substring, regex, sets, smart); tests exercise each on a few patterns, while equivalence with the meaning of the pattern is over all of them.",
  [FC+"ast/pattern.rs", FC+"parse/parser.rs", FC+"parse/lexer/mod.rs", FC+"pattern/matcher/matchers/"],
  [("lowering of a pattern to a matcher", FC+"pattern/matcher/mod.rs"), ("pattern compaction", FC+"ast/pattern.rs")],
  ["match spans of Test::verify"])
p("C11", "Any check file and input gives a verdict or an error, never a crash",
  "For every check file, input and option set, verification ends within bounded time with a pass or a reported failure; it never panics, hangs or corrupts memory. A malformed check file is reported as an error and never counts as a pass. Rendering the diagnostics of any failure succeeds too.",
  ["inputs", "programs"], "arbitrary, including malformed and adversarial, check files and inputs, valid UTF-8 text or arbitrary bytes",
  "Crashes live in the inputs nobody thought of; the test suite holds only well-formed ones.",
  [FC+"parse/", FC+"pattern/", FC+"check/", FC+"errors.rs", FC+"test/", "litcheck/src/commands/filecheck.rs"],
  [("error types for every parse and match failure", FC+"errors.rs, "+FC+"parse/error.rs")],
  ["process exit status, panics, wall time"])
p("C12", "Verdicts are deterministic and independent of concurrent verifications",
  "Verifying the same check file against the same input with the same options always gives the same verdict, the same matches and the same reported errors. This holds in one process and across processes, in whatever order and however many verifications run before or at the same time on other threads. No shared state of the library leaks between verifications.",
  ["schedules", "histories"], "every interleaving of verifications on any number of threads, and every history of earlier verifications",
  "Tests verify each pair once in a fresh order; hash-order dependence, global interner races and leaked state need repetition and concurrency.",
  [FC+"test/mod.rs", "core/src/symbol/mod.rs", "core/src/diagnostics/source_manager.rs", FC+"context.rs", FC+"env.rs"],
  [("global symbol table behind a lock", "core/src/symbol/mod.rs"), ("shared source manager", "core/src/diagnostics/source_manager.rs")],
  ["Test::verify results across threads and repetitions"])
p("C13", "Line-ending style and a final newline do not change the verdict",
  "Converting the input, the check file or both between LF and CRLF line endings never changes whether verification passes, nor on which lines the checks match. Adding or removing the final newline of the check file never changes the verdict either. A carriage return is never part of a captured or matched text at the end of a line.",
  ["inputs"], "every check file and input, under each of the four line-ending combinations",
  "Only one shipped test uses DOS line endings; the claim is a relation between two runs on arbitrary inputs.",
  [FC+"cursor.rs", FC+"input.rs", FC+"parse/lexer/mod.rs", "core/src/text/newline.rs", FC+"test/mod.rs"],
  [("newline detection on the cursor", FC+"cursor.rs"), ("line terminator stripping in the lexer", FC+"parse/lexer/mod.rs")],
  ["Test::verify results of the variants"])
p("C14", "Failures point at the check that failed and the matches are where they say",
  "When verification fails, the report names the check file, line and column of a check that really fails, and for a forbidden text the place in the input where it occurs; it does not blame a check that is satisfied. When it passes, each reported match carries the location of its check and the exact input range of the matched text. A check file rejected as malformed is reported at the malformed line. All reported ranges lie within the files they refer to, on character boundaries. After the first failure, which of the later checks are reported too is left open.",
  ["inputs", "programs"], "every failing and passing verification",
  "Tests compare a few rendered messages; misattribution appears with several prefixes, blocks, multi-byte text and late failures.",
  [FC+"errors.rs", FC+"check/mod.rs", FC+"test/result.rs", FC+"pattern/matcher/result.rs", "core/src/diagnostics/span.rs"],
  [("spans carried from lexer to errors", FC+"parse/"), ("match info", FC+"pattern/matcher/result.rs")],
  ["diagnostics labels and rendered report"])
p("C15", "The filecheck command's exit status is the verdict",
  "`litcheck filecheck` exits 0 exactly when the check file is valid and verification of the input passes, and non-zero in all other cases: failed checks, missing or unreadable files, invalid options, or an empty input without --allow-empty. The verdict is the same whether the input comes from a file or standard input, and whether an option comes from the command line or from FILECHECK_OPTS. Verbosity and dump options never change the verdict.",
  ["inputs", "configurations"], "every check file, input, option set, and way of supplying them",
  "A tool that exits 0 on a failure makes every test built on it vacuous; tests mostly exercise the library and the passing path.",
  ["litcheck/src/main.rs", "litcheck/src/commands/filecheck.rs", FC+"lib.rs", FC+"test/mod.rs", "core/src/input.rs"],
  [("command entry point", "litcheck/src/commands/filecheck.rs"), ("option parsing and validation", FC+"lib.rs")],
  ["exit status of the built binary"])

# ---------------------------------------------------------------- lit
L = "lit/src/"
p("L01", "Every selected test runs exactly once and is accounted for exactly once",
  "For any set of suites, number of workers, and timing of the tests, each discovered and selected test is executed exactly once, and the run reports exactly one result for it; tests that are not selected are not executed. The per-status counts printed at the end add up to the total number of discovered tests, and each status lists exactly the tests that had it. The number of workers never changes the result of a test or the exit status of the run.",
  ["schedules", "configurations"], "every suite tree, worker count and scheduling of test completion",
  "Tests run small suites once; lost or doubled results depend on the schedule and the number of workers.",
  ["litcheck/src/commands/lit.rs", L+"test/list.rs", L+"suite/registry/default.rs"],
  [("pending queue behind a lock, results over a channel", "litcheck/src/commands/lit.rs"), ("test list and its parallel iterator", L+"test/list.rs")],
  ["execution log written by the tests themselves", "output of `litcheck lit run`"])
p("L02", "The run's verdict reflects what the test commands did",
  "A shell test passes exactly when every one of its RUN commands succeeded, and fails otherwise; a test expected to fail (XFAIL) is reported XFAIL when it fails and XPASS when it passes. A test whose shell is killed by a signal or cannot be started is UNRESOLVED. `lit run` exits 0 exactly when no test has a failing status (FAIL, XPASS, TIMEOUT or UNRESOLVED), and non-zero otherwise, also when no test was selected or a suite is broken. A test without any RUN line is never reported as a pass, and a broken test never keeps the others from being run and reported.",
  ["inputs", "configurations"], "every script, exit code, signal and XFAIL combination",
  "Tests check single cases; the classification is a table over exit codes, signals, pipelines, expectations and aggregate status.",
  [L+"test/result.rs", L+"formats/sh/mod.rs", L+"formats/sh/engine.rs", L+"utils.rs", "litcheck/src/commands/lit.rs"],
  [("exit status to test status", L+"utils.rs"), ("XFAIL handling", L+"formats/sh/mod.rs"), ("exit code of the run", "litcheck/src/commands/lit.rs")],
  ["status lines, counts and exit status of `litcheck lit run`"])
p("L03", "RUN lines are assembled and executed as written, in order",
  "The commands of a test's RUN lines run in file order, each continued line joined to the next, and execution stops at the first failing one; nothing after it runs. Text that is not a directive, wherever it stands, is never executed, nor is anything after an END. line, and the directives are found regardless of the comment style in front of them. %(line), with an optional offset, stands for the number of the line it is on. A malformed script (unterminated or wrongly continued directive, invalid condition, number or definition, or no RUN) is reported as unresolved and no command of it runs.",
  ["inputs", "programs"], "every test file mixing RUN lines, continuations, other directives and ordinary text",
  "Tests parse a few scripts; ordering, joining and stopping depend on arbitrary mixes of lines.",
  [L+"formats/sh/script/parser.rs", L+"formats/sh/script/mod.rs", L+"formats/sh/script/directives.rs", L+"formats/sh/engine.rs", L+"formats/sh/mod.rs"],
  [("script parser", L+"formats/sh/script/parser.rs"), ("command assembly", L+"formats/sh/script/mod.rs")],
  ["log of executed commands", "parsed script of the library API"])
p("L04", "Substitutions expand to their exact values",
  "Before a command runs, every occurrence of a substitution (%s, %S, %t, %basename_t, %% and those that the configuration or the test defines) is replaced by exactly its value, and all other text of the command is unchanged. Substitutions that a test defines are applied first, the newest first, then those of the configuration in the order they are given, then the built-in ones; so values may refer to substitutions which are applied later, and no others. %s is the path of the test file, %S its directory, and %t and %basename_t a file in the temporary directory of the test and its name without extension; these are inserted as they are, whatever characters they have. Names given in the configuration are regular expressions, to whose groups the value may refer. %% stands for one percent sign and never forms a substitution. A DEFINE applies from its line on and only within its test, and a REDEFINE replaces the value from there on. Defining a name twice, redefining an unknown name, or an invalid name make the test unresolved.",
  ["inputs", "configurations"], "every command text, set of substitutions and file path",
  "Tests expand a few fixed names; interplay of prefixes, escapes, special characters and order is over arbitrary sets.",
  [L+"config/substitutions.rs", L+"formats/sh/mod.rs", L+"formats/sh/script/mod.rs", L+"test/config.rs"],
  [("substitution sets and application", L+"config/substitutions.rs"), ("default substitutions", L+"formats/sh/mod.rs")],
  ["commands as executed", "library API of substitution sets"])
p("L05", "REQUIRES, UNSUPPORTED and XFAIL follow the boolean value of their conditions",
  "Feature conditions are evaluated as boolean expressions over the available features, with !, &&, ||, parentheses, {{regex}} matching and the usual precedence. A test runs exactly when all REQUIRES conditions are true and no UNSUPPORTED condition is, and is reported UNSUPPORTED otherwise without executing anything; XFAIL applies exactly when one of its conditions is true. A malformed condition is reported as an error and never silently treated as true or false.",
  ["inputs", "configurations"], "every expression and every set of available features",
  "Truth tables grow exponentially with operators; tests evaluate fixed expressions.",
  [L+"config/expr/boolean.rs", L+"config/features.rs", L+"formats/sh/mod.rs", L+"formats/sh/script/directives.rs"],
  [("boolean expression parser and evaluator", L+"config/expr/boolean.rs"), ("feature tests", L+"config/features.rs")],
  ["library API of boolean expressions; status of the tests"])
p("L06", "Retries happen only after failures and never exceed the allowance",
  "A test with ALLOWED_RETRIES: n is executed until it first succeeds, at most n+1 times, and each execution starts from the beginning of its script. It is reported as a pass if the first execution succeeds, as a flaky pass if a later one does, and as a failure if none does. Without the directive a test is executed once.",
  ["inputs", "histories", "fault_sequences"], "every allowance and every sequence of failing and succeeding executions",
  "Flaky behaviour is a history; tests hold at most one such history.",
  [L+"formats/sh/engine.rs", L+"formats/sh/mod.rs", L+"formats/sh/script/mod.rs"],
  [("retry loop", L+"formats/sh/engine.rs, "+L+"formats/sh/mod.rs")],
  ["execution log of the test and its reported status"])
p("L07", "A test is stopped at its timeout, and only then",
  "With a time limit set, a test still running when it expires is killed, together with the processes it started, and reported TIMEOUT, the run goes on with the other tests, and nothing of the test keeps the run from ending. A test that ends within its limit is reported by its own result, with all of its output, however much it writes; without a limit no test is stopped. TIMEOUT is never retried nor taken for an expected failure. The limit applies to each test separately, at any number of workers.",
  ["schedules", "configurations", "fault_sequences"], "every test duration relative to the limit, output volume and process structure",
  "Timeouts are about timing, blocked pipes and children, which unit tests avoid.",
  [L+"utils.rs", L+"formats/sh/engine.rs", L+"config/mod.rs"],
  [("wait with timeout", L+"utils.rs")],
  ["status, wall time and surviving processes"])
p("L08", "Discovery finds exactly the tests the suites declare, and filters select by name",
  "The tests discovered under a path are exactly the files that match the patterns configured for them and none of the excluded ones, are not hidden, and lie in that suite (not in a nested one, whose tests are its own), each once however the requested paths overlap, named by suite and path relative to the suite's root. Asking for a subdirectory or a single file of a suite selects the same tests, with the same names, as they have in the whole suite. --filter and --filter-out select exactly the tests whose names match or do not match, and show-tests, show-suites and run agree on what exists.",
  ["inputs", "configurations"], "every directory tree, nesting of suites, set of patterns, requested paths and filters",
  "A test that is silently not discovered looks like a pass; trees and path combinations are unbounded.",
  [L+"suite/registry/default.rs", L+"test/registry/default.rs", L+"suite/mod.rs", "core/src/fs/", L+"config/mod.rs"],
  [("suite registry", L+"suite/registry/default.rs"), ("test registry", L+"test/registry/default.rs"), ("glob expansion", "core/src/fs/glob.rs")],
  ["show-tests, show-suites and run output"])
p("L09", "Configuration applies from the suite inwards and only to its own subtree",
  "A test's configuration is its suite's, refined by the local configuration files (lit.local.toml) of the directories from the suite's root down to that of the test, nearest last, however the test was selected: environment variables, substitutions and features are added, the nearest value winning, while patterns, exclusions and the format replace those inherited. Command line settings apply to all. Settings of one directory or suite never affect a test outside it. show-suites and show-tests tell the settings there are. An invalid configuration file is an error, not silently ignored.",
  ["configurations"], "every tree of suite and local configuration files",
  "Inheritance is a function of the whole tree; tests cover one or two levels.",
  [L+"test/config.rs", L+"suite/mod.rs", L+"suite/registry/default.rs", "core/src/fs/path_tree.rs"],
  [("config inheritance", L+"test/config.rs"), ("lookup of local configs", L+"suite/registry/default.rs, core/src/fs/path_tree.rs")],
  ["environment, features and substitutions that tests see"])
p("L10", "Concurrent tests are isolated from each other",
  "Each test runs with its own temporary path, the environment variables and working directory configured for it, an empty standard input, and its own captured output: no test sees a variable, temporary file or output that belongs to another one, no matter how many run at the same time. Two tests never get the same %t. Output shown for a failing test is the output of that test, complete and unmixed.",
  ["schedules", "configurations"], "every set of concurrently running tests and worker count",
  "Cross-talk needs concurrent tests with colliding names and timing.",
  [L+"formats/sh/mod.rs", L+"formats/sh/engine.rs", L+"utils.rs", "litcheck/src/commands/lit.rs"],
  [("temp dir per test", L+"formats/sh/mod.rs"), ("environment of the child process", L+"utils.rs")],
  ["values logged by the tests themselves; rendered failures"])
p("L11", "not inverts the exit status of the command it runs, and nothing else",
  "`litcheck not CMD ARGS` (also as NOT, or through a link of either name) exits 0 exactly when CMD ran and ended by itself with a non-zero status, and 1 when CMD succeeded or was killed by a signal; with --crash first, it exits 0 exactly when CMD was killed by a signal, and 1 otherwise. A command that cannot be run gives 127 if it does not exist and 126 otherwise, with a message, never 0. CMD gets exactly the arguments given (options after it included), and the input, output, environment and working directory of `not`.",
  ["inputs", "configurations"], "every command, way of ending (all exit codes and signals), argument list and name of the tool",
  "Tests invert `true` and `false`; a confused crash, exit code or missing command makes a negative test pass vacuously.",
  ["litcheck/src/commands/not.rs", "litcheck/src/main.rs"],
  [("mapping of the exit status", "litcheck/src/commands/not.rs"), ("multicall dispatch", "litcheck/src/main.rs")],
  ["exit status of the built binary; what the command itself logged"])
p("L12", "How the tool is invoked does not change what it does",
  "litcheck is one program under several names: `litcheck lit`, a link named `lit`, and likewise filecheck (FileCheck, check) and not (NOT), do the same. Options of `lit run` mean the same before, between and after the paths, and as long or short options; tracing (LITCHECK_TRACE) and terminal settings do not change which tests run, their results, or the exit status. `run` is the default command of lit, as its help says. An invalid command line (unknown command or option, missing or invalid value) is refused with status 2 and a message, and nothing is executed; a request for help or the version never runs a test.",
  ["inputs", "configurations"], "every name, order and spelling of a valid command line, and every invalid one",
  "Tests use one spelling through the library; the multicall dispatch and argument parsing are only exercised by users.",
  ["litcheck/src/main.rs", "litcheck/src/commands.rs", "litcheck/src/commands/lit.rs", "lit/src/config/mod.rs"],
  [("multicall dispatch", "litcheck/src/main.rs"), ("command line definition", "lit/src/config/mod.rs")],
  ["exit status, reports and executions of the built binary"])
p("L13", "Any suite, configuration and test file gives a report, never a crash",
  "Whatever bytes the configuration files, the names of files and directories, the test scripts, the output of the tests and the arguments and environment of the tool consist of, `litcheck lit run` ends by itself with one of its statuses (0 success, 1 failure or error, 2 usage error, 100 no suites), never with a panic, abort or hang. A configuration that is not valid is refused with a message, and no test is executed. A test script that is not valid makes that test unresolved, with the reason, and has no influence on other tests: every selected test is reported exactly once, with its own result. Output of tests that is not UTF-8, very long, or written to closed streams does not change results.",
  ["inputs", "configurations"], "every content of configuration files and test scripts, every file name, output of tests, argument and environment variable",
  "Tests use well-formed suites with short ASCII scripts; a crash on one odd file takes the results of all other tests with it.",
  [L+"config/mod.rs", L+"config/expr/", L+"suite/", L+"formats/sh/", L+"formats/executable.rs", "core/src/reporting.rs"],
  [("lexer and parser of test scripts", L+"formats/sh/script/"), ("deserialization of suite configuration", L+"config/mod.rs, "+L+"suite/mod.rs"), ("rendering of reports", "core/src/reporting.rs")],
  ["exit status, output and executions of the built binary; results of the script and configuration parsers"])
# ---------------------------------------------------------------- core
C = "core/src/"
p("C16", "The input and the remarks shown with a verification are true",
  "What a failing verification shows of the input is true: each annotated match is the match of the check it names, every match made before the failure is annotated, a region said to have been searched without a match starts where the search of that check starts and contains no match of it, counts of lines and of failed and matched checks are right, and a match said to be on a wrong line is where it is said to be. --dump-input only decides what of this is shown, never the verdict or what is blamed. With -v a remark is printed for every check that matched, naming its place in the check file, and for no other; without -v there are none.",
  ["inputs", "programs", "options"], "every verification and every --dump-input mode and verbosity",
  "The report is assembled from many searches; tests compare a few rendered failures.",
  [FC+"check/mod.rs", FC+"errors.rs", FC+"test/result.rs", FC+"config.rs"],
  [("input dump and searched regions", FC+"errors.rs"), ("remarks", FC+"check/mod.rs")],
  ["labels of the diagnostics", "standard error of litcheck filecheck"])
p("L14", "What lit tells of each test is accurate and complete",
  "A failing test is always reported, any other unless -q is given; with -v the details of failing tests follow, with -a those of all tests. The details of a test that was run show, for the attempt which decided its result, each command that was executed, in order, exactly as executed after substitution and with the line of its RUN directive, none that was not executed, all that it wrote to each stream, and its exit code; the details of a test that was stopped say so with the time limit. Those of an unsupported test name the features that are missing or unsupported and no others, and those of a malformed one name its file and the line of the mistake. The percentages of the summary follow from the counts.",
  ["inputs", "options", "schedules"], "every suite of tests, every combination of output options and any number of workers",
  "Nothing in the tests looks at the printed details, which depend on text, shell, end and schedule.",
  ["litcheck/src/commands/lit.rs", L+"test/result.rs", L+"formats/sh/engine.rs", L+"formats/sh/mod.rs", L+"formats/executable.rs", L+"config/features.rs", L+"utils.rs"],
  [("result lines and details", "litcheck/src/commands/lit.rs"), ("script that echoes its commands", L+"formats/sh/engine.rs"), ("captured output", L+"utils.rs")],
  ["standard output of lit run"])
p("K01", "Locations and byte offsets of a source file correspond one to one",
  "For every text, each byte offset maps to the line and column a reader would count, and back to the same offset; the lines partition the text without gaps or overlaps. Slices taken by span or by line are exactly the bytes of the text they denote, and requests outside the text or off a character boundary are refused, not answered wrongly or with a crash. After any sequence of edits, all of this holds for the edited text, as if it had been loaded afresh.",
  ["inputs", "histories"], "every text, including multi-byte characters and mixed line endings, every offset, and every sequence of edits",
  "Tests use a few ASCII files; offsets are exhaustive over arbitrary Unicode and edit histories.",
  [C+"diagnostics/source_file.rs", C+"diagnostics/span.rs", C+"diagnostics/location.rs", C+"diagnostics/selection.rs"],
  [("line start table kept with the content", C+"diagnostics/source_file.rs")],
  ["SourceFile and SourceContent API"])
p("K02", "The source manager never loses, mixes up or duplicates files",
  "A file loaded under a name is found again by id and by name, with exactly its own content, and loading the same name with the content it currently has again gives the same id; different content never shares one id. Ids stay valid and unambiguous whatever other loads happen, also from several threads. Requests for unknown files or ranges report absence instead of another file's data.",
  ["schedules", "histories"], "every interleaving of loads, lookups and updates on any number of threads",
  "Tests load one or two files on one thread.",
  [C+"diagnostics/source_manager.rs"],
  [("locked tables from id and name to file", C+"diagnostics/source_manager.rs")],
  ["SourceManager API"])
p("K03", "The path prefix tree agrees with a map from paths to values",
  "After any sequence of insertions, replacements and clears, lookup returns exactly the value last stored for the path, nearest-ancestor lookup returns the value of the longest stored directory whose path is a proper component-wise prefix, and iteration yields every stored entry once and nothing else. Clones are independent of the original. Paths are compared by component, so a path never counts as an ancestor merely because its text is a prefix.",
  ["histories", "inputs"], "every sequence of operations over arbitrary paths",
  "Splits and merges of tree nodes depend on the history of operations; tests run a few fixed ones.",
  [C+"fs/path_tree.rs"],
  [("compressed prefix tree", C+"fs/path_tree.rs")],
  ["PathPrefixTree API"])
p("K04", "Interned symbols are equal exactly when their texts are",
  "Interning a text always gives a symbol whose text is exactly that text, and two symbols are equal exactly when their texts are, no matter on which thread or in what order they were interned. Comparison and hashing agree with equality, and a symbol's text stays valid for the life of the process. Concurrent interning never deadlocks, loses or duplicates a symbol.",
  ["schedules", "inputs"], "every set of texts interned concurrently by any number of threads",
  "Tests intern on one thread; the table is global and uses unsafe lifetime extension.",
  [C+"symbol/mod.rs", "core/build.rs"],
  [("global table behind a lock", C+"symbol/mod.rs")],
  ["Symbol API under threads, ThreadSanitizer and Miri"])
p("K05", "The unsafe code is free of undefined behaviour and data races",
  "No use of the public library functions executes undefined behaviour: out-of-bounds or dangling access, invalid values, aliasing violations, leaks of freed memory or data races. This covers the symbol table, the path tree, the source spans, the numeric types and the linked test list and its cursors and parallel iteration. It holds for every sequence of calls and every thread interleaving.",
  ["histories", "schedules", "inputs"], "every call sequence on the components with unsafe code, under every thread interleaving",
  "Undefined behaviour is usually invisible to an ordinary test run; it takes an interpreter or sanitizer to observe it.",
  [C+"symbol/mod.rs", C+"fs/path_tree.rs", L+"test/list.rs", C+"diagnostics/source_manager.rs", C+"text/mod.rs", FC+"expr/num.rs"],
  [("unsafe blocks", "core/src, lit/src/test/list.rs, filecheck/src")],
  ["Miri and ThreadSanitizer reports"])
p("K06", "Test lists keep every test, in order, under all list operations",
  "After any sequence of pushes, pops, insertions, removals, splits and splices, a test list holds exactly the tests put in and not taken out, in the order the operations imply, and its length agrees. Iterating it forwards, backwards, from both ends or in parallel yields each test exactly once. No operation loses, duplicates or frees a test still in use.",
  ["histories", "schedules"], "every sequence of list and cursor operations and every parallel splitting",
  "The repository has no test of these operations as sequences; a wrong length or lost half shows up as a test that silently never runs.",
  [L+"test/list.rs"],
  [("intrusive list with cursors", L+"test/list.rs"), ("parallel drain", L+"test/list.rs")],
  ["TestList API"])
p("K07", "Range and newline utilities agree with their definitions",
  "Intersection, containment, splitting and overlap of ranges agree with the sets of positions the ranges denote, for all bounds including empty and unbounded ones. Newline searches find exactly the positions of line terminators in the given text, and end-of-line tests agree with them. No input makes these functions panic unless their documentation says so.",
  ["inputs"], "every pair of ranges and every byte string",
  "They are definitions over all integers and byte strings; tests check a few points.",
  [C+"range.rs", C+"text/mod.rs", C+"text/newline.rs"],
  [("range arithmetic", C+"range.rs"), ("newline scanning", C+"text/newline.rs")],
  ["Range and newline API"])
p("K08", "Inputs are found and read as they are; definitions are read as written",
  "Searching a directory for inputs, by glob pattern or by file type, yields each file below it that matches, once, and nothing else. Reading an input yields exactly its text, with line ends canonicalised only where asked for, and refuses a file that is not UTF-8 or missing; the source loaded from it has the same text and the name of the file, and can be looked up again. A NAME or NAME=VALUE definition is accepted exactly if the name is valid, and name, kind and value are those written.",
  ["inputs"], "every directory tree, file content and definition",
  "The tests never search a directory and read only well-formed files.",
  [C+"input.rs", C+"variables/mod.rs", C+"fs/mod.rs"],
  [("directory walk and reading", C+"input.rs"), ("variable parsing", C+"variables/mod.rs")],
  ["Input and Variable API"])
if __name__ == "__main__":
    with open(OUT, "w") as f:
        for r in P:
            f.write(json.dumps(r, ensure_ascii=False) + "\n")
    print(len(P), "properties")
