#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
I = "packages/swc-coverage-instrument/src/"
O = "packages/istanbul-oxide/src/"
P = "packages/swc-plugin-coverage/src/lib.rs"
VIS, CH, SH, FL = I+"macros/instrumentation_visitor.rs", I+"macros/instrumentation_counter_helper.rs", I+"macros/instrumentation_stmt_counter_helper.rs", I+"macros/visit_mut_for_like.rs"
CV, LV, SV, HC = I+"visitors/coverage_visitor.rs", I+"visitors/logical_expr_visitor.rs", I+"visitors/switch_case_visitor.rs", I+"utils/hint_comments.rs"
NOV = "The 31 Rust unit tests never run a visitor over a program; the YAML fixtures (not runnable here) sample about 150 hand-written programs, one feature at a time, with one input each. "
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook))
props = [
 p("C01", "Instrumentation preserves program behaviour",
   "For every valid JavaScript script or module, running the instrumented output produces the same sequence of observable effects, the same values and the same completion (normal, or the same thrown value) as running the original. Each expression of the original is still evaluated the same number of times, in the same order, and control still transfers to the same place on break, continue, return and throw. Effects of reflection on source text, inferred function names, timing and the added coverage variable itself are outside the claim.",
   ["programs","inputs","configurations"], "every program over the modelled language, every sequence of run-time decisions it may take, script or module, reportLogic on or off",
   NOV+"Equivalence must hold for every nesting of constructs and every path through them.",
   [VIS,CH,SH,FL,CV,LV,SV,I+"instrument/create_increase_true_expr.rs"],
   [("counter insertion before statements / as sequence expressions",CH),("block wrapping of loop and if bodies",FL),("true-counter temp variable",I+"instrument/create_increase_true_expr.rs")],
   observe=["effect log and completion of original and instrumented program under node"]),
 p("C02", "Statement counters are complete and exact",
   "Every executable statement outside an ignored region, and every variable or class-field initialiser that contains no function or class, owns exactly one entry in statementMap whose range is its source range, and after any run the entry's hit count equals the number of times execution reached it. An initialiser of a local variable that contains a function with a block body owns exactly one entry too, counted each time the enclosing statement is reached; so does a tagged template. Nothing else owns a statement entry, except a module-level `export const`, which owns one.",
   ["programs","inputs","configurations"], "every program over the modelled language x every decision sequence; ranges for every layout",
   NOV+"Exactness is a claim about all nestings (a hoisted counter landing in the wrong block is right for one-iteration samples).",
   [VIS,CH,SH,FL,CV,I+"utils/lookup_range.rs",I+"source_coverage/mod.rs"],
   [("mark_prepend_stmt_counter / before queue",CH),("insert_stmts_counter",SH),("cover_statement",CH)],
   [("statementMap / s","range and hit count per statement id",I+"source_coverage/mod.rs")],["coverage object after the run vs the specification's machine"]),
 p("C03", "Function counters are complete and exact",
   "Every function declaration, function expression, arrow function, class method and object method, getter or setter outside an ignored region owns exactly one fnMap entry carrying its name (or `(anonymous_N)`, or `anonymous` for a method whose key is not an identifier), its declaration range and its body range. After any run, its hit count equals the number of times the function body was entered. Constructors and private methods own no entry, and nothing else does.",
   ["programs","inputs","configurations"], "every program over the modelled language x every decision sequence",
   NOV+"Functions nested in each expression position must all be found exactly once.",
   [VIS,CH,I+"source_coverage/mod.rs"],[("create_fn_instrumentation",CH),("visit_mut_arrow_expr, visit_mut_*_prop",VIS)],
   [("fnMap / f","metadata and hits per function id",I+"source_coverage/mod.rs")],["coverage object after the run vs the specification's machine"]),
 p("C04", "Branch counters are complete and exact",
   "Every if, conditional expression, switch with cases, default value (of a parameter or a destructuring pattern, `name = value`) and maximal chain of logical operators (`&&`, `||`, `??`; parentheses do not end a chain) outside an ignored region owns exactly one branchMap entry of its type, with its range, and one location per alternative in source order (both alternatives of an if, implicit else included, carry the range of the if). After any run, the hit count of each alternative equals the number of times that alternative was taken: its arm executed, its case body entered (by match or by fall-through), its default value or operand evaluated.",
   ["programs","inputs","configurations"], "every program over the modelled language x every decision sequence",
   NOV+"Branch exactness depends on how logical chains, parentheses and function bodies nest.",
   [VIS,CH,LV,SV,I+"visitors/finders.rs",I+"source_coverage/mod.rs"],[("wrap_bin_expr_with_branch_counter",CH),("visit_mut_if_stmt, visit_mut_cond_expr, visit_mut_switch_stmt, visit_mut_assign_pat",VIS),("freeze",I+"source_coverage/mod.rs")],
   [("branchMap / b","locations and hits per branch id",I+"source_coverage/mod.rs")],["coverage object after the run vs the specification's machine"]),
 p("C05", "reportLogic counts non-trivially-true operand values",
   "With reportLogic on, every logical-operator branch also owns a bT entry with one counter per operand, and after any run each counter equals the number of times that operand was evaluated to a value that is truthy and is neither an empty array nor an empty plain object. Every operand is still evaluated at most as often as in the original and its value is passed on unchanged. With reportLogic off there is no bT.",
   ["programs","inputs","configurations"], "every logical expression over the modelled language x every sequence of operand values (truthy, falsy, nullish, empty and non-empty arrays and objects, other prototypes)",
   NOV+"truthy.yaml samples single operands.",
   [CH,I+"instrument/create_increase_true_expr.rs",I+"source_coverage/mod.rs"],[("create_increase_true_expr",I+"instrument/create_increase_true_expr.rs"),("maybe_new_branch_true / maybe_add_branch_true",I+"source_coverage/mod.rs")],
   [("bT","true hits per logical operand",I+"source_coverage/mod.rs")],["bT after the run vs the specification's machine"]),
 p("C06", "Coverage object and emitted counters agree",
   "In every instrumented output, statementMap and s, fnMap and f, branchMap and b (and bT) have the same keys, each branch has as many counters as locations, all counters start at zero, and ranges lie within the source with start before end. Every registered counter has exactly one place in the emitted code that increments it and every increment in the code refers to a registered counter.",
   ["programs","configurations"], "every program over the modelled language, JSX and TypeScript samples, every option setting",
   NOV+"A counter registered but never emitted shows up only as a permanently uncovered line.",
   [CH,VIS,SV,CV,I+"source_coverage/mod.rs",I+"coverage_template/create_coverage_data_object.rs"],[("SourceCoverage::new_statement/new_function/new_branch/add_branch_path/freeze",I+"source_coverage/mod.rs"),("before queue hand-over between visitors",SH)],
   observe=["emitted code and embedded coverage object"]),
 p("C07", "Ignore hints remove exactly the hinted region",
   "A comment `istanbul ignore next` in front of a statement, declaration, class member, conditional arm or logical operand removes the counters of that node and everything inside it and of nothing else; `ignore if` and `ignore else` in front of an if remove exactly that alternative's branch location and everything inside it. Comments that merely mention the words (other prefix, other word, missing separator) change nothing. The remaining counters stay exact and the program behaves as without the comment.",
   ["programs","inputs"], "every program over the modelled language with hints at every admissible position, including nested and sibling hints",
   NOV+"Scope leaks depend on what follows or surrounds the hinted node.",
   [HC,I+"macros/create_instrumentation_visitor.rs",VIS,CH,SH,CV],[("should_ignore / lookup_hint_comments",HC),("on_enter / on_exit save and restore",I+"macros/create_instrumentation_visitor.rs")],
   [("should_ignore","current ignore scope of a visitor",I+"macros/create_instrumentation_visitor.rs")],["coverage object and code"]),
 p("C08", "Ignore-file hint leaves the file untouched",
   "A file with an `istanbul ignore file` comment in front of or after its whole program is returned unchanged, with no coverage function, no counters and no registration; a file without one, or with the comment elsewhere or malformed, is instrumented. The decision does not depend on options.",
   ["programs","configurations"], "every placement and spelling of the comment x script or module x program bodies",
   NOV+"No unit test touches should_ignore_file.",
   [HC,CV],[("should_ignore_file",HC),("visit_mut_program",CV)],observe=["emitted code"]),
 p("C09", "ignoreClassMethods excludes exactly the named methods",
   "For every list of names, class methods, object methods, getters, setters and named function expressions whose identifier is in the list carry no counters for themselves or anything inside them; every other function, including those with a similar name, is counted as without the option.",
   ["programs","configurations","inputs"], "every program over the modelled language x every list of method names",
   NOV+"The option has fixtures for two class shapes only.",
   [VIS],[("ignore_class_methods checks",VIS)],observe=["coverage object and code"]),
 p("C10", "Coverage is registered and kept per path at run time",
   "From the first counter of an instrumented file on, the global object holds, under the configured coverage variable and the file's path, a coverage object with that file's data, and every later counter increment of that file goes to it. Loading other files, in any order, neither creates nor changes entries of a path that is not their own; loading a file whose coverage data differs replaces the entry of its path, and loading the same file again keeps the hits it had.",
   ["histories","programs"], "every history of transforms, loads, re-loads, edits and global-object resets over several files and coverage variables",
   "Needs histories of several files in one realm; the unit tests contain none and the fixtures each run a single file once.",
   [I+"coverage_template/create_coverage_fn_decl.rs",I+"coverage_template/create_global_stmt_template.rs",CV],[("coverage function template",I+"coverage_template/create_coverage_fn_decl.rs")],
   [("global[coverageVariable][path]","run-time registry",I+"coverage_template/create_coverage_fn_decl.rs")],["global object under node"]),
 p("C11", "A transform does not depend on earlier transforms",
   "The output of instrumenting a file is a function of its source, name and options only: it is the same whatever was instrumented before it in the same process, on any thread and however often. Files with different names get counter functions with different names, so that files concatenated into one scope do not share counters.",
   ["histories","schedules"], "every sequence of transforms in one process and over threads",
   "Process-global state shows only when several files are transformed by one process; every existing test transforms at most one.",
   [I+"coverage_template/create_coverage_fn_decl.rs",I+"macros/create_instrumentation_visitor.rs",I+"constants/idents.rs"],[("coverage function identifier",I+"coverage_template/create_coverage_fn_decl.rs")],
   [("coverage function identifier","name of the per-file counter function",I+"coverage_template/create_coverage_fn_decl.rs")],["emitted code of every transform of a history"]),
 p("C12", "The embedded coverage data is the file's data, verbatim",
   "The initial coverage object that the emitted code registers equals, field by field, the coverage data of the file: path, maps, zero counters and the given input source map, for every string content (quotes, backslashes, line breaks, non-ASCII). The debug comment, when asked for, carries the same data as JSON. The hash changes whenever that data changes and is equal for equal data.",
   ["inputs","programs","configurations"], "every path, function name, source-map content and program",
   "The unit tests print one object with plain ASCII strings.",
   [I+"coverage_template/create_coverage_data_object.rs",I+"coverage_template/create_coverage_fn_decl.rs"],[("create_coverage_data_object",I+"coverage_template/create_coverage_data_object.rs")],observe=["registered coverage object under node vs debug comment"]),
 p("C13", "Options: defaults, names and independence",
   "An option object is read from its camelCase JSON form; every absent option takes its documented default independently of which others are present, unknown keys are ignored, and a malformed object makes the plugin fall back to all defaults rather than fail. Each option changes only what it names.",
   ["configurations"], "every subset of option keys x valid and invalid values",
   "No unit test deserialises an option object.",
   [I+"options/instrument_options.rs",P],[("InstrumentOptions serde defaults",I+"options/instrument_options.rs"),("process",P)],observe=["deserialised options; plugin output"]),
 p("C14", "Merging file coverage adds hits per source location",
   "A coverage is well-formed when its map keys and counter keys agree, every branch has a location, and the ranges of its statements, of its function bodies and of its branches' first locations are each distinct. After merging well-formed file coverage B into A, the result lists each statement, function body and branch location of A or B exactly once (A's first, in order, then B's new ones), its counts are the sums of the counts A and B had for that location (missing alternatives counting zero), and map keys and counter keys agree; bT is kept, keyed by the merged branches, when A tracks it. Placeholder coverage contributes nothing: merging it changes nothing, and merging into it yields B. Merging is insensitive to how either side numbers its entries.",
   ["inputs","histories"], "every pair and every sequence of well-formed file coverages",
   "Three hand-written pairs with matching numbering; associativity, order and the bT numbering are never exercised.",
   [O+"file_coverage.rs"],[("FileCoverage::merge, merge_properties, merge_properties_hits_vec",O+"file_coverage.rs")],
   [("FileCoverage","maps and counters of a file",O+"file_coverage.rs")],["public fields after each operation"]),
 p("C15", "Coverage maps hold one entry per path",
   "A coverage map built from or merged with any sequence of file coverages has exactly one entry per distinct path, in order of first appearance, equal to the merge of that path's coverages in the order given; other paths are not affected. Filtering keeps exactly the entries the predicate accepts, unchanged and in order, and never alters the operands it read from.",
   ["histories","inputs"], "every sequence of add, merge, filter and lookup over several maps",
   "Two fixed call sequences in the unit tests.",
   [O+"coverage_map.rs"],[("CoverageMap",O+"coverage_map.rs")],[("CoverageMap.inner","path to coverage",O+"coverage_map.rs")],["get_files / get_coverage_for_file after each operation"]),
 p("C16", "Summaries count and add up correctly",
   "The summary of a file reports, for lines, statements, functions, branches and (when tracked) true branches, the number of entries, the number of those hit at least once, and the percentage truncated to two decimals (100 for none; unknown for a map without files); 100 % is reported only if everything is covered. The summary of a map is the sum over its files with percentages recomputed, whatever the order of the files.",
   ["inputs","histories"], "every well-formed coverage, every sequence of summaries merged, counts up to the supported range",
   "Unit tests check one or two figures; the rounding claim ranges over all pairs of counts.",
   [O+"file_coverage.rs",O+"coverage_summary.rs",O+"percent.rs",O+"coverage_map.rs"],[("to_summary, compute_*_totals",O+"file_coverage.rs"),("CoverageSummary::merge",O+"coverage_summary.rs"),("percent",O+"percent.rs")],observe=["summary fields via the public totals"],hook="read access to the summary's fields"),
 p("C17", "Line views follow from statements and branches",
   "Line coverage maps each line on which a statement starts to the largest hit count of the statements starting there; uncovered lines are exactly those with zero. Branch coverage by line gives, for each line that carries branches, the number of alternatives taken, their total and the percentage, over all branches of that line.",
   ["inputs"], "every well-formed coverage",
   "One example each in the unit tests.",
   [O+"file_coverage.rs"],[("get_line_coverage, get_uncovered_lines, get_branch_coverage_by_line",O+"file_coverage.rs")],observe=["returned maps"]),
 p("C18", "Resetting hits clears counts and nothing else",
   "After resetting hits every counter of the file coverage (statements, functions, each branch alternative, each true counter) is zero and the maps, path, flags, numbering and source map are unchanged; merging a reset coverage of the same file adds nothing.",
   ["inputs","histories"], "every well-formed coverage and every history of merges and resets",
   "One example in the unit tests.",
   [O+"file_coverage.rs"],[("reset_hits",O+"file_coverage.rs")],observe=["public fields after each operation"]),
 p("C19", "unstableExclude skips exactly the matching files",
   "A file is left untouched by the plugin exactly when its name matches one of the exclude patterns, where `**` spans any number of path components, `*` stays within one, and backslash and slash separators are equivalent in names and patterns. If any pattern is not a valid glob the option is ignored and the file is instrumented.",
   ["configurations","inputs"], "every file name and every list of patterns over the modelled alphabet, with either separator",
   "Unit tests cover the path normalising helper on five strings; matching is never tested.",
   [P],[("normalize_path, process",P)],observe=["whether the plugin output carries counters"]),
 p("C20", "Instrumentation never fails on a valid program",
   "For every program the parser accepts (JavaScript, JSX, and TypeScript before or after type stripping, function signatures without a body included) and every option setting, instrumentation finishes without panicking and its output is again a valid program.",
   ["programs","configurations"], "every program over the modelled language plus TypeScript and JSX forms",
   NOV+"A panic needs the one unusual node kind.",
   [VIS,CH,CV,I+"source_coverage/mod.rs"],[("explicit unimplemented!/expect/unwrap sites",CH)],observe=["completion of the transform; re-parse of the output"]),
 p("C21", "Coverage JSON round-trips and uses the istanbul names",
   "Serialising any file coverage to JSON and reading it back gives an equal value; the JSON uses the istanbul field names and branch type names, omits bT and inputSourceMap when absent, and JSON written by istanbul without the optional fields is accepted. Key order (the numbering of entries) is preserved.",
   ["inputs"], "every well-formed coverage",
   "The unit tests never serialise a coverage.",
   [O+"file_coverage.rs",O+"types.rs",O+"range.rs",O+"source_map.rs"],[("serde derives",O+"file_coverage.rs")],observe=["JSON text and re-read value"]),
 p("C22", "Directives and module structure survive instrumentation",
   "A directive prologue stays a prologue: code that runs in strict mode before instrumentation runs in strict mode after it, code that does not still does not, in scripts, modules and function bodies. Imports and exports of a module are unchanged: the same bindings are exported with the same values and imported modules are still evaluated first.",
   ["programs"], "every program over the modelled language with directives and module declarations in every admissible position",
   NOV+"The one fixture about strict mode is skipped.",
   [CV,VIS,CH],[("visit_mut_module_items / visit_mut_script template insertion",CV),("function counter insertion",CH)],observe=["strictness probes and module namespace under node"]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in props:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False)+"\n")
