#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os, re
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": mech, "where": files[0]}]}
    n = len(re.findall(r"[.](?:\s|$)", statement)); assert n <= 3, (id, n)
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

B = "src/backends/interflop-backend-"
prop("C01", "IEEE execution is transparent",
 "Under the IEEE backend (whatever its printing and counting options), and under every other backend in its 'ieee' mode, every add, sub, mul, div, fma and double-to-float cast, in binary32 and binary64, returns bit for bit what the uninstrumented operation returns (a NaN for a NaN). Every one of the 16 comparison predicates returns the IEEE-754 truth value.",
 ["inputs", "configurations"], "all operand bit patterns, all predicates, all IEEE-backend option sets and all backends' ieee mode",
 "Tests run a few programs on a handful of operands; signed zeros, NaNs, subnormals, ties and unordered predicates are barely sampled.",
 [B+"ieee/interflop_ieee.c", B+"mcaquad/interflop_mca.c", B+"mcaint/interflop_mca_int.c", B+"bitmask/interflop_bitmask.c", B+"vprec/interflop_vprec.c", "src/interflop-stdlib/fma/interflop_fma.c"],
 "per-backend operation hooks reached through the interflop vtable")
prop("C02", "MCA (quad) perturbs exactly as its mode, precision and error mode say",
 "In the quad MCA backend, for every random draw, a perturbed value x becomes x + xi*2^(e(x)-t+1) with xi in [-1/2,1/2) (plus xi'*2^E in 'abs'/'all' error mode), computed in the extended format and then rounded to the operation's type: operands are perturbed in modes mca and pb, the result in modes mca and rr, and nothing in ieee. Zeros, infinities and NaNs are never perturbed, and in rr mode neither is a result exactly representable with t bits; --daz and --ftz turn subnormal operands/results into zero, and a value is left alone exactly when the sparsity draw exceeds --sparsity. No draw may ever produce a perturbation outside those bounds.",
 ["inputs", "configurations"], "all operands, all virtual precisions, modes and error modes, every value the random generator can return",
 "Tests check statistics over a few hundred random samples; a draw with probability 2^-52 or a particular exponent/precision pair is never hit.",
 [B+"mcaquad/interflop_mca.c", "src/interflop-stdlib/common/float_utils.h", "src/interflop-stdlib/common/options.h"],
 "noise injection around each operation in quad/double precision")
prop("C03", "MCA (integer) perturbs exactly as its mode and precision say",
 "In the integer MCA backend (whose precision t is that of the type: 24 or 53), for every random draw, a perturbed value moves by at most 2^(e(x)-t) in magnitude (the draw, as a signed fraction in [-1,1), times that bound), on operands in modes mca and pb and on results in modes mca and rr, before the final rounding to the operation's type. Zeros, infinities and NaNs are never perturbed, rr never perturbs a result exactly representable with t bits, and --daz, --ftz and --sparsity act as in the quad backend.",
 ["inputs", "configurations"], "all operands, all modes and options, every 64-bit draw",
 "The tests only sample seeds; precision/exponent corners and extreme draws are not reached.",
 [B+"mcaint/interflop_mca_int.c", "src/interflop-stdlib/common/float_utils.h"],
 "integer noise added to the extended-format representation")
prop("C04", "Bitmask keeps exactly t significant bits",
 "In the bitmask backend with virtual precision t, each affected value keeps its sign, exponent and t leading significant bits, and its remaining bits all become 0 ('zero'), all become 1 ('one') or are xored with the random draw ('rand'); operands are affected in modes full and ib, results in modes full and ob, nothing in ieee. Zeros, infinities and NaNs are never changed, and in mode ob a result representable with t bits is left alone; subnormals keep t significant bits counted from their own leading one, and --daz/--ftz turn subnormal operands/results into zero.",
 ["inputs", "configurations"], "all operands, precisions, operators, modes and random masks",
 "Tests use a few precisions on normal operands and one or two seeds.",
 [B+"bitmask/interflop_bitmask.c"], "mask applied around each operation")
prop("C05", "Cancellation noise appears only for, and in proportion to, a cancellation",
 "In the cancellation backend, mul, div, fma and casts are exactly IEEE, and an add or sub whose result exponent is fewer than --tolerance bits below the larger operand exponent is exactly IEEE too. Otherwise the result of cancelling c bits is the IEEE result plus xi*2^(e-c+1) with xi in [-1/2,1/2), e being the exponent of the result, for every random draw; a cancellation is reported exactly when warnings are on.",
 ["inputs", "configurations"], "all operand pairs, tolerances and draws",
 "The test checks a short loop with few cancellation sizes and random seeds.",
 [B+"cancellation/interflop_cancellation.c"], "cancellation detection after add/sub")
prop("C06", "VPREC rounds every result to the nearest value of the chosen format",
 "In relative-error mode, VPREC with precision p and range r rounds a value to the nearest representable of the format with p fraction bits and exponents 2-2^(r-1)..2^(r-1)-1, ties to even, with gradual underflow (exactly half the smallest subnormal may go either way), keeping the sign (unspecified for a value that underflows to zero), and overflowing to the infinity of its sign when the rounded magnitude exceeds the largest finite value. NaN, infinities and zeros pass through unchanged, and representable values are fixed points.",
 ["inputs", "configurations"], "all operands, all (precision, range) pairs of binary32 and binary64",
 "The tests compare sampled operands for a few configurations; ties, carries into the next binade, range borders and subnormals for every (p, r) are out of reach.",
 [B+"vprec/common/vprec_tools.c", B+"vprec/interflop_vprec.c"], "_vprec_round_binary32/64 and the denormal/underflow helpers")
prop("C07", "VPREC applies that rounding exactly where mode and options say",
 "VPREC rounds operands in modes full and ib, results in modes full and ob, nothing in ieee; binary32 operations use the binary32 settings, binary64 ones the binary64 settings, fma rounds once, and a cast to float rounds to the binary32 settings (ob, full). --daz (--ftz) turns operands (results) below the normal range of the format into zeros, presets select their documented (range, precision), 'abs' error mode rounds normal values to a multiple of 2^E, and 'all' to the coarser of the two grids.",
 ["inputs", "configurations"], "all operands, modes, error modes, presets, daz/ftz and option orders",
 "Each existing VPREC test fixes one or two option sets.",
 [B+"vprec/interflop_vprec.c"], "operation wrappers, option parsing")
prop("C08", "Seeded runs are reproducible; threads draw from independent streams",
 "With a fixed seed, the same sequence of operations in a thread gives the same results in every run and under every schedule of the other threads: a thread's results depend only on the seed and on its rank among the threads that drew first. No two threads share or disturb each other's random stream (distinct threads never get the same rank), and for the same rank distinct seeds give distinct streams.",
 ["schedules", "histories", "configurations"], "all interleavings of 2-3 threads' operations (every memory access of the random-number path is a scheduling point), all seeds in a grid, all random backends",
 "A test run sees one schedule; losing an update of the rank counter or sharing state needs a specific interleaving.",
 ["src/interflop-stdlib/rng/vfc_rng.c", "src/interflop-stdlib/rng/xoroshiro128.c", "src/interflop-stdlib/rng/splitmix64.c", B+"mcaquad/interflop_mca.c", B+"mcaint/interflop_mca_int.c", B+"bitmask/interflop_bitmask.c", B+"cancellation/interflop_cancellation.c"],
 "thread-local generator state, atomic rank counter")
prop("C09", "The backend list is parsed, loaded and chained as documented",
 "VFC_BACKENDS (or, only when it is unset, the first line of the file named by VFC_BACKENDS_FROM_FILE) is split on ';' into at most 16 backends and on spaces into their arguments; each is loaded once in order with exactly its own arguments. Every instrumented operation then calls each loaded backend that implements it, in order, with the original operands, and yields the result of the last one; finalizers run for each at exit. A missing list, an unloadable backend, or an operation no backend implements stops the program with an error before its first operation.",
 ["configurations", "inputs"], "all backend lists, separators and argument lists up to the bounds, presence/absence of each operation in each backend",
 "Tests load one or two real backends with one spelling of the list.",
 ["src/vfcwrapper/main.c.in"], "vfc_init, parse_vfc_backends_env, arithmetic wrappers")
prop("C10", "User calls reach every backend and change exactly what they name",
 "An interflop_call reaches every loaded backend that handles user calls, each with the full argument list. For any sequence of precision/range calls and operations, each operation behaves as if the backend had been started with the settings in force at that point, calls for one type or parameter leave the others unchanged, and inexact() perturbs only the value pointed to, within the requested precision.",
 ["histories", "inputs"], "all sequences of user calls and operations up to the depth bound, for vprec, mca and multi-backend lists",
 "The existing test makes one fixed sequence of calls.",
 ["src/vfcwrapper/main.c.in", B+"vprec/interflop_vprec.c", B+"mcaquad/interflop_mca.c"], "interflop_call and the backends' user_call")
prop("C11", "Compilation instruments every selected operation and only those",
 "In code compiled by verificarlo each executed binary32/binary64 add, sub, mul and div (scalar or vector of 2, 4, 8 or 16 lanes, at any optimisation level), and with the matching option each comparison, scalar fma and scalar double-to-float cast, is performed by exactly one backend call per lane with the operation's own operands and predicate, and its result is what the program uses. Everything else in the program is unchanged, so under the IEEE backend the program computes bit for bit what the uninstrumented program computes.",
 ["programs", "inputs"], "all single-operation programs over types, vector widths, predicates and operand grids, all small expression trees, all instrumentation option sets and optimisation levels",
 "Tests compile a handful of programs; a mis-wired operand, predicate or lane for one width or type is not exercised.",
 ["src/libvfcinstrument/libVFCInstrument.cpp", "src/vfcwrapper/main.c.in", "verificarlo.in.in"], "LLVM pass replacing instructions by wrapper calls")
prop("C12", "Function selection instruments exactly the selected functions",
 "With --function only that function is instrumented. With include/exclude files a function is instrumented if it matches a line of the include file; otherwise it is not if it matches a line of the exclude file or if only an include file is given; module names, with or without directory or extension, and the wildcard * match as documented.",
 ["configurations", "programs"], "all include/exclude file contents up to the bound over a universe of modules and functions",
 "Tests try a dozen fixed lists.",
 ["src/libvfcinstrument/libVFCInstrument.cpp", "verificarlo.in.in"], "function selection parsing and matching")
prop("C13", "Delta-debug filters select exactly the listed operations",
 "In a --ddebug binary, an operation site is performed natively if it is listed in VFC_DDEBUG_EXCLUDE, or if VFC_DDEBUG_INCLUDE is given and does not list it, and through the backends otherwise. VFC_DDEBUG_GEN lists exactly the sites executed through the backends, by any thread, once each, in a form that the filters accept, so that including a generated list reproduces the full run and excluding it the native run; INCLUDE and GEN together are refused.",
 ["configurations", "programs", "schedules"], "all include/exclude subsets of the sites of a program with all operation kinds; all schedules of threads recording sites, within a preemption bound",
 "The ddebug tests run one search on one program.",
 ["src/vfcwrapper/main.c.in", "src/interflop-stdlib/hashmap/vfc_hashmap.c"], "ddebug macro, filter file parsing, address hash set")
prop("C14", "Delta debugging returns 1-minimal failing sets and stays within its universe",
 "For every failing/passing oracle over n deltas, ddmin returns a subset that fails and from which no single delta can be removed without passing; rddmin returns disjoint such subsets whose removal leaves a passing set, ddmax returns a maximal passing complement. Only subsets of the given deltas are ever tested, no delta is lost or duplicated, and the search terminates.",
 ["inputs", "histories"], "all monotone oracles and all general oracles (with failing full set and passing empty set) over up to 4-5 deltas, all splitting granularities and algorithm variants",
 "Tests check one program with one bug location.",
 ["src/tools/ddebug/DD.py", "src/tools/ddebug/DD_stoch.py"], "ddmin / rddmin / ddmax search")
prop("C15", "Delta-debug runs are recorded once and reused soundly",
 "A configuration is judged failing as soon as one of its runs fails and passing only after the requested number of passing runs. Results recorded on disk are reused for exactly the same set of deltas and never for another, and a search interrupted at any point and restarted in the same directory ends with the same result as an uninterrupted one.",
 ["histories", "crash_points", "fault_sequences"], "all sequences of test/re-test with growing run counts, all per-run outcomes, an interruption before or after each file-system step",
 "No test interrupts a search or reuses its cache.",
 ["src/tools/ddebug/DD_stoch.py", "src/tools/ddebug/DD_exec_stat.py"], "run directories, recorded return values and result links")
prop("C16", "Function instrumentation keeps the call stack and counts exact",
 "In a single-threaded program compiled with --inst-func, each executed call that uses floating point and returns is bracketed by one enter and one exit event with the same identifier, events nest like the calls, and the distinct call sites of a source file have distinct identifiers that are stable between runs; a call left by longjmp or an exception has no exit event and does not disturb those of its callers. The profile written by the vprec backend lists each call site executed, with its exact number of calls and argument counts, and values flow through unchanged when no rounding is requested.",
 ["programs", "histories"], "all call trees up to depth and fan-out bounds, all argument/return type combinations in the alphabet",
 "Tests compare a few profiles for fixed programs.",
 ["src/libvfcfuncinstrument/libVFCFuncInstrument.cpp", "src/vfcwrapper/funcinstr.c", B+"vprec/interflop_vprec_function_instrumentation.c"], "enter/exit hooks, call stack, profile hash table")
prop("C17", "Per-function VPREC settings apply inside the function and nowhere else",
 "With a VPREC input profile, operations executed directly in a listed call run with that entry's precision and range, its arguments and results are rounded to the precision given for each of them, element by element for arrays, and the caller's settings are restored when it returns; functions not listed run at full precision. A profile written by a run and read back unchanged is reproduced with the same settings, its call counts and value ranges extended by those of the run, and each mode ('arguments', 'operations', 'all', 'none') affects only what it names.",
 ["histories", "configurations", "inputs"], "all enter/operate/exit histories over a small call universe, all profile settings in the grid, all instrumentation modes",
 "Tests use one or two hand-written profiles.",
 [B+"vprec/interflop_vprec_function_instrumentation.c", "src/vfcwrapper/funcinstr.c"], "_vfi_enter_function/_vfi_exit_function and the profile reader/writer")
prop("C18", "Probes are exported exactly once, exactly as recorded",
 "Every accepted probe appears exactly once in the exported CSV with its test, variable, bit-exact value, threshold and check mode; a name with a comma or a duplicate (test, variable) pair is rejected with an error, and nothing is written when no output file is set. This holds for any sequence of probes, including enough of them to force the table to grow and pairs whose concatenated names collide.",
 ["histories", "inputs"], "all sequences of probe calls over a small alphabet with colliding names, all value classes, all check modes",
 "The tests put a few probes.",
 ["src/common/vfc_probes.c", "src/interflop-stdlib/hashmap/vfc_hashmap.c"], "probe table and dump")
prop("C19", "CI statistics and verdicts follow the recorded samples",
 "For every set of at least three samples of a probe, the CI tools report their mean, standard deviation, min, quartiles and max, significant digits consistent with them, and the verdict required by the probe: an absolute check passes exactly when the dispersion is below the threshold, a relative one when dispersion/|mean| is, no check always passes; a deterministic backend passes exactly when its value is finite and stays within the threshold of the reference (no reference: it fails). Results do not depend on the order of the samples and are attributed to the test, variable and backend they came from.",
 ["inputs", "configurations"], "all sample vectors over a small value alphabet up to the length bound, thresholds on both sides of the boundary, all check modes, probes in any order",
 "The CI test runs one repository scenario.",
 ["src/tools/ci/test_data_processing.py", "src/tools/ci/test.py"], "data processing and validation functions")
prop("C20", "The shared hash table behaves as a map",
 "For every sequence of insert, remove, lookup and membership operations, the table agrees with a set of (key, value) pairs: a lookup by key finds a value stored under exactly that key whenever there is one, whatever other keys share its hash chain, and what was removed or never inserted is not found. Inserting a pair already present changes nothing, and the item count is exact, however many times the table grows.",
 ["histories"], "all operation sequences up to the depth bound over keys chosen to collide, and growth from every small fill state",
 "No test exercises the table directly.",
 ["src/interflop-stdlib/hashmap/vfc_hashmap.c"], "open-addressing table used for ddebug filters, call sites and probes")
prop("C21", "Operation counts are exact under every thread schedule",
 "With --count-op the IEEE backend reports, per kind of operation, exactly the number executed by all threads, and counting never changes a result.",
 ["schedules", "programs"], "all interleavings (at memory-access granularity) of 2-3 threads with 1-3 operations each, all kinds",
 "A test sees one schedule and uses one thread.",
 [B+"ieee/interflop_ieee.c"], "shared counters in the backend context")
prop("C22", "Invalid settings are refused, valid ones accepted, before any operation",
 "Every backend accepts each option value in its documented domain and takes it into account, and refuses (error message, non-zero exit, before the first operation) values outside it: non-positive precisions, precisions or ranges beyond the format for vprec, unknown modes, operators, error modes and presets, sparsities outside (0,1], negative tolerances, text that is not a number where one is expected, unknown options, missing values and stray arguments.",
 ["configurations"], "all option/value pairs in the grid for every backend",
 "Tests only check a few valid settings and very few invalid ones.",
 [B+"vprec/interflop_vprec.c", B+"mcaquad/interflop_mca.c", B+"mcaint/interflop_mca_int.c", B+"bitmask/interflop_bitmask.c", B+"cancellation/interflop_cancellation.c", "src/interflop-stdlib/common/options.h"],
 "argp parsers and setters")
prop("C23", "The compiler driver passes files and options through faithfully",
 "For every combination of source files, -c/-S/-E-style steps, -o, object and library arguments, instrumentation options and user flags (including ones containing spaces or quotes), verificarlo compiles each source once with the same user flags a plain clang would get, produces the requested outputs under the requested names, returns non-zero exactly when a step fails, and leaves no temporary files unless asked to.",
 ["configurations", "fault_sequences"], "all combinations of a bounded command-line alphabet, with each external step failing in turn",
 "Tests use the driver in its simplest form.",
 ["verificarlo.in.in"], "argument parsing, compile/link steps, temp file cleanup")
prop("C24", "Precision search keeps the program valid and never skips a better setting",
 "For every profile and acceptance criterion, vfc_precexp terminates and reports, in its result tables and in vfc_config.txt, settings that it ran and that the comparison accepted, leaving the settings outside the chosen mode and functions at full precision, or fails when the reference run fails or full precision is rejected. When acceptance is monotone, no explored setting of the result could be lowered by one step with the others kept.",
 ["inputs", "histories"], "every threshold of every setting, budgets shared by every pair of settings, all small profiles, function lists, non-monotone acceptance and failing or hanging runs",
 "No test in the suite runs the search.",
 ["src/tools/optimize/precexp.py"], "bisection over precisions/ranges of each call site")
prop("C25", "The IEEE trace shows every operation exactly; the program's output is its own",
 "With --debug or --debug-binary the IEEE backend prints one record per operation with its operator or predicate, its operands in order and its result, in decimal (six digits) or in a binary form that reads back to exactly the same value; subnormals are denormalized or, on request, normalized, and --no-backend-name and --print-new-line change nothing but the header and the line breaks. Under every set of these options, and under every other backend, the program's own standard output is that of the uninstrumented program, whatever printf conversions it uses.",
 ["inputs", "configurations"], "all operations over all exponents with structured mantissas, all 64 option subsets; all printf conversions with their flags, widths and lengths under every backend",
 "The test compares a few values in two option sets.",
 [B+"ieee/interflop_ieee.c", B+"ieee/common/printf_specifier.c"], "DEBUG_PRINT and the binary formatter")
prop("C26", "Logging settings decide what is logged and where, never what the program does",
 "For every combination of VFC_BACKENDS_LOGGER, VFC_BACKENDS_LOGGER_LEVEL, VFC_BACKENDS_COLORED_LOGGER, VFC_BACKENDS_SILENT_LOAD and VFC_BACKENDS_LOGFILE, a program prints the same results and ends with the same status, and errors always appear on stderr. Information messages appear once each, in the log file (named with the thread's id) if one is set and on stderr otherwise, unless the logger is off or the level is above info; silent loading removes the load messages of every backend. A log file that cannot be opened stops the program with an error before its first operation, and any name that can be opened works; a log file that exists is added to.",
 ["configurations"], "the product of the values of the five variables x backend lists, including refused ones; log file names of every length class",
 "The test tries each variable once with one backend.",
 ["src/interflop-stdlib/iostream/logger.c", "src/vfcwrapper/main.c.in"], "logger_init, the level functions and the load messages")
prop("C27", "The CI report shows exactly what was recorded for the current selection",
 "For every set of run files (with distinct timestamps) and every sequence of selections, clicks and filters in the report of vfc_ci serve, each plot, tooltip and table shows exactly the values recorded for the selected repository, branch, runs, test, variable and backend: in chronological order, attached to the right run, failed checks in red, checks tables with every probe that has a check, and no selection fails or offers what was not recorded. The report holds the most recent runs allowed by --max-files after --ignore-recent, with distinct run and repository names; grouped views show the averages weighted by samples and the quartiles of the groups, and filtering outliers removes exactly the values three standard deviations or more from the mean, with the rest of their run or group. A click on a run selects this run in the corresponding view, and the options of vfc_ci serve reach the report unchanged.",
 ["histories", "configurations", "inputs"], "all reachable selections of each view, all ordered pairs of actions, on small sets of run files; all small file selections; all serve options of a grid",
 "The report has no tests.",
 ["src/tools/ci/vfc_ci_report/main.py", "src/tools/ci/vfc_ci_report/compare_runs.py", "src/tools/ci/vfc_ci_report/deterministic_compare.py", "src/tools/ci/vfc_ci_report/inspect_runs.py", "src/tools/ci/vfc_ci_report/checks.py", "src/tools/ci/vfc_ci_report/helper.py", "src/tools/ci/serve.py"], "update_plots, update_run, change_repo, detect_outliers, run")
prop("C28", "vfc_ci setup adds the workflow and the CI branch, and nothing is lost",
 "For every state of the repository and of its remote (branch name without quotes or $, form of the remote URL, untracked, modified or staged files, unpushed or missing commits, earlier setups, CI branch present, deleted or refused by the remote), vfc_ci setup either fails, keeping the files, the branches and the remote of the user as they are (but for the workflow commit when only the remote refuses a push), or adds to the current branch, locally and on the remote, at most one commit with exactly the workflow of the chosen host, and makes sure that the remote has a CI branch. It never commits, publishes, changes or deletes anything else: neither untracked files nor results already on the CI branch; a new CI branch has no history and holds only a README naming the two branches. It succeeds whenever the branch is clean and in sync with its upstream and the remote accepts the branches; the workflow is triggered by exactly this branch, and when executed as generated it adds its run files to the CI branch and changes nothing else.",
 ["histories", "faults", "configurations"], "all histories of user, remote and workflow actions up to a depth; remotes refusing either branch; forms of URLs and branch names",
 "vfc_ci setup has no tests.",
 ["src/tools/ci/setup.py", "src/tools/ci/workflow_templates/vfc_test_workflow.j2.yml", "src/tools/ci/workflow_templates/gitlab-ci.j2.yml", "src/tools/ci/workflow_templates/ci_README.j2.md"], "run, gen_workflow, gen_readme, the templates")
prop("C29", "vfc_vtk enriches the reference output with the right accuracy of each array",
 "For every set of ASCII VTK outputs (.vtu) of the same structure, vfc_vtk writes a copy of the reference output (the one given with -r, or one of the outputs) in which each floating point DataArray, of single or double precision, of any piece and section and whatever its name, is joined by one array named with the suffix _vfc_accuracy that holds, value by value over the outputs, the number of significant digits -log10(std/|mean|) brought to the range 0 to 17, and 0 where it is not defined, or the standard deviation with --std; with --mean the array itself becomes the mean. The accuracy of points is stored in the PointData of their piece, and everything else of the reference is kept. The outputs are never modified, an existing output directory is refused untouched, and unusable inputs give an error.",
 ["inputs", "configurations"], "all vectors of up to 4 samples over an alphabet with zeros, signs, extremes and special values; all structures, options and file sets of grids",
 "vfc_vtk has no tests.",
 ["src/tools/vtk/__main__.py"], "merge_vtu, postprocess")
prop("C30", "vfc_report presents exactly the precisions that were found",
 "For every complete set of results of vfc_precexp and every list of functions, vfc_report writes a page with the functions selected by their own name or that of their parent (all without a list), sorted by and shown with their total number of calls, and every call site of each exactly once with its file, line and number of calls. The four charts of a call site (arguments, operations, arguments only, operations only) show the types, precisions, ranges and bounds found for this call site by this exploration, and none is offered where that exploration has no result. When a result file is missing it says so and writes no report.",
 ["inputs", "configurations"], "all argument lists, sets of similar call sites, function lists, sets of functions of the four explorations and subsets of missing results of the grids",
 "vfc_report has no tests.",
 ["src/tools/optimize/report.py"], "main, the chart and template functions")
prop("C31", "The PRISM pass replaces each operation by the matching library function",
 "With --prism-backend, every addition, subtraction, multiplication, division and (with --inst-fma) fma on floats or doubles, scalar or of 2 to 64 lanes (a power of two), in the selected functions becomes one call of the PRISM function of the chosen rounding mode, dispatch, operation, type and size, which gets exactly its operands in order and whose result is exactly what the program uses, by value when the library has such a function and by pointer otherwise, whatever loops, branches, recursion and other operations surround it. Operations that the library lacks, or that it does for a larger instruction set than the program's, are left as they are or done properly; with --prism-backend-strict-abi a missing function is an error. Other instructions and the functions not selected by --function and the include and exclude files never change; invalid modes, dispatchs and unreadable files are refused.",
 ["programs", "configurations"], "all operations, types, lane counts and operand orders, all expressions of up to 3 operations, x modes, dispatchs, instruction sets, optimisation levels and incomplete libraries; the selection files of C12",
 "The PRISM test needs the PRISM library and only looks at the variability of a few results.",
 ["src/libvfcinstrumentprism/libVFCInstrumentPRISM.cpp", "src/libvfcinstrumentprism/TargetFeatures.hpp", "src/libvfcinstrumentprism/libVFCInstrumentPRISMOptions.hpp", "verificarlo.in.in"], "replaceArithmeticWithPRCall, getOperands, areABICompatible, parseFunctionSetFile")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.realpath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
