for i in range(8, 25):
    TODO["C%02d" % i] = "check still being built"
T["C18"] = (IMPL + "probe library (all probe sequences over a colliding-name alphabet)", "All sequences of probe calls up to the depth bound, all value classes and check modes, growth to thousands of probes; the exported CSV is parsed back and compared with the accepted probes.")
T["C20"] = (IMPL + "hash table (all operation sequences)", "All insert/remove sequences up to the depth bound over colliding keys, from the empty table and from tables at every small fill level, observed after each step by lookups of every key and compared with a set of pairs.")
T["C09"] = (IMPL + "wrapper (all backend lists of the grid, recording backends)", "Every list over a token alphabet (separators, arguments, missing backends, 0-17 backends, up to 257 arguments, list files) run on compiled programs with recording backends; events, results and refusals compared with a model of the documented syntax.")
T["C10"] = (IMPL + "wrapper and backends (all sequences of user calls)", "All call sequences to the depth bound; after each call the operation grid is compared with a backend started with the settings in force; recording backends show delivery to every backend.")
T["C11"] = (IMPL + "compiler pass (all kernels, expression trees and option sets, recording backends)", "Every operation, predicate, type, lane count and operand shape compiled as a kernel under every option set, all expression trees with up to 3 operations; tagged backend results rebuild from the event log which expression was computed; whole programs compared with their uninstrumented selves.")
T["C12"] = (IMPL + "instrumentation pass and driver (all selection files over a line alphabet)", "Every include/exclude file of one line over the pattern alphabets, pairs of lines and files, odd lines, applied by the real pass to a universe of modules; which functions keep native operations is compared with the documented matching rules, and driver runs are observed through a recording backend.")
T["C13"] = (IMPL + "--ddebug programs (all include/exclude/generate combinations)", "Every include subset, every exclude subset, include x exclude pairs and generation under every executed subset over scalar, vector and fma sites, with recording backends; results and events compared per site.")
T["C16"] = (IMPL + "function instrumentation (all call trees of a script-driven program)", "Every call tree to the size bound over a six-letter alphabet of call sites (scalar, array, recursive, callback, no-float), under recording backends and in vprec profiles, compared event by event with a reference model; signature and whole-program equivalence with the uninstrumented programs.")
T["C17"] = (IMPL + "vprec function settings (all call trees x profiles x modes)", "Every call tree to the bound, under no profile, one entry with every setting, every pair of entries and every assignment over a small universe of call sites, in the 4x4 instrumentation and rounding modes; every value the program computes and the profile written back are compared with a reference semantics.")
T["C14"] = (IMPL + "delta-debug search (all pass/fail oracles within the bound)", "The real search classes run against every oracle over up to 4 deltas, every monotone one over 5, sparse monotone ones over up to 11 and run-dependent outcomes over 3, for every algorithm variant, run table and granularity; the sets returned are checked for failure, 1-minimality, disjointness and completeness.")
T["C15"] = ("model checking of the implementation (every history and every interruption point, simulated scripts)", "Every sequence of tests to the bound with every outcome of each run; every file-system step of a family of searches stopped and restarted (some twice); the real command with real scripts validates the stand-ins.")
T["C08"] = ("stateless model checking of the implementation (all thread schedules up to a preemption bound)", "Wrapper, backends and random-number library run with a scheduling point at every shared access and atomic operation; every schedule with up to 2 (thorough: 3) preemptions of 2-3 threads, for every random backend, ends with the results each thread has alone at a distinct rank; a grid of seeds gives pairwise distinct, repeatable streams.")
T["C21"] = ("stateless model checking of the implementation (all thread schedules up to a preemption bound)", "Every schedule with up to 2-3 (thorough: 4) preemptions of 2-4 threads executing every kind of operation; the counts printed at the end and every result are exact.")
T["C19"] = (IMPL + "CI test command (all sample vectors, orders, names and crash patterns within the bound)", "The real `vfc_ci test` code runs planned program outputs and its exported run file is compared, in exact arithmetic, with the definitions: every sample vector over small alphabets with thresholds on both sides of and at the boundary, every order of probes, every pair of names, every pattern of crashed runs and missing references.")
T["C22"] = (IMPL + "backend settings (all values of the bounded domains and a grid of invalid ones, on a compiled program)", "Every option of every backend with every value of its bounded domain in every spelling, a grid of values out of it, all pairs of settings in both orders, repeated, missing and superfluous values: the program either does not start (error, message) or computes what the canonical setting computes, and distinct values compute distinct results.")
T["C23"] = (IMPL + "compiler driver (all command lines of the grids against plain clang, every external step failing)", "Every command line over odd names, shell-special strings, flag orders, link inputs, instrumentation options, dependency flags and errors is run by the real driver and by plain clang in equal directories: exit status, files, texts, warnings and program outputs agree and nothing else is left; then every external step of a set of commands fails in three ways.")
T["C24"] = (IMPL + "precision search (real vfc_precexp, all thresholds of every setting and all small profiles, on planned acceptance and on a compiled program)", "The real search runs against stand-in run and comparison programs that read the configuration as vprec does and accept it by a planned predicate: every threshold of every setting, budgets shared by every pair, all assignments of levels, all pairs of function kinds and call orders, function lists, accepted sets that are not monotone, failing, hanging and talkative runs; the settings reported are accepted, were tried, are those left in the configuration file, and none can be lowered by one. The same command on a compiled program under the real vprec backend binds the stand-ins.")
T["C25"] = (IMPL + "ieee backend trace (operations x operands x all option subsets) and program output", "Every operation on structured operands under all 64 option subsets; each record is parsed back to the exact operands, operator and result; a program using every printf conversion prints the same under every backend list of the grid as without instrumentation.")
T["C26"] = (IMPL + "logger (all combinations of the logging variables x backend lists)", "Every combination of the five logging variables over their documented and odd values for 18 backend lists (7 refused), on a compiled program: status, output, errors, messages and their destination compared with the default run; log file names of 1 to 60000 characters.")
T["C27"] = (IMPL + "CI report (all reachable selections and all ordered pairs of actions, headless)", "The real report runs on a headless document; every state of each view over small sets of run files, every action in it and all ordered pairs of actions of all views, every selection of files, every serve option of the grid: after each step all plots, tooltips and tables are compared with the run files read independently. Run files of the real test command and the page of the real server bind the harness.")
T["C28"] = (IMPL + "vfc_ci setup (all reachable states of real repositories up to a depth)", "Explicit-state exploration of a real clone and its real bare remote: every history of setups, generated workflows (executed as written), user, third-party and remote actions to the bound; after each setup or workflow all refs, trees, index and files are compared with what the property allows.")
T["C29"] = (IMPL + "vfc_vtk (all sample vectors, structures, options and file sets of the grids)", "The real tool runs on every vector of up to 4 samples over an alphabet of ordinary, extreme and special values, every structure of the grid (pieces, sections, names, types), every option set, with and without a reference; every array it writes is compared with the definitions in exact rational arithmetic, everything else with the reference.")
T["C30"] = (IMPL + "vfc_report (all small sets of results, call sites and function lists of the grids)", "The real command runs on results in the format of vfc_precexp: every list of arguments, call sites with similar identities, function lists, every combination of the functions covered by the four explorations, missing results; matplotlib is a stand-in whose images record what is drawn, and the page and each chart are compared with the results.")
T["C31"] = (IMPL + "PRISM pass (all kernels x modes, dispatchs, instruction sets and library contents, recording library)", "The real pass and driver instrument 1593 kernels (every operation, type, lane count and operand order, loops, branches, recursion, all small expressions) in 160 configurations, against stand-in PRISM libraries that record their operands and give every result a tag; the calls and results of each kernel are compared with its definition. The selection files of C12 are applied through the same pass.")
