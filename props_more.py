D = "crates/rez-next-repository/src/"
prop("D01", "Repository lookups report exactly the packages on disk",
  "Listing, finding and fetching packages, by name, version, pattern or latest, through any repository view and in any order of lookups, report exactly the definitions present on disk that are not hidden by an ignore marker, each with its own contents and version. The highest version is the latest, several repositories behave as their union with earlier ones preferred for a named version, an unreadable definition is reported rather than passed over silently, and a rescan reflects every edit while a failed rescan keeps earlier answers. Concurrent lookups see the same.",
  ["inputs", "histories", "schedules"], "all repository contents, edit and lookup sequences, and concurrent lookups",
  "Tests use tidy two-package repositories and one lookup each; the failures depend on the order of lookups, on markers, broken neighbours and names that look like patterns.",
  [D+"simple_repository.rs", D+"filesystem.rs", D+"package_repository/filesystem.rs", D+"scanner/scan.rs", D+"scanner/path.rs"], [("repository scans and lookups", D)],
  "offline comparison of every answer with a disk model, under edits, faults and concurrent lookups", "Generated repositories with markers, broken definitions and odd names; edits between lookups; unreadable root injected; 4-thread shared lookups.")
prop("D02", "Ignoring and removing packages changes only what was asked, even when cut short",
  "Ignore, unignore, remove, remove-family and clean-up calls return what they did and change exactly the named package inside the repository: nothing else in it, nothing outside it, whatever the names, and nothing at all when the repository is read-only, the call is a dry run or it is refused. An ignored package is hidden from every lookup and resolve until unignored. A removal that fails or is killed part way never leaves a partial package visible, a retry completes it, and of concurrent identical calls exactly one takes effect.",
  ["inputs", "histories", "crash-points", "schedules"], "all call histories, names, fault and kill points, and concurrent callers",
  "Tests make single calls on a healthy repository; containment needs hostile names, and the visibility guarantee needs failures in the middle of a removal.",
  [D+"package_repository/filesystem.rs", D+"simple_repository.rs"], [("marker protocol of removal", D+"package_repository/filesystem.rs remove_package, ignore_package, remove_ignored_since")],
  "trace checker of call histories against a directory-tree model, with injected faults and kills", "The whole tree around the repository is snapshotted after every call; undeletable payloads, SIGKILL during removal and racing callers are injected.")
prop("Q01", "Searches and reverse-dependency listings return exactly the matching packages",
  "A package search returns every family whose name matches the pattern in the chosen mode and every version in the requested range, in name order with versions in version order, and nothing else; the latest-only form keeps the highest version and a limit keeps that many matches, the same ones every time. A reverse-dependency listing gives, layer by layer, exactly the families whose latest visible version requires the target by name, and plugin listings exactly the families declaring it.",
  ["inputs", "configurations"], "all repository contents, patterns, modes, ranges, limits and depths",
  "Tests search empty or missing paths; exactness quantifies over repositories, name overlaps and version spellings.",
  ["crates/rez-next-search/src/searcher.rs", "crates/rez-next-search/src/filter.rs", D+"package_search.rs", D+"simple_repository.rs"], [("search over all repositories", "crates/rez-next-search/src/searcher.rs"), ("reverse dependency walk", D+"package_search.rs")],
  "model comparison of complete answers", "Answers of the real searcher on generated repositories compared with answers computed from the generator's model.")
prop("F01", "Copying, moving and removing packages is exact, all-or-nothing and contained",
  "Copy, move, remove, remove-family and their command-line forms do what they report: a copied package is complete, under the requested name and version, a moved one is gone from its source only once it is complete at the destination, an existing destination is replaced only on request, and a missing version means the latest. Nothing outside the named packages changes, whatever the names; refused calls, dry runs and previews change nothing. A copy or move that fails or is killed never shows part of a package and never loses it.",
  ["inputs", "histories", "crash-points"], "all call histories, names, options, fault and kill points",
  "Tests copy tiny packages between tidy directories; hostile names, existing destinations, undeletable or unreadable payloads and kills at arbitrary points are not sampled.",
  ["crates/rez-next-package/src/package_copy.rs", "crates/rez-next-package/src/package_move.rs", "crates/rez-next-package/src/package_remove.rs", "src/cli/commands/cp.rs", "src/cli/commands/mv.rs", "src/cli/commands/rm.rs"], [("staged copy then rename", "crates/rez-next-package/src/package_copy.rs")],
  "trace checker of call histories against a directory-tree model, with injected faults and SIGKILL", "The whole tree around the repositories is snapshotted after every call; unreadable and undeletable payloads and kills at many points are injected; the real CLI is driven for cp, mv and rm.")
K = "crates/rez-next-cache/src/"
prop("C01", "A cached payload is a complete copy of its own variant or is not reported",
  "Whenever the payload cache reports a variant as cached, the path it gives lies inside the cache and holds a complete copy of that variant's payload, including modes and links, and of no other variant. That holds whatever names and paths are used, while entries are added, removed and cleaned concurrently by threads and processes, and after an addition fails or is killed. The listing is exactly what is cached, the size limit is kept unless forced, and nothing outside the cache changes.",
  ["inputs", "histories", "schedules", "crash-points"], "all add, remove, clean and lookup histories, concurrent users and kill points",
  "Tests add one small variant at a time; collisions, concurrent additions and interrupted copies are not sampled.",
  ["crates/rez-next-package/src/package_cache.rs"], [("staged payload copy and entry markers", "crates/rez-next-package/src/package_cache.rs")],
  "online history checker plus concurrent observers and SIGKILL", "Every reported payload is compared file by file with its source, by sequential histories, racing threads and processes, and after killed copies.")
prop("C02", "The two-level cache never returns an outdated, removed, foreign or expired value",
  "A lookup in the in-memory two-level cache returns the value most recently put under that key or nothing: never an older value, one that was removed or cleared, one belonging to another key, or one past its lifetime. With room for everything nothing is forgotten. Each level stays within its capacity, an entry is counted once, every lookup is counted as a hit or a miss, and all of this holds under concurrent puts, lookups, removals and clears, whose calls all return.",
  ["histories", "schedules"], "all histories and interleavings of puts, lookups, removals and clears, at any capacities",
  "Tests put and get a few keys in sequence; staleness needs promotion and eviction racing with updates.",
  [K+"intelligent_manager.rs", K+"cache_stats.rs"], [("promotion, demotion and eviction between levels", K+"intelligent_manager.rs")],
  "online per-key linearizability monitor over concurrent histories", "Workers record real-time-stamped puts, removals and lookups per key; each lookup is judged against the window of values it may legally return.")
prop("C03", "Definition caches return the definition the file holds now, or nothing",
  "A lookup in the memory, file or repository definition cache returns exactly the definition last stored for that key and only while its source file is unchanged to the second; after an edit, deletion, invalidation, clear or expiry it returns nothing. Damaged, truncated or foreign entries on disk are treated as absent and never crash a lookup, keys never reach files outside the cache, and concurrent users, threads or processes, get whole entries or nothing.",
  ["inputs", "histories", "schedules", "crash-points"], "all histories of puts, edits, damage and lookups, and concurrent users",
  "Tests store and read back one package; freshness and damage quantify over histories of file edits and on-disk states.",
  ["crates/rez-next-package-cache/src/", D+"cache.rs"], [("entry validation against source mtime", D+"cache.rs"), ("disk entries", "crates/rez-next-package-cache/src/")],
  "online history checker with edits, injected damage and racing users", "Every returned definition is compared with a model of files and stores; cache files are truncated, garbled and swapped between lookups.")
A = "crates/rez-next-package/src/"
prop("P01", "A package.py is read as Python evaluates it, or rejected",
  "Whenever a package.py is accepted, its name, version, requirements, variants, tools, flags, tests, texts and the recorded actions of its command functions are exactly those a Python interpreter computes from the same file, including conditionals, reassignment, string formatting, arithmetic, environment look-ups and values that functions read after later assignments. A file that Python itself cannot evaluate to such metadata is rejected, files made of plain literals are accepted, and no text, damaged or hostile, makes loading crash.",
  ["inputs"], "all package.py programs within and beyond the supported subset",
  "Tests read sample files; agreement with an interpreter quantifies over all programs and combinations of constructs.",
  [A+"python_ast_parser/", A+"serialization/"], [("static evaluation of package.py", A+"python_ast_parser/")],
  "differential monitor against CPython on generated programs", "Each generated program is run by CPython with recording stand-ins for the command functions and its values are compared with the loaded package.")
prop("P02", "A package written in any format reads back as the same package",
  "Writing a package as Python, YAML, JSON or in its binary forms and reading the result gives back the same package in every field the format supports, whatever characters its texts contain, with pretty printing, compression and metadata containers making no difference. Loading a file chosen by its name or by its content agrees with loading the text, writing again is stable, and damaged input is an error and never a crash or a half-read package.",
  ["inputs", "histories"], "all packages, texts, formats and options",
  "Tests round-trip a sample package per format; fidelity quantifies over field combinations and hostile text.",
  [A+"serialization/", A+"package/types.rs"], [("format writers and readers", A+"serialization/")],
  "round-trip monitor over generated packages and damaged encodings", "Generated packages with hostile texts in every field are written and read in every format and option; all fields are compared.")
X = "crates/rez-next-context/src/"
prop("E01", "The environment of a context is exactly what its packages' commands define",
  "The environment generated for resolved packages is the base environment changed by exactly the packages' commands, pre-commands first, then commands, then post-commands, each in resolve order, with references to a package's own name, version and root expanded once; then configured additions, tool directories on the path by the chosen strategy without duplicates, and removals. Aliases, startup commands, sourced scripts and messages keep their order, a stop ends execution, unsupported commands are refused, and an isolated context sees nothing of its parent. It is the same every time.",
  ["inputs", "configurations"], "all resolves, command texts, base environments and settings",
  "Tests run single commands; the meaning of an activation quantifies over sequences of commands of several packages acting on shared variables and hostile values.",
  [X+"environment.rs", "crates/rez-next-rex/src/"], [("command interpretation", "crates/rez-next-rex/src/"), ("environment assembly", X+"environment.rs")],
  "differential monitor against an independent interpreter of the command language", "Complete environments, aliases and actions of generated activations are compared with a second implementation written from the documented command set.")
prop("E02", "Activation scripts give a shell exactly the environment and run nothing else",
  "Sourcing a generated bash or zsh activation script leaves each variable and alias with exactly the value in the environment it was made from, runs the startup commands and sourced scripts once and in order, and never executes or expands anything hidden in a value, except variable references that package commands asked for. Fish and PowerShell scripts quote every value so that their readers take it literally. Exported contexts obey the same rules.",
  ["inputs"], "all variable values, alias texts, script paths and messages",
  "Tests look for substrings of a script; whether a shell reads a value literally quantifies over all quoting and metacharacter combinations.",
  [X+"environment.rs", X+"serialization.rs", "crates/rez-next-rex/src/"], [("script writers", "crates/rez-next-rex/src/shell.rs"), ("context scripts", X+"environment.rs")],
  "execution of generated scripts by a real bash with trip-wires, and lexers for other shells", "Values full of quotes, substitutions and trip-wire commands go through every script writer; bash sources the result in a scratch directory and reports its environment.")
prop("E03", "Commands run in a context see exactly its environment and report faithfully",
  "A command, script, batch, process, background command or interactive shell run through a context's executors sees exactly the context's environment and working directory and nothing of the parent's beyond what the settings inherit; its exit status, output and arguments are passed on unchanged, a batch runs every command once in order, a command for a package outside the context is refused, a tool is found exactly when the context's PATH has it and looking one up runs nothing, concurrent executions stay independent, and a command over its time limit is reported as an error and does not keep running.",
  ["inputs", "schedules"], "all environments, arguments, exit statuses, time limits and concurrent executions",
  "Tests run echo; isolation and faithfulness quantify over environments, hostile arguments and timing.",
  [X+"execution.rs", X+"shell.rs"], [("process execution", X+"shell.rs"), ("context executors", X+"execution.rs")],
  "observation of real child processes against a model of the context", "Children report their environment, arguments and directory; timed-out commands are watched for effects after their timeout.")
prop("X01", "A saved context loads as the same context and activates the same environment",
  "Saving a resolved context in any form, as text, binary, file or export, and loading it gives back every field: requirements, packages with their locations, environment, settings, status and metadata, whatever characters they contain, so that the loaded context activates the same environment and has the same fingerprint. A truncated file or one with anything after its end is an error, damaged ones never crash the loader, checking a file says what checking its context says, a reader beside a writer gets one whole context or an error, and default file names are plain names.",
  ["inputs", "histories", "schedules"], "all contexts, forms, damage and concurrent readers",
  "Tests round-trip a nearly empty context; fidelity quantifies over all fields, hostile text and interrupted writes.",
  [X+"serialization.rs", X+"context.rs", X+"resolved_context.rs"], [("context serialization", X+"serialization.rs"), ("resolved form", X+"resolved_context.rs")],
  "round-trip monitor over generated contexts with injected damage and racing writers", "All fields and the environment generated from the loaded context are compared with the original.")

B = "crates/rez-next-build/src/"
prop("B01", "A build ends once, faithfully, and installs exactly its own files",
  "A build given to the build manager ends exactly once: as succeeded when all its steps did, as failed at the first step that did not, with the reason, or as cancelled. Its reported steps are in order, it runs exactly the commands its steps call for, with the build's variables and overrides, and once a cancellation has returned nothing of it happens any more. A successful build installs exactly its payload, a variant in its own directory, and names where; the source tree stays as it was. Each build has its own id and result, no more run at once than the limit allows, and the manager's counts add up.",
  ["inputs", "histories", "schedules"], "all sources, build commands, failures, cancellations and concurrent builds",
  "Tests build one or two tidy packages; endings, isolation and cancellation quantify over failures at every step and over timing.",
  [B+"builder.rs", B+"process.rs", B+"systems/", B+"environment.rs"], [("build lifecycle", B+"process.rs"), ("concurrency and cancellation", B+"builder.rs")],
  "history monitor of real builds with recording build scripts, injected failures and cancellations", "Build scripts append to a log what they see; logs, results, install trees and source trees are compared with a model, also after cancelling and under concurrency.")
prop("B02", "A binary archive installs exactly its own payload or nothing",
  "Building from a binary archive, tar.gz or zip, local or downloaded, installs exactly its payload with contents, permissions and links and nothing else anywhere: entries that are absolute, lead outside or pass through links bring nothing in or out. A missing, truncated or damaged archive, or one whose checksum is not the stated one, is refused and leaves nothing installed. The artifact list is exactly the installed files and their total size, and validation fails exactly when one of them is changed or missing.",
  ["inputs", "histories"], "all archives, well formed, hostile, truncated or damaged",
  "Tests unpack a small good archive; containment and integrity quantify over entry names and damage.",
  [B+"artifacts.rs", B+"sources.rs", B+"systems/binary_archive.rs"], [("archive installation", B+"systems/binary_archive.rs"), ("artifact lists", B+"artifacts.rs")],
  "round-trip and damage monitor over generated archives", "Archives are generated with an independent writer, damaged at chosen places and unpacked as an unprivileged user; the trees inside and outside the destination are compared.")
prop("L01", "A release is complete and tagged, or leaves no trace",
  "A release, by command line or library, succeeds exactly when the state of its git repository, its build, its tests and its tag allow it. A successful release installs exactly the package it released and publishes one annotated tag, carrying the release message, at the released commit. A release that fails at any stage, or is only rehearsed, installs nothing, tags nothing and publishes nothing. A dirty repository is not released, an existing tag is left as it is, and other packages of the release repository, other tags and branches and the source tree never change.",
  ["inputs", "histories", "configurations"], "all packages, repository states, options and failures at any stage",
  "Tests release one good package or none; all-or-nothing quantifies over the stage that fails and the state it finds.",
  ["src/cli/commands/release.rs", B+"release.rs", B+"vcs/"], [("release command", "src/cli/commands/release.rs"), ("release manager", B+"release.rs")],
  "history monitor of real releases from scratch git repositories with injected failures", "Every release runs the real command or manager in a scratch git repository; the release repository, tags and source are compared before and after.")
prop("O01", "Package orderers sort by what they describe and lose nothing",
  "Every package orderer returns each package exactly once, in the order it describes: by version ascending or descending with unversioned packages last, versions up to the split first, releases up to a time first and newest first, or each family by its own orderer and kept together; packages it cannot tell apart keep their order. The result is the same every time, it never crashes on missing versions or times, an orderer that is cloned or written and read back is the same with the same fingerprint, and a list uses the first orderer that applies.",
  ["inputs"], "all package lists, orderers and nestings",
  "Tests order two or three versioned packages; totality and determinism quantify over missing fields, families and nestings.",
  ["crates/rez-next-package/src/package_order.rs"], [("orderers", "crates/rez-next-package/src/package_order.rs")],
  "online checker of each ordering against the orderer's own description", "Generated package lists go through generated, nested and reloaded orderers; each result is checked for permutation, order and determinism.")
prop("U01", "A suite exposes exactly the tools its contexts and conflict rule define",
  "A suite holds exactly the contexts, aliases and hidden tools its history put there, in order, and the tools it exposes follow its conflict rule in context order: an error, the first, the last or a name prefixed by the context; disabled contexts and hidden tools contribute nothing and no tool silently replaces another otherwise. Operations on unknown contexts or invalid names fail and change nothing, creating never overwrites a suite, a saved suite loads as the same suite whatever its texts, and lookup by name takes the first search path that has it.",
  ["inputs", "histories"], "all histories of suite operations, texts and search paths",
  "Tests add one or two contexts; the tool map quantifies over histories of aliases, hiding, removals and conflicts.",
  ["crates/rez-next-suites/src/", "src/cli/commands/suites.rs"], [("tool resolution", "crates/rez-next-suites/src/suite.rs"), ("discovery", "crates/rez-next-suites/src/suite_manager.rs")],
  "model-based history monitor through the library and the command line", "Suite operations run beside a model; contexts, exposed tools and the reloaded suite are compared after every step.")
prop("G01", "A package filter excludes exactly the packages its rules describe",
  "A filter excludes a package exactly when one of its exclusion rules matches and none of its inclusion rules does. Glob rules match the whole name, version or description with only star and question mark special, expression rules search it, range rules match the versions of their family inside the range, and time rules match strictly before or after. A filter that is written and read back filters the same and has the same fingerprint, which different filters do not share, and malformed rules are refused.",
  ["inputs"], "all rule texts, filters and packages",
  "Tests match one or two patterns; exactness quantifies over special characters, missing fields and rule combinations.",
  ["crates/rez-next-package-filter/src/"], [("rules", "crates/rez-next-package-filter/src/rule.rs"), ("filter", "crates/rez-next-package-filter/src/filter.rs")],
  "differential monitor against an independent reading of the rules", "Generated filters given as text are applied to generated packages and compared with a hand-written matcher.")

C = "src/cli/commands/"
prop("K01", "rez-next env runs a command in exactly the environment its packages define",
  "rez-next env resolves its request to packages that satisfy it or fails without running anything, as it does when a package stops the activation; --no-local leaves out the local packages and no others. A command it runs, given after -- or with -c, a tool alias of a package, or what an interactive shell reads, runs exactly once, in the caller's directory, with its arguments, standard input and output passed through unchanged and its exit status returned. It sees the caller's environment changed exactly as the selected packages, each rooted at its selected variant, say, and nothing hidden in a value is executed. The printed resolve, environment and script agree with what a command sees, the context file describes the resolve while the command runs, and nothing is left behind.",
  ["inputs", "configurations"], "all repositories, requests, package commands, caller environments and command lines",
  "Tests check that env prints something; passing a command through a resolve, a script and a shell unchanged quantifies over values, arguments and environments.",
  [C+"env.rs", "src/bin/rez-next.rs", "crates/rez-next-context/src/"], [("env command", C+"env.rs"), ("argument splitting", "src/bin/rez-next.rs")],
  "end-to-end monitor with an observing child process and a real bash", "The command started by rez-next env records what it sees; the record is compared with an independent interpretation of the packages.")
prop("T01", "rez-next test runs exactly the selected tests, in the package's environment",
  "rez-next test runs the tests of the package it was asked for, in the working directory or installed at its latest version, and of no other. It runs exactly the tests selected by name, by a wildcard pattern matching the whole name, or all of them, each once and in order, with the command's arguments intact, in the package's directory and in the environment that the package, its requirements, the extra packages and the pre-test commands define. Its status is zero only when every test succeeded and otherwise that of the first failure, a killed test counts as failed, the summary counts every test once, and a listing, a dry run or a package that cannot be found or resolved runs nothing.",
  ["inputs", "configurations"], "all packages, versions, tests, selections and working directories",
  "Tests parse arguments or run one trivial test; exactness quantifies over names, patterns, versions, directories and failing commands.",
  [C+"test.rs"], [("test command", C+"test.rs")],
  "end-to-end monitor with an observing child process as every test command", "Every test command is the observer, which records what it sees; records, status and summary are compared with an independent reading of the request.")
prop("N01", "Every setting comes from the layer that has precedence, and none is lost",
  "Every setting comes from its environment variable if there is one, else from the first usable configuration file in search order, else it is built in: a file that sets only some options changes exactly those, and a file that is missing or broken hides nothing behind it. The layered configuration is the merge of all its layers in order, tables merged and other values replaced, with environment overrides last, which take effect whatever lies beneath; a layer that cannot be read is an error. The files searched and found are listed in their order, and what rez-next config prints, whole or for one option, is what is in force.",
  ["inputs", "configurations"], "all sets of configuration files and environment variables",
  "Tests load one complete file; precedence quantifies over partial, broken, nested and conflicting layers.",
  ["crates/rez-next-common/src/config.rs", "crates/rez-next-config/src/lib.rs", C+"config.rs"], [("file settings", "crates/rez-next-common/src/config.rs"), ("layers", "crates/rez-next-config/src/lib.rs")],
  "differential monitor against an independent merge, in child processes", "Generated files in every searched place and generated overrides are loaded by the real command and library and compared with their merge.")

prop("I01", "A bound tool becomes a package naming it exactly, or nothing is written",
  "Binding a system tool, with rez-next bind or through the library, writes a package definition at install path/name/version that loads as a package of that name and version: the version the caller gave or the one the tool found prints, its metadata exactly as given whatever characters they contain, and commands that prepend exactly the directory of the executable. An existing definition is not overwritten by the library unless asked to, a tool that is unknown, missing, or outside the version range asked for is refused, names and versions never lead outside the install path, and a refused bind writes nothing.",
  ["inputs", "files on disk"], "all tools on PATH, names, versions, metadata, ranges and prior contents of the install path",
  "Tests bind one well-behaved python; exactness quantifies over what tools print, where they live and the texts that are quoted into the definition.",
  ["crates/rez-next-bind/src/", C+"bind/"], [("detection", "crates/rez-next-bind/src/detect.rs"), ("binder", "crates/rez-next-bind/src/binder.rs"), ("command", C+"bind/")],
  "trace monitor over written definitions, tools and trees", "Generated tools on PATH are bound by the real command and library; the written definition is loaded and compared, and trees are compared after refusals.")

prop("H01", "A dependency graph is what its history made it and finds cycles and conflicts",
  "A dependency graph holds exactly the packages, edges, exclusions, requirements and constraints that its history of calls put there: an excluded package is not added, a package added again replaces its namesake and keeps its edges, and an edge to a package that is not there is refused and changes nothing. Reachability is exactly the closure of the edges, a cycle is reported exactly when there is one and is one, and without one every package is listed once, before everything it depends on, in an order that does not change from one call to the next or with the order of insertion; the depth is that of the longest chain and the statistics count the graph. A conflict is reported exactly for a package required in two ways that share no version, names those requirements and who states them, and is settled for versions as its strategy says.",
  ["inputs", "histories"], "all histories of graph operations, requirement sets and conflict strategies",
  "Tests build graphs of two or three packages; consistency quantifies over histories with repeated, missing and cyclic packages.",
  ["crates/rez-next-solver/src/graph.rs", "crates/rez-next-solver/src/conflict.rs"], [("graph", "crates/rez-next-solver/src/graph.rs"), ("conflicts", "crates/rez-next-solver/src/conflict.rs")],
  "model-based history monitor beside the graph", "Generated histories of graph operations run beside a model; contents, order, depth and conflicts are compared after every step.")
prop("W01", "The shared helpers answer exactly, crash on no input and touch nothing else",
  "The shared helpers answer exactly and never crash. A command is found at its first runnable place on PATH and all places are listed in order; a leading tilde is the home directory; a command that is run returns its own output and status. Base26 names follow their sequence, and a short link, whatever the directory holds and however many are made at once, leads to its own source, is never shared, and is found again. Removing, copying, creating and probing paths do so to exactly the path named, following no link out and leaving every other file as it was. Durations, times, names and shortened texts are exact for all texts and numbers.",
  ["inputs", "histories", "schedules"], "all texts, numbers, trees, search paths and interleavings of link makers",
  "Tests call each helper once on tidy ASCII input; totality and exactness quantify over texts, sizes, existing files and races.",
  ["crates/rez-next-util/src/"], [("lookup", "crates/rez-next-util/src/which.rs"), ("links", "crates/rez-next-util/src/base26.rs"), ("files", "crates/rez-next-util/src/filesystem.rs")],
  "differential and stress monitor against independent readings", "Helpers are called on generated inputs, trees and threads; answers are compared with an independent reading and trees before and after.")
