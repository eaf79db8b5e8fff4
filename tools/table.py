TESTS = "The six existing tests sample small helper classes (configuration, counting, dependency list, database reading, repository reading, uname) on fixed inputs; none installs, removes or upgrades anything. "
TECH = "runtime monitoring: reference-model oracle over whole-tree snapshots of real ASan+UBSan executions"
NOTE = ("Held on the histories explored (counts in the evidence): random workloads, every state compared completely with an independent "
        "model. Trusts the model, libarchive, the kernel's tmpfs/overlayfs semantics; archives with top-level dot files and hard links "
        "combined with rules or with directory symlinks are not generated.")

P("C01", "A successful installation leaves exactly the package's content and record",
  "After an installation that reports success, every file, directory, symbolic link, hard link and FIFO of the package that the rules do not "
  "exclude is in place with the content, type, mode, owner and modification time of the archive, and the database holds exactly one record with "
  "the package's meta data, removal scripts and the sorted list of what was installed. Nothing else in the system has changed, and no temporary "
  "or meta-data file is left behind.",
  ["inputs", "histories", "configurations"],
  "all archives (member kinds, modes, owners, sizes, names, compression), all prior contents of the root and database, with and without an alternative root, any locale",
  TESTS + "The property quantifies over all archives and prior states.",
  ["pkgadd.cxx", "pkgdbh.cxx", "archive.cxx", "file_utils.cxx"],
  [("extraction of every member", "pkgdbh::installArchivePackage"), ("record of the package", "pkgdbh::moveMetaFilesPackage, pkgdbh::addPackageFilesRefsToDB")],
  TECH, NOTE, observe=["file system tree", "var/lib/pkg/DB"])

P("C02", "A refused operation changes nothing",
  "When an installation, upgrade or removal is refused (already installed, not installed, file conflict, wrong architecture, invalid rules file, failing "
  "pre-installation or pre-removal script) it exits with a failure status and a diagnostic. The installed files, the database and everything else are as they were before, "
  "except for what the package's own pre script did.",
  ["inputs", "histories", "configurations"],
  "all reasons for refusal, all prior states, options and roots",
  TESTS + "Each refusal can occur at any point of any history.",
  ["pkgadd.cxx", "pkgrm.cxx", "pkgdbh.cxx"],
  [("checks made before the first change", "pkgadd::run, pkgrm::run"), ("diagnostics", "pkgdbh::treatErrors")],
  TECH, NOTE)

P("C03", "Conflicts are all found, all listed, and forced through only on request",
  "An installation or upgrade that would overwrite a path which exists or belongs to another package, other than a directory or the package's own old files, is refused "
  "with every such path and no other listed. With the force option the operation goes on: the conflicting paths are taken out of the other packages' "
  "lists and nothing but them, so that each of those files has exactly one owner afterwards.",
  ["inputs", "histories"],
  "all overlaps between packages, unowned files in the way, files in place of directories, with rules and administrator changes",
  TESTS + "The overlaps arise from combinations of packages and prior states.",
  ["pkgdbh.cxx", "pkgadd.cxx"],
  [("search for conflicts in database and file system", "pkgdbh::getConflictsFilesList"), ("removal of references", "pkgdbh::removePackageFilesRefsFromDB")],
  TECH, NOTE)

P("C04", "Removal takes away exactly what no other package owns",
  "Removing an installed package deletes every file of its list that no other installed package also lists, and its then empty directories, and "
  "its record. Files and directories shared with another package, files inside its directories that it does not own, and all other records stay untouched.",
  ["inputs", "histories"],
  "all sets of overlapping packages, all orders of installation and removal, administrator changes in between",
  TESTS + "Ownership depends on the whole history.",
  ["pkgrm.cxx", "pkgdbh.cxx"],
  [("files still referenced are excluded", "pkgdbh::removePackageFiles"), ("bottom-up deletion", "pkgdbh::removePackageFiles")],
  TECH, NOTE)

P("C05", "An upgrade replaces the old version and keeps protected files",
  "After a successful upgrade the installed files and the record are those of the new version, files only in the old version are gone unless another "
  "package lists them, and the mark of an automatically installed package is carried over. An existing file protected by an upgrade rule keeps its content, mode and owner; "
  "the new version's variant is put into the reject directory exactly when it differs, and is announced.",
  ["inputs", "histories", "configurations"],
  "all pairs of versions, rule sets, and administrator changes (edited, deleted, replaced files) between them",
  TESTS + "The outcome depends on the triple old version, new version, current tree.",
  ["pkgadd.cxx", "pkgdbh.cxx", "file_utils.cxx"],
  [("list of kept files", "pkgadd::getKeepFileList"), ("old version's removal", "pkgdbh::removePackageFiles"), ("reject directory", "pkgdbh::installArchivePackage")],
  TECH, NOTE)

P("C06", "The last matching rule of pkgadd.conf decides for every path",
  "For every path of a package, the last INSTALL rule whose expression matches decides whether it is installed and recorded, and the last matching UPGRADE rule whether an "
  "existing file is kept; without a matching rule it is installed and replaced. Comments and blank lines have no effect, and a file with an invalid line is refused "
  "before anything changes.",
  ["configurations", "inputs", "histories"],
  "all rule files (order, overlap, comments, tabs, missing final newline, invalid lines) and all packages",
  TESTS + "Rules interact by order and overlap.",
  ["pkgdbh.cxx", "pkgadd.cxx"],
  [("parsing", "pkgdbh::readRulesFile"), ("application", "pkgadd::applyInstallRules, pkgadd::getKeepFileList"), ("match", "pkgdbh::checkRuleAppliesToFile")],
  TECH, NOTE)

P("C07", "Database and file system stay in step over any history of operations",
  "After any sequence of installations, upgrades, forced operations, refusals and removals, the set of installed packages, each package's recorded version, meta data and file list, "
  "and the tree are those the sequence defines. No operation disturbs the record or the files of a package it does not concern.",
  ["histories", "configurations"],
  "long histories (tens of operations) over several packages with shared paths, rules and administrator changes",
  TESTS + "Drift between database and tree shows only over histories.",
  ["pkgdbh.cxx", "pkgadd.cxx", "pkgrm.cxx"],
  [("database reading and writing", "pkgdbh::buildDatabase, pkgdbh::addPackageFilesRefsToDB, pkgdbh::removePackageFilesRefsFromDB")],
  TECH, NOTE)

P("C08", "With -r nothing outside the root is touched or decides anything",
  "With -r DIR, pkgadd, pkgrm and pkginfo change nothing outside DIR, whatever the archive, database or configuration contain, and no package database, configuration or installed file of the host "
  "influences the result: it is the one the same operation has on a system whose root DIR is. Tools run after an installation are those of DIR, run within DIR.",
  ["histories", "inputs", "configurations"],
  "all histories, archives (absolute, dot-dot, odd member names and link targets), options, configurations and host systems",
  TESTS + "No test compares with a populated host or watches the system calls.",
  ["pkgadd.cxx", "pkgrm.cxx", "pkgdbh.cxx", "process.cxx", "archive_utils.cxx"],
  [("paths below the root", "pkgdbh::m_root"), ("post-installation commands in the root", "process::executeShell"), ("configuration of the root", "pkgadd::readRulesFile")],
  "runtime monitoring: a system-call monitor records every path the instrumented tools read, write or execute over random histories against a decoy host; a confinement oracle and whole-tree snapshots judge them",
  "Random histories. Symbolic links inside the root that lead out of it are not generated (the tools follow them by design, as any package manager does).")

P("C09", "Concurrent operations act as if one after the other",
  "When several pkgadd and pkgrm processes work on one root at the same time, each either does its work completely or is refused, and the final tree, database and exit statuses are those of the "
  "accepted operations in some sequential order. A concurrent pkginfo reports a state that existed.",
  ["schedules", "histories"],
  "all interleavings of two or more operations, on related and unrelated packages",
  TESTS + "No test runs two processes.",
  ["pkgdbh.cxx", "pkgadd.cxx", "pkgrm.cxx", "lock.cxx"],
  [("mutual exclusion", "lock::lock, db lock"), ("database read under the lock", "pkgadd::parseArguments, pkgrm::parseArguments")],
  "runtime monitoring: concurrent executions with injected delays at system calls; an offline serialisability oracle searches an order of the reference model that explains statuses and final state",
  "Held on the interleavings explored (distinct lock orders and outcomes in the evidence); delays are random, not exhaustive.")

P("C10", "An operation killed at any point disturbs no other package and can be repeated",
  "When pkgadd or pkgrm is killed at any moment, every other package's files and record are intact and readable, and the record of the package "
  "concerned is the old one, the new one once all its files are there, or, if the package was not installed or is being removed, none. Repeating the operation then leads to exactly the state an undisturbed run leads to.",
  ["crash_points", "inputs", "histories"],
  "every modifying system call of an operation as the point of the kill, also in the middle of a write; all operations and prior states",
  TESTS + "No test interrupts anything.",
  ["pkgdbh.cxx", "pkgadd.cxx", "pkgrm.cxx"],
  [("transactional replacement of file lists", "pkgdbh::addPackageFilesRefsToDB, pkgdbh::removePackageFilesRefsFromDB"), ("order of removal", "pkgrm::run"), ("clean-up of leftovers", "pkgdbh::cleanupMetaFiles")],
  "runtime monitoring: a ptrace/seccomp monitor kills the real tool at its N-th modifying system call; reference-model oracle on the state left and on the repeated operation",
  "A kill of the process at (a sample of, in the thorough tier nearly all) modifying system calls; not a loss of power. No scripts and no UPGRADE rules in these cases.")

P("C11", "A failing system call is reported and damages nothing else",
  "When a system call of pkgadd or pkgrm fails (full disk, I/O error, missing permission, too many open files), the tool ends in an orderly way, and either the operation "
  "has its whole effect or the failure is announced. Other packages' files and records stay intact, and repeating the operation without the fault leads to its full result.",
  ["fault_sequences", "inputs", "histories"],
  "every system call that reads or changes files, each with the errors it can meet, once or from there on; all operations and prior states",
  TESTS + "No test makes a system call fail.",
  ["pkgdbh.cxx", "pkgadd.cxx", "pkgrm.cxx", "file_utils.cxx"],
  [("results of calls are checked", "pkgdbh::addPackageFilesRefsToDB, pkgdbh::moveMetaFilesPackage"), ("reading the database", "pkgdbh::buildDatabase, parseFile")],
  "runtime monitoring: a ptrace/seccomp monitor injects errors into single system calls of the ASan+UBSan-instrumented tools; reference-model oracle on status, messages and state",
  "A sample of (in the thorough tier nearly all) file-related system calls. Failures of setting a directory's mode, owner or times when the archive is closed are ignored inside libarchive and not injected.")

P("C12", "Package scripts run at the right moment, and a failing one counts",
  "A package's pre- and post-installation and pre- and post-removal scripts run exactly once, the installation scripts in the installation root, before respectively after the files change; "
  "a failing or killed pre script prevents the operation, a failing post script is told and undoes nothing. No script of another package runs, and the removal scripts are recorded and removed with the package.",
  ["inputs", "histories", "configurations"],
  "all combinations of scripts, exit statuses and signals, operations, options and roots",
  TESTS + "No test runs a script.",
  ["pkgadd.cxx", "pkgrm.cxx", "pkgdbh.cxx", "process.cxx"],
  [("pre and post installation", "pkgadd::preRun, pkgadd::postRun"), ("removal", "pkgrm::preRun, pkgrm::postRun"), ("execution", "process::execute, process::executeShell")],
  "runtime monitoring: scripts record their own execution and the tree they see; the log is checked against the specified order, the state against the reference model",
  "Random scripts and states; the tools' own post-installation commands (ldconfig and the like) are replaced by recording stand-ins.")

P("C13", "A damaged or unfit archive is refused as a whole",
  "A file that is no complete, readable package (cut short, corrupted in a compressed stream that carries checksums, without meta data, of another format) is refused by pkgadd with a "
  "failure status before anything in the system changes. An archive that is accepted is installed completely: never is a package recorded with files missing that the archive was to bring.",
  ["inputs"],
  "all damage to archives: truncation at every offset, flipped, zeroed and appended bytes, missing members, in every compression; all prior states, install and upgrade",
  TESTS + "Damage can be anywhere in the file.",
  ["pkgdbh.cxx", "pkgadd.cxx", "archive.cxx", "archive_utils.cxx"],
  [("the whole archive is read before the first change", "pkgdbh::assertArchiveComplete"), ("meta data of the archive", "pkgdbh::openArchivePackage")],
  TECH.replace("whole-tree snapshots", "whole-tree snapshots after additions of damaged archives"),
  "Random damage. Corruption that neither the tar headers' nor a compression's checksum can reveal (flipped content bytes in a plain or gzip-less tar) is not generated.")

P("C14", "pkginfo tells the truth about every state",
  "For every state that installations, upgrades and removals lead to, each query of pkginfo (installed packages, files of a package or archive, owners of paths, details, dependencies, "
  "sizes, sets, aliases, build dates) reports exactly what the database, the archive and the file system say, below the root given with -r. A query about an unknown package or unreadable archive fails, and none changes anything.",
  ["histories", "inputs", "configurations"],
  "all histories, all query options and patterns, names, aliases and archives, with and without -r, any locale",
  TESTS + "The answers depend on the history; the tests read one fixed database.",
  ["pkginfo.cxx", "pkgdbh.cxx", "archive.cxx", "db.cxx"],
  [("queries", "pkginfo::run"), ("reading the database", "pkgdbh::buildDatabase")],
  "runtime monitoring: an independent reader of the state answers each query and is compared with the output of the ASan+UBSan-instrumented pkginfo on random histories",
  "Held on the queries explored (counts in the evidence). Wording around the facts is not judged.")

P("C15", "No input makes the package tools crash or misuse memory",
  "Whatever an archive, the installed-package database, a rules file, the files of the root or the command line contain, pkgadd, pkgrm and pkginfo end by themselves with an exit status, and with a message "
  "when it is a failure: never with a memory error, undefined behaviour, an uncaught exception or an endless loop. Nothing outside the root is changed.",
  ["inputs", "configurations"],
  "all byte sequences as archive, META, files, pkgadd.conf; all shapes of the database directory and the root; all command lines",
  TESTS + "The hostile inputs are unlimited.",
  ["pkgadd.cxx", "pkgrm.cxx", "pkginfo.cxx", "pkgdbh.cxx", "db.cxx", "archive.cxx", "archive_utils.cxx", "string_utils.cxx", "file_utils.cxx"],
  [("reading archives", "pkgdbh::openArchivePackage, archive::archive"), ("reading the database", "pkgdbh::buildDatabase"), ("reading rules", "pkgadd::readRulesFile")],
  "runtime monitoring: ASan+UBSan and libstdc++ assertions, valgrind memcheck for uninitialised values, on structure-aware hostile inputs of all kinds to all three tools",
  "Held on the inputs explored. Inputs that exhaust memory (decompression bombs, exploding expressions) are not generated.")

P("C16", "No input makes cards crash or misuse memory",
  "Whatever metadata, keys, signatures, archives, ports, configuration, database and arguments cards is given, and whatever a mirror answers, every command ends with an answer or an error message and a matching exit code: "
  "no crash, no uncaught exception, no endless loop, no invalid memory access, no undefined behaviour. Purge and sync touch no file outside the configured depots, and questions change nothing.",
  ["inputs", "configurations"],
  "all bytes of all files cards reads, all answers of a mirror, all arguments",
  TESTS + "They read well formed files only.",
  ["cards.cxx", "cards_argument_parser.cxx", "conf.cxx", "pkgrepo.cxx", "pkgfile.cxx", "sync.cxx", "dwl.cxx", "list.cxx", "search.cxx", "query.cxx", "files.cxx", "info.cxx", "install.cxx", "remove.cxx", "upgrade.cxx", "diff.cxx"],
  [("metadata", "pkgrepo::parse, list::parse, search::parse, query::parse, files::parse"), ("configuration", "conf::parse"), ("ports", "pkgfile::parse"), ("keys and signatures", "pkgrepo::checkSign, sign.cxx")],
  "sanitizers (ASan, UBSan) and valgrind memcheck on mutated and generated metadata, configurations, databases, ports, keys and arguments, a hostile mirror, and file snapshots for what must not change",
  "Held on the inputs explored (counts in the evidence). ASan and UBSan on every case, memcheck for reads of uninitialised memory on a part of them. Leaks are not judged.")

P("C17", "Needed and provided libraries of ELF files are found, whatever the files are",
  "For every file of a package, the libraries it needs (DT_NEEDED) and provides are those of its dynamic section, for 32 and 64 bit objects; pkginfo attributes each needed library to the "
  "installed packages that have a file of that name. A damaged or hostile ELF file, a link, FIFO or directory in its place leads to no crash, hang or read outside the file.",
  ["inputs"],
  "all ELF files and all malformations of them, all file names, all package layouts",
  "The tests read no ELF file; malformations are unlimited.",
  ["runtime_dependencies_utils.cxx", "file_utils.cxx", "pkginfo.cxx"],
  [("dynamic section", "runtime_dependencies_utils.cxx getRuntimeLibrariesList"), ("attribution", "pkginfo::run")],
  "runtime monitoring: ASan+UBSan-instrumented pkginfo on generated and mutated ELF files; answers compared with what the generator put in",
  "Generated little-endian objects and random mutations of them; big-endian objects are only checked for memory safety.")

CTECH = ("runtime monitoring: random histories of real ASan+UBSan cards commands against file:// and HTTP mirrors; exit status, order of what is done, "
         "scripts run, whole tree, database and depots compared with a reference model after every command")
CNOTE = ("Held on the histories explored (counts in the evidence): up to ten packages in up to four collections. Trusts the model, libcurl, OpenSSL, zstd and libarchive. "
         "Archives given by hand are not mixed with names in one command.")

P("C18", "cards install installs exactly what is asked for and what that needs, in order",
  "After a successful cards install the packages asked for (by name, set, collection or archive file), all packages they need directly or indirectly that are not installed in the build they want, and the packages of "
  "the configured groups and locales that belong to them are installed, each after those it needs unless they need each other, and nothing else has changed. What came only as a dependency is marked as such, "
  "and nothing asked for or installed before is. If a name is unknown, a dependency is missing or a package can not be had, it fails with a message and installs nothing.",
  ["inputs", "histories", "configurations"],
  "all dependency graphs (with cycles, shared and missing dependencies), sets, groups, collections, installed states, orders of arguments and options",
  TESTS + "The result depends on the dependency graph and the history.",
  ["install.cxx", "pkgrepo.cxx", "pkgadd.cxx", "pkgdbh.cxx"],
  [("arguments", "install::parseArguments, install::getLocalePackagesList"), ("closure and order", "pkgrepo::generateDependencies, pkgrepo::addDependencies")], CTECH, CNOTE)

P("C19", "cards remove removes what is asked for and what nothing needs any more, or nothing",
  "A successful cards remove removes the packages named (by name, alias, set, collection or group), their packages of the configured groups, and every package installed as a dependency that no package installed on request needs any longer, directly or indirectly; "
  "nothing else. It is refused, with a message and with nothing changed, when a package asked for is unknown or a runtime dependency of an installed package, or, without force, belongs to the base system.",
  ["inputs", "histories", "configurations"],
  "all installed sets with their dependency graphs and marks, all arguments",
  TESTS + "Which packages become orphans depends on the whole dependency graph and history.",
  ["remove.cxx", "pkgrm.cxx", "pkgdbh.cxx"],
  [("arguments and refusals", "remove::remove"), ("what is still needed", "pkgrm::getListOfManInstalledPackages, pkgrm::getDirectDependencies")], CTECH, CNOTE)

P("C20", "cards upgrade brings the system to the state of the collections, and diff tells how far it is",
  "After cards upgrade every installed package that a collection offers in a newer build is installed in that build, with new dependencies (marked as such) and the packages of the configured groups, every package installed as a dependency that no collection offers any more is "
  "removed, all else is unchanged and the downloaded archives are gone. An upgrade of more than 20 % of the packages without --proceed changes nothing. cards diff and upgrade --check and --size report the numbers, names, versions and sizes of the "
  "packages that differ correctly and change no installed package.",
  ["histories", "configurations"],
  "all installed states, all publications in between, orders of collections, thresholds",
  TESTS + "The states arise from histories of publications and installations.",
  ["upgrade.cxx", "diff.cxx", "pkgrepo.cxx", "install.cxx", "conf.cxx"],
  [("comparison with the collections", "diff::diff"), ("upgrade", "upgrade::upgradePackages")], CTECH, CNOTE)

P("C21", "A package from a mirror is installed only if its signature is genuine",
  "From a collection that has an url, cards installs or upgrades a package only if the signature listed for it is a valid Ed25519 signature, by the collection's public key, of the SHA-512 of the very archive that is installed, whatever lies on the mirror or in the depot. "
  "Otherwise it fails with a message before anything is installed. An archive in the depot that does not have the listed hash sum is downloaded again, and what is genuine is not refused.",
  ["inputs", "fault_sequences", "histories"],
  "all manipulations of archives, signatures, hash sums, keys and metadata on the mirror and in the depot, all transfer failures",
  TESTS + "No test verifies a signature.",
  ["pkgrepo.cxx", "dwl.cxx", "install.cxx", "upgrade.cxx"],
  [("download and verification", "pkgrepo::directDependencies, pkgrepo::checkSign, pkgrepo::checkHash")], CTECH,
  CNOTE + " The metadata itself is not signed in cards: what is verified is each archive.")

P("C22", "cards sync fetches each collection's metadata or fails; purge frees the depots",
  "After a successful cards sync each collection with an url has, in its depot, the public key and the metadata as its mirror has them, unpacked; directories without an url and everything else are unchanged. When something can not be had or unpacked it fails with a message. "
  "cards purge removes the downloaded archives of the collections with an url, and nothing else.",
  ["histories", "fault_sequences", "configurations"],
  "all configurations of collections, states of mirror and depot, transfer failures",
  TESTS + "No test synchronises anything.",
  ["sync.cxx", "dwl.cxx", "conf.cxx"],
  [("fetching and unpacking", "sync::run, sync::uncompress"), ("purge", "conf::purge")], CTECH, CNOTE)

P("C23", "Queries about what is offered and installed are answered from the metadata",
  "cards list -b and -S, search, info -b and -S, files -b and query -b answer exactly what the metadata of the configured collections say (names, versions, hash sums, signatures, sets, groups, dependencies, files; search: every package of which one of the documented fields contains the expression, ignoring case), "
  "the directory listed first in cards.conf having precedence where one package is meant; without -b, list (what was asked for), info, files and query answer exactly what the database says. They change nothing.",
  ["histories", "inputs", "configurations"],
  "all contents of collections, expressions, names, orders of directories",
  TESTS + "The repository test reads one fixed file.",
  ["list.cxx", "search.cxx", "info.cxx", "files.cxx", "query.cxx", "pkgrepo.cxx", "conf.cxx"],
  [("reading the metadata", "pkgrepo::parse, list::parse, search::parse"), ("files", "query::parse, files::parse")], CTECH, CNOTE)

P("C24", "Ports are ordered so that each comes after those it needs",
  "For every tree of ports, cards level lists each port exactly once, in a level above all the ports its recipe needs (the lowest such level), and warns of each dependency there is no port for; cards depends lists the ports a port needs directly or indirectly in an order they can be built in, "
  "cards deptree shows exactly these dependencies as a tree, and cards dependent exactly the ports that need it directly. Of a port in several collections the one of the directory listed first counts, an unknown port is an error, and nothing is changed.",
  ["inputs", "configurations"],
  "all dependency graphs of ports (with missing ones, subpackages, cycles), all ways of writing a recipe, all orders of collections",
  TESTS + "The tests of ports read a tree that is not in the repository.",
  ["pkgfile.cxx", "level.cxx", "depends.cxx", "deptree.cxx", "dependent.cxx", "conf.cxx"],
  [("reading of recipes", "pkgfile::parse"), ("levels", "pkgfile::generate_level, pkgfile::confirmDependencies"), ("answers", "level::level, depends::showDepends, depends::deptree, dependent::dependent")],
  "runtime monitoring: cards of the tree under ASan and UBSan on generated trees of ports; every answer compared with a reference model of the recipes",
  "Held on the trees explored. Which level the ports of a cycle get is left open. Recipes are plain assignments of words: no shell expansions, no quotes in lists.")

P("C25", "A cards command killed at any point leaves packages whole and can be repeated",
  "When cards install, remove, upgrade, sync or purge is killed at any moment, every package is completely what it was before or completely what it is to become, except the single one being worked on; no package stands there without those it needs, downloads and metadata are complete or recognisably not. "
  "Everything else is unchanged and the database readable. Repeating the command (naming what was interrupted where the command no longer concerns it) leads to exactly the state an undisturbed run leads to.",
  ["crash_points", "histories", "configurations"],
  "every modifying system call of a command as the point of the kill, also in the middle of a write; all commands, packages and prior states",
  TESTS + "No test interrupts anything.",
  ["install.cxx", "upgrade.cxx", "remove.cxx", "pkgadd.cxx", "pkgdbh.cxx", "sync.cxx", "dwl.cxx", "pkgrepo.cxx"],
  [("order of the packages", "install::install, upgrade::upgradePackages, pkgrepo::generateDependencies"), ("record of a package", "pkgdbh::moveMetaFilesPackage, pkgdbh::addPackageFilesRefsToDB"), ("downloads that were broken off", "pkgrepo::downloadPackageFileName, sync::run")],
  "runtime monitoring: a ptrace/seccomp monitor kills cards at its N-th modifying system call; every package judged against the states before and after an undisturbed run, and the result of repeating the command",
  "A kill of the process at a sample of the modifying calls; not a loss of power. Packages without scripts and files in common. Packages of a group, and archives for purge, come with a later command where a repeated one has nothing to do.")

P("C26", "A failing system call of a cards command is reported and damages nothing else",
  "When a system call of cards install, remove, upgrade, sync or purge fails (full disk, I/O error, missing permission, too many open files), the command ends in an orderly way, and has its whole effect or announces the failure on the error output. "
  "What the command does not concern stays intact, and repeating it without the fault (again installing a package some files of which were said to be missing) leads to its full result.",
  ["fault_sequences", "histories", "configurations"],
  "every system call that reads or changes files, each with the errors it can meet, once, from there on, for that call or that path; all commands and prior states",
  TESTS + "No test makes a system call fail.",
  ["install.cxx", "upgrade.cxx", "remove.cxx", "pkgadd.cxx", "pkgdbh.cxx", "sync.cxx", "dwl.cxx", "pkgrepo.cxx", "conf.cxx", "file_utils.cxx"],
  [("reading the configuration and the metadata", "conf::parseConfig, pkgrepo::parse"), ("downloads", "dwl, sync::run, pkgrepo::checkHash"), ("purge", "conf::purge"), ("records", "pkgdbh::moveMetaFilesPackage")],
  "runtime monitoring: a ptrace/seccomp monitor injects errors into system calls of the ASan+UBSan-instrumented cards; oracle on status, messages, the state left and the repeated command",
  "A sample of the file-related calls. Not injected: setting modes, owners and times of directories (ignored inside libarchive) and reads of the mirror itself (ignored inside libcurl).")

P("C27", "What cards repo publishes is exactly the archives, signed, and whole",
  "cards keys writes a fresh matching key pair, the private one readable by its owner only; cards repo publishes an index (.REPO, .FILES, compressed forms) listing exactly the archives of the named collection, or of all, each with its metadata, files, hash, size and a valid signature, ready to be synchronized and installed elsewhere. "
  "Without the private key it tells exactly the packages whose signature is not valid, and fails when there is one. "
  "When an archive, key or directory cannot be used, a system call fails, or it is killed, each index file is what it was or the complete new one, and a failure is told.",
  ["inputs", "histories", "crash_points", "fault_sequences", "configurations"],
  "all archives, collections, key pairs and tamperings; every kill and failing system call of a publication",
  TESTS + "No test calls cards keys or cards repo.",
  ["repo.cxx", "pkgrepo.cxx", "archive.cxx", "conf.cxx", "file_utils.cxx"],
  [("publishing and checking", "repo::repo, repo::compress"), ("keys, hashes and signatures", "pkgrepo::generateKeys, generateHash, generateSign, checkSign"), ("metadata of an archive", "archive::archive, archive::extractFileContent")],
  "runtime monitoring: histories of a publisher on the ASan+UBSan-instrumented cards, as an ordinary user; an independent parser, hash and ed25519 oracle reads every index and key, a consumer synchronizes and installs from it; kills and faults by the ptrace/seccomp monitor",
  "Archives directly in the collection's directory, one per package. A kill of the process, not a loss of power. The key pair itself is written in place.")
P("C28", "pkgmk packs what a port installs, each file in exactly one package",
  "A successful pkgmk leaves packages which together contain each file the port's functions installed exactly once, in the package of its group or locale or the main one, with content, mode, owner and links kept, plus the scripts of the port, a file list, metadata and dependencies as the Pkgfile, configuration and options say; .REPO and .FILES describe exactly these packages and leave the other ports' entries alone, footprints are compared and recorded. "
  "What is up to date is not built again unless forced; questions, downloads and cleaning touch only what they are for. "
  "A build that fails for any reason says so, exits non-zero and leaves packages and index as they were.",
  ["inputs", "configurations", "histories"],
  "all ports (trees, functions, groups, locales, metadata, sources, failures), configurations, option combinations and histories of builds and changes",
  TESTS + "pkgmk is a script no test runs.",
  ["scripts/pkgmk.in", "pkginfo.cxx", "runtime_dependencies_utils.cxx"],
  [("splitting into groups and locales", "scripts/pkgmk.in: build_package, pack_lib/devel/doc/man/service"), ("metadata", "scripts/pkgmk.in: add_meta_files, add_meta_to_archive"),
   ("index, footprints, up to date", "scripts/pkgmk.in: update_repo_file, check_footprint, build_needed"), ("run time dependencies and libraries", "pkginfo.cxx: --runtimedepfiles, --runtimelibs, --footprint")],
  "runtime monitoring: the script of the tree with the ASan+UBSan-instrumented package tools on generated ports in a jail; an independent reader of archives, index and footprints compares every file, line and the rest of the system with a model of what the port installed",
  "GNU tar stands in for bsdtar, which is not installed. Sources are local files or file: URLs; no git sources; PKGMK_DEPENDS (installing dependencies for the build) is not used.")

P("C29", "pkgmk interrupted or with a failing tool never leaves a half made package",
  "When pkgmk is killed at any point, or one of the programs it calls fails, every package that stands under its name is whole, either the one before or completely the new one, and the main package only stands there with all its subpackages. "
  "The index entries of other ports and everything outside the port's packages, sources and work directory stay as they were; pkgmk succeeds only when all packages are whole and indexed, and says so otherwise. "
  "The same command repeated completes the packages and leaves no temporary files.",
  ["crash_points", "fault_sequences", "configurations"],
  "every program pkgmk calls as the point of the kill (before, during, after) or as the one which fails (without effect, after it, half way, from there on); all ports, configurations, options and states of the package directory",
  TESTS + "pkgmk is a script no test runs, and nothing interrupts it.",
  ["scripts/pkgmk.in"],
  [("packages replaced when complete", "scripts/pkgmk.in: replace_binaries, clean_old_binaries, abort_on_build"), ("index replaced when complete", "scripts/pkgmk.in: update_repo_file"), ("compression", "scripts/pkgmk.in: compress_package")],
  "runtime monitoring with injected faults: stand-ins on the PATH number the programs pkgmk calls, and kill it or fail at the chosen one; an independent reader judges every package and index left, and what the repeated command makes of it",
  "A kill comes at, during or after a called program, not between two builtins of the shell; not a loss of power. Failures of gzip on manual pages, of footprints and of programs that only format messages are not judged. With PKGMK_CLEAN=no only.")

P("C30", "cards create builds a port among its dependencies and nothing else",
  "While `cards create PORT` runs pkgmk, in the directory of the port, the system consists of the packages of the sets chroot and devel and of the packages (with those of the configured groups) of all ports the recipe needs, directly or not, installed in the order of their levels; afterwards all packages of the port are installed, in place of their former builds. "
  "Outside the build chroot, for an unknown port, a dependency without a package or a recipe that fails the command fails with a message, installs nothing of the port and, when it can tell before, runs no recipe; the log holds all the recipe printed. "
  "With the name of a collection it builds, in the order of their levels, exactly the ports without an up to date package and deletes the packages without a port, and --dry only tells what would be built.",
  ["programs", "histories", "configurations"],
  "every tree of ports, state of the depot and the system, way a recipe ends, and sequence of such commands",
  TESTS + "cards create is in no test: it removes most of the system it runs on.",
  ["src/create.cxx", "src/pkgfile.cxx", "src/pkgrepo.cxx", "src/process.cxx", "src/pkgdbh.cxx"],
  [("base, dependencies, the built packages", "src/create.cxx: core, base, installDependencies, buildBinary"), ("which ports of a collection", "src/create.cxx: buildCollection, checkBinaries; src/pkgfile.cxx: getListOfPackagesFromCollection"), ("the log", "src/process.cxx: execShellLog")],
  "runtime monitoring: a stand-in for pkgmk stops in the middle of every build and hands over to an oracle which compares the whole system with a model, then plays the recipe; again after every command",
  "Local collections only. The mark of what was installed as a dependency and the advice about missing shared libraries are not judged; --root and --no-meta are not exercised.")

P("C31", "cards.conf means what its manual says",
  "For every cards.conf and nutyx-version, cards config tells exactly the collections, mirrors, release, architecture, locales and groups the lines of the two give: a comment starts at #, directories and groups count in the order they are written, depot, url and version the first time they are given, and a directory without its own depot or mirror gets the common one. "
  "Unknown keys and lines without a value say nothing, a missing file is an empty one, --conf names another file, and a file that is there but cannot be read is an error.",
  ["inputs", "configurations"],
  "all configuration files of keys, values, comments and blanks, and all states of the two files",
  TESTS + "The test of conf reads one file.",
  ["src/conf.cxx", "src/cards.cxx"],
  [("reading the two files", "src/conf.cxx: conf::parseConfig"), ("telling what they mean", "src/cards.cxx: CMD_CONFIG")],
  "runtime monitoring: cards of the tree under ASan and UBSan on generated configurations; the answer compared with an independent reading of the files",
  "Held on the configurations explored. A group, locale or logdir without a value, and blanks before the key, are left open.")

P("C32", "A command line is done as said, or refused without a trace",
  "A line of cards, pkgadd, pkgrm or pkginfo with an unknown command or option, an option without its value, too few or too many arguments is refused with a message and a failure, and it changes no file, whatever valid options stand in it; a line asking for help or the version is answered and changes nothing either. "
  "The short form, the long form, the repetition and the place of options make no difference to what a command answers or does, and with --root nothing but that root is changed.",
  ["inputs", "histories"],
  "all command lines over the commands, options and arguments, on any installed system",
  TESTS + "No test goes through the command lines.",
  ["src/argument_parser.cxx", "src/cards_argument_parser.cxx", "src/tools.cxx", "src/pkgadd.cxx", "src/pkgrm.cxx", "src/pkginfo.cxx", "src/pkgdbh.cxx"],
  [("lines of cards", "src/argument_parser.cxx: ArgParser::parse; src/cards_argument_parser.cxx: CardsArgumentParser"), ("lines of the tools", "src/tools.cxx: main; pkgadd, pkginfo, pkgdbh: parseArguments")],
  "runtime monitoring: generated command lines under ASan and UBSan on installed systems; verdicts of a grammar written from the manuals, all files compared before and after, and pairs of equivalent lines compared in answer and effect",
  "Held on the lines explored. Options of another command than the given one, and values given to options without one, are not judged.")
P("C33", "cards commands at the same time leave every package and index whole",
  "Whatever cards commands (install, upgrade, sync, remove and questions) run at the same time, with whatever interleaving, afterwards every installed package is in record and files one that a mirror offered, no file is left without a package, and every index is whole: what it was or what the mirror has; downloaded archives are complete. "
  "A command that succeeded has had its effect, one that cannot have the database says so, and sync does not fail because of others. "
  "What is read meanwhile is of packages there were before or are afterwards.",
  ["schedules", "histories"],
  "all interleavings of two to four commands of cards, on any system, mirrors and changes of the mirrors",
  TESTS + "No test runs two commands at a time.",
  ["src/pkgadd.cxx", "src/pkgdbh.cxx", "src/install.cxx", "src/upgrade.cxx", "src/sync.cxx", "src/dwl.cxx", "src/list.cxx", "src/search.cxx", "src/lock.cxx"],
  [("archives read while others purge", "src/pkgadd.cxx: pkgadd::run"), ("downloads and indexes replaced when complete", "src/dwl.cxx: dwl::get; src/sync.cxx: sync::uncompress"), ("the lock", "src/lock.cxx: lock::lock; src/pkgdbh.cxx: reloadDatabase")],
  "runtime monitoring: overlapping commands under ASan and UBSan with delays injected before their system calls, an offline oracle over the outcome of each round against every package there ever was on the mirrors",
  "Held on the interleavings explored. Republished archives which the index does not know yet may make an install fail; upgrades purge archives which an install still needs: it fails cleanly.")
P("C34", "A signal changes a package completely or not at all",
  "When pkgadd, pkgrm or a cards command that installs, removes, upgrades or synchronises gets HUP, INT, QUIT or TERM, or the reader of its output goes away, at whatever moment, every package, with its files and its record, is as before or as after its change, and every index is what it was or what the mirror has. "
  "A command that is not ended by the signal does all it was to do and succeeds. "
  "Signals ignored by the caller, as under nohup, do not end it.",
  ["crash_points", "histories", "schedules"],
  "every system call at which such a signal can arrive, once or at each call from there on, with every operation on every state",
  TESTS + "No test sends a signal.",
  ["src/lock.cxx", "src/pkgadd.cxx", "src/pkgrm.cxx", "src/install.cxx", "src/upgrade.cxx", "src/remove.cxx", "src/dwl.cxx", "src/sync.cxx"],
  [("signals while the database is locked", "src/lock.cxx: lock::lock, lock::~lock"), ("what is done under the lock", "src/pkgadd.cxx: run; src/pkgrm.cxx: run; src/upgrade.cxx: upgradePackages")],
  "runtime monitoring with injected signals: the operation runs under a tracer which sends the signal at a chosen system call; the whole tree is compared with the state before and after, and for cards every package with what the mirrors had",
  "Packages without scripts; a post-installation script or tool may be missed by an operation ended after its package is complete. Other signals end a program anywhere: see C10 and C25.")
