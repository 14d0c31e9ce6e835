T6 = "The six stable tests read one fixed database and configuration; none of them installs, upgrades or removes anything. "
P("C01", "Removing or upgrading a package never touches files another package owns",
  "When a package is removed, upgraded or force-installed, no file or directory that is recorded as owned by another installed package (and is not taken over by the package being installed) is deleted or modified. The records of the other packages stay byte for byte as they were.",
  "inputs histories configurations", "for every content of the installed packages' file lists (any overlap, any order, directories and files, links and special files), any package attributes, with and without an alternative root",
  T6 + "The overlap of the lists is what decides, and it is unbounded.",
  ["pkgdbh.cxx", "pkgrm.cxx", "pkgadd.cxx"], [("files still referenced by another package are excluded before deleting", "src/pkgdbh.cxx pkgdbh::removePackageFiles"), ("keep list of an upgrade", "src/pkgadd.cxx pkgadd::run")])
P("C02", "Removing a package removes exactly what it alone owns, and its record",
  "After a successful removal every file recorded only for that package is gone, every directory recorded only for it is gone unless it still holds something, and its database record is gone. Nothing that the package does not own is created, changed or deleted. An upgrade likewise deletes the files which only the old version owned.",
  "inputs histories configurations", "for every content of the file lists, kind of file system object behind a listed name, package attributes and root directory",
  T6 + "Which files may go depends on the lists of all other packages.",
  ["pkgdbh.cxx", "pkgrm.cxx"], [("reverse order deletion", "src/pkgdbh.cxx pkgdbh::removePackageFiles"), ("record deletion", "src/pkgdbh.cxx pkgdbh::removePackageFilesRefsFromDB")])
P("C03", "A package whose files conflict is refused and leaves no trace",
  "Installing or upgrading without force fails with a non-zero status whenever a non-directory file the package would install exists on disk (whatever its kind, dangling links included) or is recorded for another package, unless the old version of the package owns it. A refused installation changes no file and no record.",
  "inputs histories configurations", "for every pair of file lists, every kind of pre-existing object, fresh installs and upgrades, install-excluded files, any root; packages without a pre-install script",
  T6 + "A conflict is a relation between arbitrary file sets and the state of the disk.",
  ["pkgadd.cxx", "pkgdbh.cxx"], [("conflict list against database and file system", "src/pkgdbh.cxx pkgdbh::getConflictsFilesList"), ("refusal", "src/pkgadd.cxx pkgadd::run")])
P("C04", "After an installation the record and the disk both equal the package",
  "A successful installation puts every file of the package that no rule excludes on disk with the content, type, mode and owner it has in the package, and records exactly those files and the package's metadata for it. No file outside the package is touched and no metadata file is left in the root directory.",
  "inputs histories configurations", "for every file list, kind of file, previous state of the names, install, forced install, upgrade and forced upgrade, any root, any install rules",
  T6 + "They never extract a package.",
  ["pkgadd.cxx", "pkgdbh.cxx", "archive.cxx"], [("extraction", "src/pkgdbh.cxx pkgdbh::installArchivePackage"), ("recording", "src/pkgdbh.cxx pkgdbh::addPackageFilesRefsToDB, moveMetaFilesPackage")])
P("C05", "An upgrade never overwrites a file its rules protect",
  "During an upgrade, a file that exists and whose last matching upgrade rule says NO is left exactly as it is, also by a forced upgrade, and the version in the package is saved under the rejected area instead. A file that is not protected is never put into the rejected area.",
  "inputs histories configurations", "for every set of upgrade and install rules (order, event, action, matching behaviour), old and new file lists, forced and unforced upgrades, any root",
  T6 + "The outcome depends on the order and matching of arbitrary rules.",
  ["pkgadd.cxx", "pkgdbh.cxx"], [("keep list", "src/pkgadd.cxx pkgadd::getKeepFileList"), ("diversion to the rejected area", "src/pkgdbh.cxx pkgdbh::installArchivePackage")])
P("C06", "The last matching install or upgrade rule decides, the default is yes",
  "For each file of a package the last rule of the rules file with the event in question whose pattern matches the file name decides; without a matching rule the answer is yes. A file excluded by an install rule is neither put on disk nor recorded nor a reason for a conflict; a file that is not excluded is installed and recorded.",
  "inputs configurations", "for every sequence of rules over all events and actions with any matching behaviour, comments, blank lines, separators and a missing final newline",
  T6 + "Rule order and matching combine freely.",
  ["pkgadd.cxx", "pkgdbh.cxx"], [("rule file parser", "src/pkgdbh.cxx pkgdbh::readRulesFile"), ("rule selection", "src/pkgadd.cxx pkgadd::applyInstallRules, getInstallRulesList")])
P("C07", "A forced installation transfers ownership: no file ends up with two owners",
  "After a forced installation, each file the package took over is recorded for that package only, whichever and however many packages owned it before. Every other entry in the records of the other packages, directories included, and their metadata are unchanged.",
  "inputs histories configurations", "for every overlap of the file lists of the new package and the installed ones, installs and upgrades, any package attributes and root",
  T6 + "Ownership after a takeover depends on all lists.",
  ["pkgadd.cxx", "pkgdbh.cxx"], [("reference removal", "src/pkgdbh.cxx pkgdbh::removePackageFilesRefsFromDB(set,set)"), ("forced path", "src/pkgadd.cxx pkgadd::run")])

P("C08", "The manual or automatic mark of a package survives upgrades",
  "A package installed on request is recorded as manually installed. Upgrading a package keeps the mark it had, manual or automatic. No other package's mark changes.",
  "inputs histories configurations", "for every previous mark, package attributes, forced or plain upgrade, any root",
  T6 + "The mark decides what autoremove deletes later.",
  ["pkgadd.cxx", "pkgdbh.cxx", "install.cxx"], [("mark written at the end of the metadata", "src/pkgdbh.cxx pkgdbh::moveMetaFilesPackage")])
P("C09", "Autoremove deletes exactly the automatic packages nothing manual needs",
  "After 'cards remove', the packages that remain are exactly the manually installed ones that were not requested, and everything these need directly or through other packages; automatic packages nothing needs any more and sub packages (in the configured groups) of removed packages are gone. No file or record of a package that stays is changed.",
  "inputs histories configurations", "for every dependency graph including cycles, every manual/automatic marking, sub packages, requests by name, alias or collection, any root",
  T6 + "Reachability over arbitrary graphs.",
  ["remove.cxx", "pkgrm.cxx", "pkgdbh.cxx"], [("reachability from the manual packages", "src/pkgrm.cxx pkgrm::getListOfManInstalledPackages, getDirectDependencies"), ("obsolete dependencies", "src/remove.cxx cards::remove::remove")])
P("C10", "Removal of needed or base packages is refused and changes nothing",
  "'cards remove' of a package another installed package depends on is refused; without force so is a package of the base collection, whether named directly, by alias or as a member of a set and at whatever position of the request. So is a request that names something that is not installed. A refused request exits non-zero and changes no file and no record; an admissible one removes the requested packages, every member of a requested set included.",
  "inputs histories configurations", "for every dependency graph, collection and set membership, alias use, order of several requested names, forced or not, any root",
  T6 + "The guards must hold for every database.",
  ["remove.cxx"], [("dependency guard and base guard", "src/remove.cxx cards::remove::remove")])

P("C11", "The system is changed only under the exclusive database lock",
  "Installing, upgrading and removing packages changes files and records only while the command holds the exclusive lock of the package database. When another process holds it the command fails with a non-zero status and changes nothing, not even what the installation running there has unpacked so far. While it changes anything the hang-up, interrupt, quit and terminate signals cannot end it; afterwards the lock is released and signals are no longer ignored.",
  "inputs schedules", "for every installing, upgrading and removing command, each attempt to lock succeeding or failing, any script outcomes, any root; the scripts .PRE and .POST themselves, which are unpacked and removed outside the lock, are exempt",
  T6 + "They never run two commands at once.",
  ["lock.cxx", "pkgadd.cxx", "pkgrm.cxx", "remove.cxx"], [("lock with non-blocking flock", "src/lock.cxx cards::lock"), ("lock held over the change", "src/pkgadd.cxx pkgadd::run, src/pkgrm.cxx pkgrm::run")])
P("C14", "With an alternative root nothing outside that root is touched",
  "A command given an alternative root installs, upgrades and removes only below it: no file, directory or package record of the host system outside the root is created, changed or deleted, and the host's packages and rules do not take part in the decision.",
  "inputs configurations faults", "for every host state and package contents (relative names), for all installing, upgrading and removing commands of the tools and of cards, a root that cannot be entered included",
  T6 + "None uses an alternative root.",
  ["pkgdbh.cxx", "pkgadd.cxx", "pkgrm.cxx", "install.cxx", "remove.cxx", "file_utils.cxx"], [("root prefix of every path", "src/pkgdbh.cxx pkgdbh (m_root)"), ("metadata clean-up", "src/file_utils.cxx cleanupMetaFiles")])
P("C28", "Package scripts run once, at their time, and a failing one is reported",
  "The pre script of a package runs before anything is changed and the post script after the change is complete, each exactly once if the package has it and scripts are not disabled; never otherwise. If the pre script exits non-zero, is killed by a signal or cannot be started, the command fails and changes nothing; a post script that fails is reported, one that succeeds is not.",
  "inputs schedules faults", "for every combination of scripts, every wait status of each, failure to fork, all installing, upgrading and removing commands, any root",
  T6 + "They run no scripts.",
  ["pkgadd.cxx", "pkgrm.cxx", "pkgdbh.cxx", "process.cxx"], [("pre and post script runs", "src/pkgadd.cxx pkgadd::preRun, postRun; src/pkgrm.cxx preRun, postRun"), ("exit status", "src/process.cxx process::execute")])
P("C30", "A user who is not root cannot install, upgrade or remove anything",
  "Every command that would install, upgrade or remove packages, synchronise the metadata or purge the caches exits with a non-zero status for a user other than root and changes no file, no record and runs no script, whatever the other options say.",
  "inputs configurations", "for every user id, all installing, upgrading and removing commands with their options, any root",
  T6 + "They run as whoever builds.",
  ["pkgadd.cxx", "pkgrm.cxx", "install.cxx", "remove.cxx"], [("user check", "src/pkgadd.cxx pkgadd::parseArguments, src/pkgrm.cxx, src/install.cxx, src/remove.cxx")])

P("C20", "An installation resolves dependencies exactly, in order and always ends",
  "'cards install' of names, collections or sets from the local repository installs the requested packages and, of all they need directly or through other packages, exactly those that are missing or older than the repository's build, each once and (cycles aside) after everything it needs. It ends for every dependency graph. Nothing else changes. A request that names something unknown, or needs a package that neither is installed nor exists, fails and changes nothing.",
  "inputs configurations", "for every dependency graph including cycles, every installed/outdated/missing state of the packages, several names, a collection, a set, configured groups, any root",
  T6 + "deplist only sorts one fixed list; closure and order depend on the graph and the state of every package.",
  ["depends.cxx", "pkgrepo.cxx", "install.cxx"], [("dependency resolution", "src/pkgrepo.cxx pkgrepo::generateDependencies"), ("installation of the list", "src/install.cxx cards::install")])
P("C22", "The reported differences and sizes match the system and the repository",
  "'cards diff' and 'cards upgrade --check' and '--size' report exactly the installed packages that the repository has in a newer build, those that left it (automatic ones as obsolete, others as unmaintained), their numbers, the download size, the sizes added and removed, and ask for confirmation only when more than 20 % of the packages differ. Asking changes nothing.",
  "inputs histories", "for every combination of installed packages, repository contents, versions, build dates, marks and recorded or missing sizes",
  T6 + "The report is what a user decides on before upgrading.",
  ["diff.cxx", "pkgrepo.cxx", "upgrade.cxx"], [("classification of the packages", "src/diff.cxx cards::diff constructor"), ("totals", "src/diff.cxx cards::diff::amountInfo")])
P("C23", "An upgrade does exactly what is out of date, and a large one only when confirmed",
  "'cards upgrade' upgrades exactly the installed packages of which the repository holds a newer build, installs the dependencies these newly need, and removes exactly the automatic packages that left the repository. When more than 20 % of the packages are concerned it does nothing unless --proceed is given. A repository that knows none of the installed packages is refused. An upgrade that needs a package which does not exist fails and changes nothing.",
  "inputs histories", "for every set of installed packages, build dates, marks, dependencies, repository contents, confirmed or not, any root",
  T6 + "Which packages are touched depends on the whole database and repository.",
  ["upgrade.cxx", "diff.cxx", "install.cxx"], [("upgrade decision", "src/upgrade.cxx upgrade::upgradePackages"), ("ratio guard", "src/diff.cxx cards::diff::ratio")])

P("C12", "Recorded file lists are replaced atomically, whatever fails",
  "Whenever a command is interrupted, loses power or fails to write, synchronise or rename, the recorded file list of every package holds only complete lines, and all lines that stay: the list of the package being installed is absent, the old or the complete new one, those of other packages lose at most files being taken over. A command that could not record a list fails.",
  "faults histories", "for every point of interruption, power loss with any unsynchronised data lost, every single failing open, write, fsync and rename, all installing, upgrading and removing commands, any overlap of the file lists, any root",
  T6 + "They write no record at all.",
  ["pkgdbh.cxx"], [("write, synchronise, rename", "src/pkgdbh.cxx pkgdbh::addPackageFilesRefsToDB")])
P("C13", "An interrupted command leaves a readable database and can be completed",
  "After a removal, installation or upgrade was killed at any point, every later command can still read the database, no file or metadata of another package was touched, and no file of a package being removed is left without its record. Repeating the removal completes it; repeating the installation with force completes it, dependencies included.",
  "faults histories", "for every point of interruption of pkgrm, cards remove, pkgadd with -u and -f, cards install with a dependency, cards upgrade dropping an obsolete package, any overlap of the file lists, any root",
  T6 + "They never interrupt anything.",
  ["pkgdbh.cxx", "pkgadd.cxx", "pkgrm.cxx", "install.cxx", "remove.cxx"], [("order of file and record changes", "src/pkgadd.cxx pkgadd::run, src/pkgrm.cxx pkgrm::run"), ("reading incomplete records", "src/pkgdbh.cxx pkgdbh::buildDatabase")])

P("C15", "Packages of a remote collection are installed only if their signature verifies",
  "A package of a collection that has a url is installed (by install or upgrade, requested, as a dependency or as a sub package) only if the very archive that is installed was verified with the public key of the collection against the recorded signature. If one of the packages cannot be fetched or verified, the command fails and installs none of them. An archive that differs from the recorded hash is fetched again.",
  "inputs faults configurations", "for every result of the verification, cached, missing, outdated and truncated archives, right and wrong hashes, missing and wrong keys, dependencies and sub packages, a global url or one of the collection",
  T6 + "They never see a remote collection or a wrong signature.",
  ["pkgrepo.cxx", "install.cxx", "upgrade.cxx", "dwl.cxx", "conf.cxx"], [("verification before use", "src/pkgrepo.cxx pkgrepo::generateDependencies"), ("signature check", "src/pkgrepo.cxx pkgrepo::checkSign"), ("per-collection url", "src/conf.cxx conf::parseConfig")])
P("C16", "A signature text is decoded to exactly its bytes, or the package is refused",
  "Whatever bytes the signature field of the repository's metadata holds: an even number of hexadecimal digits is decoded to exactly those bytes and given to the verification, anything else makes the command refuse the package with an error; nothing outside the buffers is read or written and the program does not crash.",
  "inputs", "for every signature text of up to 3 arbitrary bytes (4 in the thorough check)",
  T6 + "No test feeds a malformed signature.",
  ["pkgrepo.cxx"], [("hexadecimal decoding", "src/pkgrepo.cxx pkgrepo::checkSign")])

P("C17", "The package database is read exactly, and damaged metadata stays harmless",
  "Every field recorded for an installed package is read as it was recorded, with or without a final newline. Metadata of arbitrary bytes never crashes a command or touches memory outside its buffers, and never changes what is read for any other package; both packages stay in the list with their files.",
  "inputs", "for every presence and value of the fields and for arbitrary bytes in the metadata of one package",
  T6 + "They read one well-formed database.",
  ["pkgdbh.cxx", "file_utils.cxx", "pkginfo.cxx"], [("reading the database", "src/pkgdbh.cxx pkgdbh::buildDatabase"), ("reading lines", "src/file_utils.cxx parseFile")])
P("C18", "A package archive is read exactly, and a malformed one is refused cleanly",
  "Every field and file of a package archive is read, and shown by pkginfo, exactly as it was written, and the files recorded for an installed package are exactly those its archive lists, with or without final newlines. An archive whose metadata or file list is empty, truncated, unreadable or of arbitrary bytes is installed or refused with an error: the command does not crash, touches no memory outside its buffers, and after a refusal nothing has changed.",
  "inputs faults", "for arbitrary bytes and lengths of .META and .MTREE, short and failing reads, any file names",
  T6 + "They open no archive.",
  ["archive.cxx", "string_utils.cxx", "pkgadd.cxx"], [("reading archive members", "src/archive.cxx archive::extractFileContent"), ("dependencies of an archive", "src/archive.cxx archive::getRunTimeDependenciesEpoch")])
P("C19", "Each package of a repository is read with exactly its own fields",
  "Every complete record of a collection's metadata yields one package with exactly the fields of that record: nothing of another record, of another collection or of text between records is mixed in, whatever fields are missing. A malformed record never crashes the command, touches memory outside its buffers or changes another package.",
  "inputs", "for every presence and value of the 20 fields, every order of the records, gaps between them, several collections, and arbitrary bytes in one record",
  T6 + "pkgrepo reads one fixed, well-formed file.",
  ["pkgrepo.cxx", "file_utils.cxx"], [("reading the records", "src/pkgrepo.cxx pkgrepo::parse")])

P("C31", "Post-install triggers run exactly for the files whose rules ask for them",
  "After an install or upgrade, the system updates configured as triggers (linker cache, info directory, icons, fonts, schemas…) run for every installed file whose last matching trigger rule says YES, with that file and the tool of the chosen root, after the files are in place; none runs for a file without such a rule, a file that was not installed, a refused package or a removal.",
  "inputs configurations", "for every table of up to three rules with any event and action, and every matching behaviour of their patterns",
  T6 + "They install nothing and have no rules.",
  ["pkgadd.cxx", "pkgdbh.cxx", "process.cxx"], [("selecting the triggers", "src/pkgadd.cxx pkgadd::applyPostInstallRules"), ("running them", "src/pkgdbh.cxx pkgdbh::runLastPostInstall")])

P("C32", "The new version of a protected file is set aside unless it is identical",
  "When an upgrade keeps a protected file, the package's version of it is saved in the rejected area with its type, mode, owner and content if it differs from the kept one in any of these; an identical (or, for a regular file with the same attributes, empty) version is not kept there. The protected file and files rejected earlier are untouched.",
  "inputs", "for every pair of types, modes, owners, device numbers, link targets and contents within the bounds",
  T6 + "They never upgrade anything.",
  ["pkgdbh.cxx", "file_utils.cxx"], [("rejecting", "src/pkgdbh.cxx pkgdbh::installArchivePackage"), ("comparing", "src/file_utils.cxx checkFilesEqual, checkPermissionsEqual")])
P("C24", "The configuration file means what it says, line by line",
  "cards.conf is read as lines of a key, blanks or tabs, and a value; comments and unknown keys are ignored. The collections are used in the order given, each with its own directory and server, else with the default depot and url; groups, log directory and version are taken as written, the first depot, url and version win. An odd line (too long, with any bytes) spoils neither the other lines nor memory.",
  "inputs", "for every sequence of up to three lines of any kind with symbolic values, and every content of an odd line within the bounds",
  T6 + "No configuration is read.",
  ["conf.cxx", "cards.cxx"], [("reading the configuration", "src/conf.cxx conf::parseConfig")])
P("C33", "cards purge removes the cached packages of remote collections and nothing else",
  "cards purge deletes the files below the directories of collections that have a server, in sub directories too, except hidden ones (the metadata); directories, targets of symbolic links, collections without a server and every other file of the system stay untouched.",
  "inputs configurations", "for all names, file types and configurations within the bounds",
  T6 + "Nothing is ever purged.",
  ["conf.cxx", "file_utils.cxx", "cards.cxx"], [("collecting the files", "src/file_utils.cxx findRecursiveFile"), ("removing them", "src/conf.cxx conf::purge")])
P("C37", "Synchronising replaces metadata completely or not at all, and says so",
  "After cards sync, interrupted at any point or not, with any failing, truncated or corrupt download, failing decompression or failing write, the package and file metadata of every collection are either exactly the old or exactly the server's new ones; success is reported only if all of them and the key are new; local collections, cached packages and the rest of the system are untouched; synchronising again completes the job.",
  "faults crash points inputs", "for every crash point (process killed or power lost), every single failing system call, every failing or truncated download and every failing decompression, within the bounds",
  T6 + "No server exists in them.",
  ["sync.cxx", "dwl.cxx", "conf.cxx"], [("downloading", "src/dwl.cxx dwl::get"), ("replacing the metadata", "src/sync.cxx sync::uncompress")])
P("C34", "Listing and searching the collections shows exactly what their metadata hold",
  "cards list -b, list -S, search, search -n, info -b, files -b and query -b show for every package (set, file) of every readable collection exactly the recorded values, in the order of the collections and each record for itself: a field missing in one record shows nothing of another one, a missing, empty or cut off collection hides no other. Search finds exactly the names, collections, descriptions, urls, packagers and versions that contain the word, in any case. Nothing is changed.",
  "inputs configurations", "for every value of the fields, any field missing, any collection missing, empty or cut off, every argument, within the bounds",
  T6 + "Only the number of packages of one fixed collection is tested.",
  ["list.cxx", "search.cxx", "query.cxx", "files.cxx", "info.cxx", "pkgrepo.cxx"], [("list of the packages", "src/list.cxx list::parse"), ("search", "src/search.cxx search::parse"), ("query", "src/query.cxx")])
P("C35", "What is shown of the installed packages is what the database records",
  "pkginfo (-i, -n, -l, -o, -d, -b) and cards list, files, query and info show for every installed package exactly its recorded name, version, fields, marks and files, also below an alternative root and when asked for by an alias; the number and the owners of the files that match an expression are exact; nothing is shown for a package that is not installed. Nothing is changed.",
  "inputs configurations", "for every value of the fields, any field missing, aliases, marks, expressions with any matches, within the bounds",
  T6 + "They read one fixed database without odd records.",
  ["pkginfo.cxx", "pkgdbh.cxx", "list.cxx", "info.cxx", "query.cxx", "files.cxx"], [("reading the records", "src/pkgdbh.cxx pkgdbh::buildDatabase"), ("details of a package", "src/pkgdbh.cxx pkgdbh::printDetails")])
P("C38", "A package that several collections hold comes from the one listed first",
  "When several collections of cards.conf hold a package, its details, its dependencies, the decision whether it is out of date and the archive that cards install, upgrade and info -b use are those of the first collection that holds it, whatever the other collections say and in whatever order their names sort.",
  "inputs configurations", "for every subset of three collections holding the package, their order, the build dates, installed or not",
  T6 + "They know one collection.",
  ["pkgrepo.cxx", "conf.cxx", "install.cxx", "upgrade.cxx"], [("reading the collections", "src/pkgrepo.cxx pkgrepo::parse")])
P("C21", "Ports are ordered so that each comes after everything it needs",
  "cards level gives every port of a collection of Pkgfiles the level that its dependencies determine (0 without any, else one more than the highest of them), lists it once and after all it needs, and reports missing ports; depends, deptree and dependent show exactly the ports a port needs, the tree of its dependencies, and the ports that name it, for every port by its own fields alone. Cycles end, and nothing is changed.",
  "inputs", "for every dependency graph within the bounds, cycles, missing ports, repeated and self dependencies included, and several ways of writing the lists",
  T6 + "They read one tree of ports (deplist) without cycles.",
  ["level.cxx", "depends.cxx", "deptree.cxx", "dependent.cxx", "pkgfile.cxx"], [("reading a port", "src/pkgfile.cxx pkgfile::parse"), ("the levels", "src/depends.cxx, src/level.cxx"), ("the tree", "src/deptree.cxx")])
P("C39", "cards repo publishes exactly the packages there are, signed, all or nothing",
  "Generating the metadata of the collections writes for every package archive its recorded fields, digest, signature, size and files, and nothing else, plain and compressed; an interruption or failure leaves every metadata file old or complete, and only a complete run is reported as success. What was generated can be synchronised and installed. Without the private key the command fails exactly when an archive is missing or a signature is wrong.",
  "faults crash points inputs", "for all contents, sets of packages, verification results, every crash point and every single failing system call within the bounds",
  T6 + "Nothing is ever published.",
  ["repo.cxx", "pkgrepo.cxx", "cards.cxx"], [("generating", "src/repo.cxx repo::generate"), ("hash, signature and file list", "src/pkgrepo.cxx, src/archive_utils.cxx"), ("checking", "src/repo.cxx repo::check")])
P("C40", "The private key is made for its owner alone",
  "cards keys makes a matching pair of keys, the private one with mode 0600 and at no moment, also when a step fails, readable by anybody else; nothing else is changed; root and a configuration without a place for the key are refused without effect; success is reported only when both keys are there.",
  "faults inputs", "for every user id, earlier key files and every single failing step within the bounds",
  T6 + "No keys are made in them.",
  ["pkgrepo.cxx", "repo.cxx", "cards.cxx"], [("making the keys", "src/pkgrepo.cxx pkgrepo::generateKeys")])
P("C29", "A command line means the same in any order and spelling, else it is refused",
  "The effect of pkgadd, pkgrm, pkginfo, cards install and cards remove depends only on which options and operands are given, not on their order, nor on short or long spelling. An unknown command or option, an option the command does not have, a missing value and a wrong number of operands are refused with a message and a failure status, and change nothing; asking for help changes nothing.",
  "inputs", "for every command line of up to three tokens, words of arbitrary bytes among them",
  T6 + "No command line is parsed.",
  ["argument_parser.cxx", "cards_argument_parser.cxx", "cards.cxx", "tools.cxx", "pkgadd.cxx", "pkgdbh.cxx", "pkginfo.cxx"], [("cards", "src/argument_parser.cxx ArgParser::parse"), ("tools", "src/pkgadd.cxx, src/pkgdbh.cxx, src/pkginfo.cxx parseArguments")])

P("C27", "The libraries and packages that ELF files need are found, whatever else there is",
  "pkginfo --runtimelibs, -L, -R and --runtimedepfiles show exactly the names that the dynamic section of the ELF files in the folder or package gives for needed libraries and its own one (32 and 64 bit; each once, sorted; an empty name or one that ends in a dot left out), or the packages that own a file of that name, below an alternative root too. A file that is no ELF file, is cut off, has wrong fields or is no regular file neither hides what the others name nor makes the command fail; it is read within its bounds.",
  "inputs", "for all tags, values and strings of the dynamic section, every truncation and every header field set to boundary values, within the bounds",
  T6 + "No ELF file is read.",
  ["runtime_dependencies_utils.cxx", "file_utils.cxx", "pkginfo.cxx"], [("reading an ELF file", "src/runtime_dependencies_utils.cxx getRuntimeLibrariesList"), ("owners", "src/pkginfo.cxx pkginfo::run")])
P("C41", "A package archive that is cut off or damaged is refused, all else installed",
  "pkgadd and cards install refuse a package archive that cannot be read to its end (cut off or damaged anywhere) with a failure status and a message before they change anything or run a script of it; an archive that can be read is installed with all its files, whatever warnings its headers give (a file name the actual locale does not have).",
  "inputs faults", "for every place of the damage and every subset of the headers read with a warning",
  T6 + "They open one whole archive.",
  ["pkgdbh.cxx", "archive.cxx", "pkgadd.cxx"], [("reading the archive", "src/pkgdbh.cxx pkgdbh::openArchivePackage, installArchivePackage"), ("its metadata", "src/archive.cxx archive::extractFileContent")])
P("C42", "Paths mean the same however written, and several archives are all installed",
  "The result of pkgadd, pkgrm, pkginfo, cards install and cards remove does not depend on how the alternative root, the archives and the configuration file are written (absolute, relative to any working directory, with . or .. or repeated slashes). cards install with several archives installs each of them.",
  "inputs", "for every combination of spellings and working directories within the bounds",
  T6 + "They use one root and absolute paths.",
  ["pkgadd.cxx", "pkgdbh.cxx", "install.cxx"], [("changing to the root", "src/pkgadd.cxx pkgadd::run, src/pkgdbh.cxx installArchivePackage, runLastPostInstall")])
P("C43", "The footprint of a package describes exactly its entries",
  "pkginfo -f FILE prints for every entry of the package archive one line with its kind, permissions, owner, group, name and the target of a link, the numbers of a device, or the mark of an empty file, in the order of the archive, and changes nothing; for a file that is missing, no archive, cut off or damaged it ends with a failure status and a message.",
  "inputs faults", "for every kind, mode and owner of the entries and every place of a damage",
  T6 + "They print no footprint.",
  ["pkginfo.cxx", "pkgdbh.cxx"], [("printing the footprint", "src/pkgdbh.cxx pkgdbh::getFootprintPackage"), ("the command", "src/pkginfo.cxx pkginfo::run")])
P("C44", "A package cannot write outside of the root directory with .. in its names",
  "pkgadd and cards install refuse a package, with a failure status and a message and before they change anything or run a script of it, if the path of one of its entries, the target of one of its hard links or a line of its file list has a component '..', or if its name is '.', '..' or contains a slash. The targets of hard links are those below the root, and names that only contain dots are installed and recorded as they are.",
  "inputs", "for every such name within the bounds",
  T6 + "They use ordinary names.",
  ["pkgdbh.cxx", "pkgadd.cxx", "archive.cxx"], [("checking the archive", "src/pkgdbh.cxx leavesRoot, isArchiveComplete, pkgdbh::openArchivePackage"), ("extracting it", "src/pkgdbh.cxx pkgdbh::installArchivePackage")])
P("C45", "Repository metadata cannot direct a download out of its collection directory",
  "The metadata of a remote repository is not signed. Whatever archive names it lists, cards install, upgrade and info write what they download only to files directly in the directory of the collection the name belongs to; an entry whose archive name contains a slash is no package: installing it, or a package that needs it, fails and installs nothing. Archive names that merely contain dots work.",
  "inputs", "for every archive name within the bounds",
  T6 + "They use ordinary names and no remote repository.",
  ["pkgrepo.cxx", "dwl.cxx", "install.cxx", "upgrade.cxx"], [("reading the repository metadata", "src/pkgrepo.cxx pkgrepo::parse"), ("downloading a package", "src/pkgrepo.cxx pkgrepo::downloadPackageFileName, src/dwl.cxx dwl::dwl")])
P("C46", "cards create builds a port in a clean system and installs the result",
  "cards create PORT, run by root in a prepared build system, first removes every package that belongs neither to the chroot nor to the devel set, installs what is missing of these sets and, from the binaries at hand, exactly the dependencies of the port (with their sub packages of the configured groups), then runs pkgmk -d once in the directory of the port without holding the lock of the database, and installs the package it made with its sub packages. If pkgmk fails, is killed or cannot be started the command fails and nothing of the port is installed. Every change of the system is made under the exclusive lock, a dry run changes nothing and starts nothing, and the command is refused outside of a build system and for any user but root.",
  "inputs faults", "for every acyclic dependency graph, system state and build result within the bounds",
  T6 + "They never run cards create.",
  ["create.cxx", "process.cxx", "pkgrepo.cxx", "pkgfile.cxx"], [("clean system", "src/create.cxx create::core, create::base, create::installDependencies"), ("build and installation", "src/create.cxx create::buildBinary, create::run")])
P("C47", "cards create builds exactly the ports without an up to date binary",
  "cards create COLLECTION builds exactly those ports of the collection that have no binary in the repository, whose archive is missing or whose version or release differs from that of the binary, each once and after those it needs; it stops with a failure status at the first build that fails. The archives of binaries whose port is gone are removed, those of sub packages, of other collections and other files stay. With --dry it shows exactly the ports it would build and changes nothing.",
  "inputs faults", "for every state of the ports and binaries within the bounds",
  T6 + "They never run cards create.",
  ["create.cxx", "pkgrepo.cxx", "pkgfile.cxx"], [("choosing what to build", "src/create.cxx create::buildCollection"), ("removing binaries without port", "src/create.cxx create::checkBinaries")])

P("C48", "A command acts on the database it finds under the lock, not on an older one",
  "When another process has installed, upgraded or removed a package after a command started and before it gets the lock, the command leaves what it would have left if it had been started afterwards, or it is refused and changes nothing: it overwrites no file that became another package's without -f, removes no file another package took over, drops no record, and neither installs a package twice nor upgrades one that is gone. This holds for every change of a command that makes several, and every change of the database is visible to the commands that run at the same time.",
  "inputs schedules", "for every installing, upgrading and removing command, every such change of the other process and every overlap of the file names",
  T6 + "They never run two processes.",
  ["pkgadd.cxx", "pkgrm.cxx", "pkgdbh.cxx", "upgrade.cxx"], [("reading the database again under the lock", "src/pkgdbh.cxx pkgdbh::refreshDatabase"), ("deciding again", "src/pkgadd.cxx pkgadd::checkInstalled, src/pkgadd.cxx pkgadd::run, src/pkgrm.cxx pkgrm::run")])
