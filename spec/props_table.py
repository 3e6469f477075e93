UT = "the existing tests sample a handful of fixed inputs; "

# ------------------------------------------------------------------------------------------------ versions
prop("V01", "Version ordering is the PEP 440 total order, consistent with equality",
     """Comparing any two versions gives exactly the PEP 440 order (epoch, release, pre, post, dev and local parts), for
     <, <=, >, >=, sorting, min and max alike. Versions that PEP 440 considers the same version compare equal and hash
     equal, and no pair is both equal and ordered.""",
     ["inputs"], "all pairs and triples of PEP 440 versions, however spelled",
     UT + "order bugs need particular combinations of parts (pre+dev, post+dev, numeric local segments, epochs)",
     [S + "api/versions/version.py", S + "api/versions/version_parser.py"],
     [("version comparison and hashing", S + "api/versions/version.py")],
     "comparison events of the real version objects judged online by an independent PEP 440 key",
     "exploration: exhaustive over a small grammar's pairs plus random pairs; trusts the `packaging` library as oracle")

prop("V02", "Version text parses to the right version and prints back losslessly",
     """Parsing any valid PEP 440 version text, in any accepted spelling (case, separators, alternative pre/post/dev names,
     leading v, surrounding spaces, implicit numbers), yields the version it denotes, and printing a parsed version
     gives text that parses back to an equal version and that a PEP 440 reader takes for the same version. Text that is
     not a PEP 440 version is never silently read as a different standard version, a URL used as a version keeps its text,
     and bumping the major, minor or patch part of a three-part version gives the semantic-versioning successor.""",
     ["inputs"], "all version texts", UT + "the space of spellings is combinatorial",
     [S + "api/versions/version.py", S + "api/versions/version_parser.py", S + "utils/parsers.py"],
     [("version parser", S + "api/versions/version_parser.py"), ("version printing and bump", S + "api/versions/version.py")],
     "parse/print events judged by a reference PEP 440 reader over generated and mutated spellings",
     "exploration: random and enumerated spellings; trusts `packaging` as oracle")

prop("V03", "A version specifier admits exactly the versions PEP 440 says it admits",
     """A specifier text made of any combination of ==, !=, <, <=, >, >=, ~=, === clauses and wildcards admits a version
     exactly when every clause does by the ordering of versions (a wildcard or ~= is the range up to the next value of its
     prefix; == and != without a local part ignore local parts; a range admits a post-release of its own bound only if it
     includes that bound). A parsed specifier written out, as a requirement does, parses back to one that admits the same
     versions, and specifiers that compare equal admit the same versions.""",
     ["inputs"], "all specifier texts x all versions",
     UT + "membership bugs sit at boundaries (equal bound, pre-release of a bound, wildcard ends)",
     [S + "api/versions/version_specifiers.py", S + "api/versions/version_parser.py"],
     [("specifier parser", S + "api/versions/version_parser.py"), ("membership", S + "api/versions/version_specifiers.py")],
     "membership events of the real specifiers judged clause by clause by a reference evaluator",
     "exploration: random specifiers x dense boundary versions; the oracle is a 40-line evaluator over packaging's order")

prop("V04", "Specifier set algebra agrees with set membership and never mutates operands",
     """For any two version specifiers over ordinary versions (post-releases and local-version ranges aside), the intersection, union, difference and complement admit exactly the versions that
     the same operation on the sets of admitted versions would. The queries 'is anything shared' and 'is everything
     contained' never contradict membership, 'none' and 'any' are recognised as such, and no operation changes what its
     operands admit or how they print.""",
     ["inputs", "histories"], "all operand pairs and chains of operations on them",
     UT + "a wrong merge needs particular overlaps (nested, touching, unions on both sides); mutation needs re-use",
     [S + "api/versions/version_specifiers.py"],
     [("set operations", S + "api/versions/version_specifiers.py")],
     "every operation recorded with a membership bitmap over a boundary-dense version sample and compared with boolean algebra",
     "exploration: operand chains of several operations; oracle is boolean algebra over pointwise membership")

# -------------------------------------------------------------------------------------------- dependencies
prop("D01", "Environment markers evaluate as PEP 508 defines",
     """Evaluating any PEP 508 marker (version and string comparisons, in / not in, either operand order, and/or nesting,
     extra) against any environment gives the result PEP 508 defines, and a printed marker parses back to one that
     evaluates identically.""",
     ["inputs", "configurations"], "all marker expressions x environments x requested extras",
     UT + "precedence, operand order and version-vs-string comparison bugs need particular expressions",
     [S + "api/dependencies/env_markers.py", S + "utils/parsers.py"],
     [("marker parser and evaluator", S + "api/dependencies/env_markers.py")],
     "evaluation events judged by a reference marker evaluator over generated expressions and environments",
     "exploration; trusts packaging.markers (restricted to operators on which it and PEP 508 agree)")

prop("D02", "Dependency strings parse to what PEP 508 says and print back losslessly",
     """Parsing any PEP 508 requirement yields its name, extras, version constraint or URL, and marker, and printing it gives
     text that parses to an equal dependency. Package names that normalise alike are treated as the same package,
     malformed requirements are rejected and not partially read, and a marker naming an extra makes the dependency apply
     exactly when that extra is requested.""",
     ["inputs"], "all requirement strings", UT + "only plain strings are sampled",
     [S + "api/dependencies/dependency.py", S + "api/packages/package.py", S + "utils/parsers.py"],
     [("dependency parser and printer", S + "api/dependencies/dependency.py")],
     "parse/print events judged by a reference PEP 508 reader over generated and mutated requirements",
     "exploration; trusts packaging.requirements as oracle")

# ---------------------------------------------------------------------------------------------- resolution
prop("R01", "A resolved set of packages satisfies every constraint, exactly",
     """Whenever dependency resolution succeeds, every root requirement and every applicable dependency (including those of
     requested extras and environment markers) of every chosen package is satisfied by the chosen versions. Each package
     is chosen once, at a version the repository really offers for the environment, and nothing is chosen that no root
     requirement needs.""",
     ["inputs"], "all package indexes (versions, dependencies, extras, conflicts) and root requirements",
     "the tests fix a few small scenarios; conflict-driven backtracking bugs need particular dependency graphs",
     [S + "resolution/pubgrub.py", S + "resolution/dependency_resolver.py"],
     [("solver", S + "resolution/pubgrub.py"), ("problem set-up", S + "resolution/dependency_resolver.py")],
     "each solver run's answer judged by an independent constraint checker over generated indexes",
     "exploration: thousands of small dense indexes; oracle evaluates constraints with reference membership")

prop("R02", "Resolution fails only when no solution exists, and always terminates",
     """Dependency resolution reports failure only when no choice of available versions satisfies the requirements, and it
     ends after a bounded number of steps on every finite index. When nothing conflicts it picks, for every package, the
     most preferred version its constraints allow: the locked one, else the installed one unless an update is asked for,
     else the newest.""",
     ["inputs"], "all package indexes and root requirements",
     "the tests have no brute-force solver to compare with",
     [S + "resolution/pubgrub.py", S + "resolution/dependency_resolver.py"],
     [("conflict resolution", S + "resolution/pubgrub.py"), ("preferences", S + "resolution/dependency_resolver.py")],
     "each solver verdict compared with brute-force search; step counter watchdog; preference oracle on conflict-free indexes",
     "exploration: small indexes solved exhaustively; termination restated as a step bound")

prop("R03", "The lock file reproduces locked versions per environment and survives saving",
     """Saving and reloading a lock file changes nothing, and re-locking one environment never drops or alters what is
     recorded for a different kind of environment. When resolving for an environment, the version that was locked for an
     environment with the same characteristics is offered first, versions other environments locked follow as further
     preferences and everything else keeps its order; unlocked packages are forgotten, however their name is spelled.""",
     ["histories", "configurations"], "all histories of lock, unlock, update, save and load over several environments",
     "there are no tests of it", [S + "resolution/packages_lock.py"],
     [("lock file", S + "resolution/packages_lock.py")],
     "operation histories replayed against a dictionary model of the lock",
     "exploration: random histories over several environments, model compared after every step")

prop("R04", "Repositories are consulted in the configured order, bindings and inheritance",
     """A package bound to a repository is looked up only there; otherwise repositories are asked in configuration order,
     bind-only ones skipped, then the inherited context as the inheritance mode says, and the first with matches answers
     alone (a project context asks the project and its siblings first: these answer for their own names at any version). A
     repository without the package (an index that does not know its name) counts as having no match. URL requirements go only to repositories that accept their protocol, and every package a
     repository returns satisfies the requirement and is compatible with the environment, newest first, with pre-releases left out unless requested or unless there is
     nothing else. The order is the same after the configuration was changed, saved and loaded again.""",
     ["configurations", "inputs"], "all repository configurations, nesting levels, bindings and requirements",
     UT + "only the pre-release filter is tested",
     [S + "api/repositories/repository_loader.py", S + "api/repositories/repository.py",
      S + "api/repositories/repository_management.py", S + "api/repositories/repositories_configuration.py",
      S + "repositories/simple_repository.py", S + "repositories/file_system_repository.py"],
     [("composition", S + "api/repositories/repository_loader.py"), ("matching", S + "api/repositories/repository.py")],
     "lookup events of recording repositories judged by a model of the configured search order",
     "exploration: random configurations with instrumented repositories")

# -------------------------------------------------------------------------------------------- installation
prop("I01", "An installed package is exactly its archive, and its record describes it",
     """After a wheel is installed, every file of the archive is at the location its scheme dictates with identical content
     (scripts differ only in their interpreter line), each declared entry point has a working script, and nothing else
     changed in the target. The installation record lists every installed file, each with its true hash and size, and
     the package is reported as installed with its name, version, metadata, requested-by-user mark and install mode.""",
     ["inputs", "histories"], "all valid wheels (layouts, data schemes, entry points, file types) and prior site contents",
     "no test installs a wheel",
     [S + "api/distributions/wheel_distribution.py", S + "api/distributions/distinfo.py", S + "utils/files.py",
      S + "utils/hashes.py", S + "launchers/executables.py", S + "api/packages/site_packages.py"],
     [("wheel installation", S + "api/distributions/wheel_distribution.py"), ("records", S + "api/distributions/distinfo.py")],
     "full file-tree snapshots before and after real installs judged against the archive by an independent unpacker",
     "exploration: generated wheels installed into real targets")

prop("I02", "Uninstalling or updating removes exactly what the package had installed",
     """Uninstalling a package removes every file it installed and the directories this leaves empty, and leaves every other
     file and every other package untouched, so install followed by uninstall restores the target. Updating a package
     leaves exactly the state that removing the old version and installing the new one would.""",
     ["histories"], "all histories of install, update and uninstall of several packages, with foreign files around",
     "no test uninstalls a package",
     [S + "api/packages/site_packages.py", S + "api/packages/package.py", S + "api/packages/package_installation.py",
      S + "api/distributions/distinfo.py"],
     [("uninstall", S + "api/packages/site_packages.py"), ("update", S + "api/packages/package.py")],
     "operation histories over real targets compared with a file-ownership model after every step",
     "exploration: random histories; model of which package owns which file")

prop("I03", "A failed installation leaves the target exactly as it was",
     """If installing a wheel fails at any point (bad archive, file system error at any operation, unwritable location), an
     error is raised and the installation target has exactly the files and contents it had before. This holds in
     particular when the failure hits after existing files were overwritten or directories created.""",
     ["fault_sequences", "crash_points", "inputs"], "every file system operation of an installation failing in turn",
     "no test injects a fault",
     [S + "utils/files.py", S + "api/distributions/wheel_distribution.py"],
     [("copy transaction", S + "utils/files.py")],
     "fault injection at every file-system call of a real install, tree snapshots compared before and after",
     "fault_enumeration: each file operation fails once (error before, and after a partial effect)", level="fault_enumeration")

prop("I04", "A wheel whose content does not match its record is never installed",
     """A wheel that was altered after it was recorded (files changed, truncated, added or missing, a wrong or missing hash,
     a damaged archive, an absent record, metadata or dist-info, an unsupported wheel version) is rejected with an error and
     installs nothing; intact wheels are accepted. A changed file inside the wheel's own dist-info directory is only warned
     about. The same holds for a downloaded artifact whose digest differs from the one its index declares.""",
     ["inputs", "fault_sequences"], "all single alterations of all wheels and downloads",
     "no test verifies a wheel",
     [S + "api/distributions/wheel_distribution.py", S + "utils/hashes.py", S + "repositories/pypi_repository.py",
      S + "repositories/simple_repository.py", S + "utils/http/http_client.py"],
     [("record verification", S + "api/distributions/wheel_distribution.py"), ("hash signatures", S + "utils/hashes.py")],
     "systematic mutations of real wheels and index digests; verdict and tree snapshot checked for each",
     "exploration: every member x every mutation kind for generated wheels")

prop("I05", "Hostile archives and records cannot touch anything outside their target",
     """Extracting any archive, installing any wheel, downloading any URL and uninstalling any package never creates,
     changes or deletes a file outside the target directories given to the operation, whatever the names inside the
     archive, its record or the URL (parent references, absolute names, links).""",
     ["inputs"], "all archives, wheels, records and URLs, hostile ones included",
     "no test uses a hostile archive",
     [S + "utils/archives.py", S + "api/distributions/wheel_distribution.py", S + "api/packages/site_packages.py",
      S + "api/distributions/distinfo.py", S + "utils/http/http_client.py"],
     [("archive extraction", S + "utils/archives.py"), ("uninstall", S + "api/packages/site_packages.py")],
     "canary tree around the target plus an interpreter audit hook recording every path touched",
     "exploration: hostile corpus, run unprivileged with an audit hook that blocks escapes from the scratch directory")

prop("I06", "Environment changes keep requested packages working and leave no orphans",
     """After a successful install into an environment every user-requested package is present at a version satisfying the
     request and all dependencies of every installed package are satisfied, and packages unrelated to the request are
     unchanged. Uninstalling removes the named packages that nothing remaining needs and the dependencies this orphans,
     and nothing else: never a package the remaining user-requested ones need, nor packages that other tools installed. A
     change that has no solution changes nothing; the outcome does not depend on the concurrency mode.""",
     ["histories", "schedules", "configurations"], "all install / uninstall histories over all package indexes and concurrency modes",
     "no test installs into an environment",
     [S + "api/packages/package_installation.py", S + "api/packages/site_packages.py", S + "api/environments/environment.py",
      S + "resolution/dependency_resolver.py"],
     [("installation plan and execution", S + "api/packages/package_installation.py")],
     "histories over real environments with generated packages, site state checked by an independent closure oracle after each step",
     "exploration: sequential, threaded and multi-process execution of the same histories")

prop("I07", "Only artifacts compatible with the environment are chosen, the best first",
     """An artifact is considered installable in an environment exactly when its compatibility tags match the interpreter,
     ABI and platform and its python requirement admits the interpreter version. Among compatible artifacts a wheel is
     preferred over a source archive and the most specific compatible tag wins.""",
     ["inputs", "configurations"], "all wheel tags (compressed sets included) x interpreters and platforms",
     "no test covers tag matching",
     [S + "api/environments/environment_introspection.py", S + "api/packages/standard_package.py"],
     [("tag scoring", S + "api/environments/environment_introspection.py"), ("artifact choice", S + "api/packages/standard_package.py")],
     "tag verdicts of the real environment judged by packaging.tags; artifact choice events judged by its ranking",
     "exploration: tags generated around the supported set of the running interpreter")

prop("I08", "Sharing packages between environments is invisible to their users",
     """In an environment zoo with package sharing, an environment sees the same importable modules, scripts, metadata and
     dependencies as with a private installation, whether it was first or later to use the package. Removing a package
     or an environment never affects the others, and cleaning unused shared packages removes exactly those that no
     environment uses. A package whose files all belong to site packages or scripts is stored once for all environments;
     excluded packages, and packages that cannot be shared, are installed privately. An environment created by a zoo
     belongs to it from the start.""",
     ["histories"], "all histories of install, uninstall, delete and clean over several environments",
     "no test covers sharing",
     [S + "repositories/shared_pacakges_repo.py", S + "api/environments/environments_zoo.py"],
     [("shared packages", S + "repositories/shared_pacakges_repo.py")],
     "histories over real environments; each environment's importable files compared with a private-install model after each step",
     "exploration: random histories over a small zoo")

# --------------------------------------------------------------------------------------------------- build
prop("B01", "Built distributions are complete, valid and faithful to the project",
     """Every distribution built from a project contains exactly the project's package files (the packages under src, or the ones its configuration lists; compiled caches
     excepted) with identical content, metadata
     that agrees with the project configuration field by field, and all declared entry points and scripts; the wheel's
     record covers every file with its true hash and size. A wheel built from the source distribution is equivalent to
     one built from the project, building changes no project source file, and the result installs (by pkm and by pip) and works.""",
     ["inputs", "programs"], "all project configurations and source trees",
     "the build tests need the network and fail here; no test inspects an artifact",
     [S + "build/pkm_builders.py", S + "api/packages/package_metadata.py", S + "api/projects/pyproject_configuration.py",
      S + "api/distributions/distinfo.py", S + "api/buildsys.py"],
     [("builder", S + "build/pkm_builders.py"), ("metadata", S + "api/packages/package_metadata.py")],
     "real builds of generated projects; artifacts re-read by an independent wheel/sdist/metadata reader and compared with the project",
     "exploration: generated projects")

prop("B02", "Source distributions are built as declared, isolated, once, and install as built",
     """Whatever source distribution is installed, its metadata and wheel are made by the build backend that it declares (inside its tree, in another package, or the default one for legacy
     trees) through the PEP 517 hooks, in a throw-away environment that holds exactly the declared and the backend-reported build requirements (built from sources themselves where needed) and nothing
     of the target environment. The target receives exactly the wheel that the backend made, whatever the backend prints and whichever optional hooks it lacks. The same archive is not
     built again, another archive of the same name and version is. A failing backend is reported, leaves the environment as it was and nothing behind that a later attempt would take for the result. Build
     requirements that need themselves to be built are reported as an error, others never are. Any number of builds at the same time end, and with the same result. Source projects
     with such backends (wheel, editable, source distribution, dynamic metadata) behave alike.""",
     ["inputs", "histories", "schedules", "faults"], "all source trees, backends, requirement graphs and concurrent builds",
     "the build tests need the network and fail here; no test has a backend of its own, a failure or two builds at a time",
     [S + "build/external_builders.py", S + "build/source_build_cache.py", S + "api/distributions/source_distribution.py", S + "utils/promises.py", S + "utils/archives.py"],
     [("PEP 517 front end", S + "build/external_builders.py"), ("build cache", S + "build/source_build_cache.py")],
     "generated backends log what each hook call sees; the log and the installed files are judged by a model of the requirement graph",
     "exploration: random requirement graphs, backends, failures and concurrent builds")

prop("A01", "Containerized applications are self-contained, and nothing else sees them",
     """Installing a package (or a local project) as a containerized application puts it and all that it requires into a container of its own inside the environment: whatever is installed, updated
     or removed in a container leaves the other packages and scripts of the host and every other container as they were, and the host can neither import nor list what is in containers. The scripts of the
     application (and of the packages it exposes), and no others, appear in the host. They run it with the container's versions of everything in the container, whatever the host has, in child interpreters
     too; arguments, input and exit status pass through; its data is below sys.prefix. There is one container per application, however its name is spelled;
     what is reported of containers, applications and plugins is what is there; asking for what is there already changes nothing; what cannot be solved is reported and changes nothing.
     Plugins installed in a container are seen by its application alone and survive its update; an update moves the application to the newest version that fits, with exactly that version's scripts.
     Uninstalling leaves nothing behind. A project published as cnt-app becomes such a container wherever its source distribution is installed, also by pip.""",
     ["inputs", "histories", "faults"], "all indexes, applications, plugins, host environments and histories of operations on them",
     "no test installs a containerized application, the defects need particular names, path files, plugins, conflicts or a sequence of operations",
     [S + "api/environments/package_containers.py", S + "build/pkm_app_builders.py", S + "api/packages/site_packages.py", S + "api/projects/project.py", S + "api/distributions/wheel_distribution.py"],
     [("containers", S + "api/environments/package_containers.py"), ("application wheels", S + "build/pkm_app_builders.py")],
     "random histories in a real environment; the interpreters of the host and of every application report what they see, judged by a model of what was installed where",
     "exploration: random indexes, names, histories and projects")

prop("R05", "Packages required by URL, file, folder or git come exactly from there",
     """A package that is required by reference (a wheel or source distribution by URL or file, a project folder, a git repository with or without branch, tag or commit, over any transport, also one
     project of a group), by a request or by a dependency, is installed from there: with the content which that reference has at this time, whatever other content of the package is installed already or
     in an index, with whatever version. References that differ in anything are never confused, a branch follows its repository, a tag and a commit do not move. It stays as installed in every environment until it is asked
     for again, whoever else installs or updates from there (linked project folders excepted). References that exclude each other, cannot be followed, are damaged, have another hash than the reference says or turn out to be another package are refused,
     the environment then is as before and a later attempt works, also after pkm was killed while fetching. A requirement that does not apply is neither followed nor recorded.""",
     ["inputs", "histories", "faults", "crashes"], "all references, contents, histories of publishing and installing, and interruptions",
     "there are no tests of references; they need servers, repositories and several environments",
     [S + "repositories/url_repository.py", S + "repositories/file_repository.py", S + "repositories/git_repository.py", S + "api/packages/package_installation.py", S + "api/packages/standard_package.py", S + "api/repositories/repository_loader.py",
      S + "resolution/dependency_resolver.py"],
     [("url", S + "repositories/url_repository.py"), ("git", S + "repositories/git_repository.py"), ("installed packages", S + "api/packages/package_installation.py")],
     "everything published carries a token of its place and state; the tokens found in the environments after each step are judged by a model of what was published where",
     "exploration: random worlds of sources, histories and kills")

prop("E01", "Interpreters are all found; environments are what was asked for, and isolated",
     """Looking for python interpreters (in PATH and the configured search paths) lists every working interpreter once, the newest first, whatever else lies there: what is broken,
     unreadable, answers with something else or only has a similar name neither fails the search nor is listed, and only files named like interpreters are started. A version requirement is matched by exactly
     the interpreters it admits. An environment (of its own, of a project, of an environment zoo) is made of the newest interpreter that fits, at the place asked for; its interpreter,
     under all of its names, uses that environment and sees no packages of others. Nothing that exists is overwritten, a project's folder that is not an environment is not deleted,
     and what cannot be made leaves nothing behind. What pkm says about an environment (version, markers, paths) is what its interpreter says, also after that was replaced, the environment was moved, its
     stored information was damaged or cannot be written. Activation puts the environment's programs first and afterwards restores all variables. A zoo lists exactly its environments.""",
     ["inputs", "histories", "faults"], "all contents of PATH and search paths, interpreters, places and histories of environments",
     "the tests use the one interpreter and environment they run in",
     [S + "api/environments/installed_pythons_locator.py", S + "api/environments/environment_builder.py", S + "api/environments/environment_introspection.py", S + "api/environments/environment.py",
      S + "api/environments/environments_zoo.py", S + "api/projects/project.py"],
     [("search", S + "api/environments/installed_pythons_locator.py"), ("creation", S + "api/environments/environment_builder.py"), ("stored information", S + "api/environments/environment_introspection.py")],
     "staged interpreters log every start of theirs; the interpreters of made environments report themselves, compared with what pkm says and with a model of what lies where",
     "exploration: random landscapes of interpreters, environments and later changes")

# -------------------------------------------------------------------------------------------------- config
prop("C01", "TOML is read as the standard says, and saving preserves data and style",
     """Any TOML 1.0 document built from tables, arrays, inline tables, dotted and quoted keys, strings, integers, floats,
     booleans and dates reads as the data the standard defines, and any such data written out reads back equal. Saving a
     loaded document unchanged keeps its text (only scattered sub-tables and dotted keys may be brought together), and after a change every untouched value, key order and comment is kept
     while the change is visible on reload.""",
     ["inputs", "histories"], "all TOML documents and edits", "there are no tests of the TOML reader",
     [S + "config/toml.py", S + "utils/parsers.py"],
     [("TOML reader and writer", S + "config/toml.py")],
     "load/dump events over generated documents judged by tomllib and a comment-tracking oracle",
     "exploration: generated documents and edits; trusts tomllib")

prop("C02", "Package information files are written and read back without loss",
     """Package metadata, wheel descriptors, installation records, entry points, install marks, virtual environment
     configuration and site links written by the tool read back equal, agree with standard readers of these formats, and
     files written by other standard tools are read with the same meaning.""",
     ["inputs"], "all values of every field, including quoting, unicode and multi-line text",
     "there are no tests of these formats",
     [S + "config/configfiles.py", S + "config/configclass.py", S + "api/distributions/distinfo.py",
      S + "api/packages/package_metadata.py", S + "utils/entrypoints.py", S + "api/distributions/pth_link.py"],
     [("format readers/writers", S + "config/configfiles.py"), ("typed configuration", S + "config/configclass.py")],
     "write/read events judged by independent readers (email, csv, configparser, importlib.metadata, site)",
     "exploration: generated values")

prop("C03", "Editing a project or group configuration changes only what was edited",
     """Adding, updating or removing dependencies, bumping the version, adding or removing group members, repositories or
     package bindings updates exactly that information in the configuration file. All other settings, unknown sections
     and comments are preserved (a setting that is absent may be written out with its default), the change is visible on
     reload, and undoing it restores the previous meaning.""",
     ["histories", "inputs"], "all edit histories over all configuration files", "there are no tests of editing",
     [S + "api/projects/pyproject_configuration.py", S + "api/projects/project.py", S + "api/projects/project_group.py",
      S + "api/repositories/repository_management.py", S + "config/toml.py", S + "config/configclass.py"],
     [("typed configuration", S + "config/configclass.py"), ("project edits", S + "api/projects/project.py")],
     "edit histories on generated files compared with a data model read by tomllib after every step",
     "exploration: random histories")

# ------------------------------------------------------------------------------------------------- network
prop("N01", "Fetches return exactly what the server holds; caching obeys its directive",
     """A fetch returns the complete bytes of the resource (redirects followed, compression undone) or raises an error, and a
     failed, truncated or error response is never stored or served as the resource. The cache is consulted, revalidated
     or bypassed as the caller's directive says, distinct URLs never share a cache entry, concurrent fetches of a URL all
     get the same complete content, and a later fetch is never affected by an earlier one having failed or hit the
     cache.""",
     ["fault_sequences", "schedules", "histories"], "all request histories, concurrent ones, and server faults",
     "no test runs against a server",
     [S + "utils/http/http_client.py", S + "utils/http/cache_directive.py"],
     [("http client", S + "utils/http/http_client.py"), ("cache directives", S + "utils/http/cache_directive.py")],
     "loopback server with injected faults; client histories and server request log judged by a cache model",
     "exploration: random histories, fault kinds and thread interleavings over the loopback network")

prop("N02", "Publishing uploads the distribution and its metadata byte for byte",
     """Publishing a distribution sends one upload request per distribution file whose content, digests, file and python
     type, name, version and metadata fields are those of the file and the project, and carries the given credentials. A
     server refusal is reported as an error.""",
     ["inputs"], "all metadata and distribution contents", "no test publishes",
     [S + "repositories/pypi_repository.py", S + "utils/http/mfd_payload.py", S + "utils/http/auth.py",
      S + "utils/io_streams.py"],
     [("publisher", S + "repositories/pypi_repository.py"), ("multipart encoding", S + "utils/http/mfd_payload.py")],
     "uploads captured by a loopback server, decoded by an independent multipart reader and compared",
     "exploration: generated projects and contents")

# --------------------------------------------------------------------------------------------- concurrency
prop("K01", "Deferred results complete exactly once, and waiting never loses one",
     """A deferred result completes exactly once, with the first outcome given; every listener, registered before or after,
     is called exactly once with it, and every waiter gets it. Waiting for a group returns once all have succeeded;
     waiting with cancellation raises a failure only after all are settled. A value computed on demand and shared between
     threads is computed once and seen by all, and a monitored operation reports its start, failure and end once each.""",
     ["schedules"], "all interleavings of completers, cancellers, listeners and waiters",
     "no test uses threads",
     [S + "utils/promises.py", S + "utils/properties.py", S + "utils/monitors.py"],
     [("promises", S + "utils/promises.py"), ("computed-once properties", S + "utils/properties.py")],
     "multi-threaded histories with injected delays, recorded events checked for exactly-once and agreement",
     "exploration: many short histories with schedule perturbation")

prop("K02", "Work sent to worker processes runs once and its outcome always comes back",
     """Every task submitted to the process pool is executed exactly once and its result or exception is delivered to its
     submitter, whatever the number of workers, concurrent submitters, failing tasks or tasks that terminate their
     worker. Cancelled tasks are reported cancelled and never left pending, what a task prints reaches the submitting process in
     order, no more workers run than allowed, and closing finishes the submitted work and leaves no worker behind.""",
     ["schedules", "fault_sequences"], "all submission schedules, task failures and worker deaths",
     "no test uses the pool",
     [S + "utils/multiproc/__init__.py", S + "utils/promises.py"],
     [("process pool", S + "utils/multiproc/__init__.py")],
     "submission/execution/delivery events recorded through per-task marker files and matched one to one",
     "exploration: stress runs with task failures and killed workers; liveness restated as completion before a watchdog")

# ----------------------------------------------------------------------------------------------------- cli
prop("U01", "Command lines are understood consistently with the declared commands",
     """For any declared commands, options, flags, positional arguments and fields (also those made from functions or
     supplied dynamically), a line built from chosen values parses to exactly these values, with declared defaults for
     the rest, whatever the order of options, grouping of short flags or use of '='; a positional taking several values
     takes all that follows. Executing it runs each command on its path once, outermost first. Lines with unknown or
     mutually exclusive options, illegal, missing or surplus values are reported as errors and nothing runs.""",
     ["inputs", "configurations"], "all command definitions x command lines",
     "the parser's tests fail at this commit because they call a method that no longer exists",
     [C + "api/dynamic_cli/command_parser.py", C + "api/dynamic_cli/method_parser.py"],
     [("command line parser", C + "api/dynamic_cli/command_parser.py")],
     "parse events for generated definitions and lines compared with the values the line was rendered from",
     "exploration: generated grammars, renderings and single-error mutations")

prop("U02", "The credential store keeps credentials intact and opens only with its password",
     """Credentials stored for a repository are returned unchanged after any history of additions, removals and reloads with
     the right password, and other repositories' credentials are unaffected. With any other password or an altered file
     the store refuses to open and the file is left as it was, and the file on disk never contains a credential in
     clear.""",
     ["histories", "inputs"], "all histories and credential values", "no test covers the store",
     [C + "auth/publish_auth_store.py", S + "config/toml.py"],
     [("credential store", C + "auth/publish_auth_store.py")],
     "operation histories over real store files compared with a dictionary model; on-disk bytes scanned for secrets",
     "exploration: random histories and hostile values")

prop("U03", "Rendering a template writes all its files or, on conflict, none",
     """Rendering a project template writes exactly the files the template defines, rendered with the given values, skipping
     ignored and empty-named ones. Without permission to overwrite, if any file already exists rendering fails and
     changes nothing; with permission only files the template defines are replaced.""",
     ["inputs", "configurations"], "all templates, values and target directory contents",
     "no test renders a template",
     [C + "api/templates/template_runner.py"],
     [("template rendering", C + "api/templates/template_runner.py")],
     "real renders of generated templates; target tree compared with a model of the expected files",
     "exploration: generated template trees")
