"""Text parts of DESIGN.md, one entry per property: workload / monitor+oracle / reach and bounds."""
D = {}
D["V01"] = """Workload: enumerated grammar (epoch x release x pre x post x dev x local, ~10^3 versions, all pairs in quick on a
sub-grammar) plus random pairs, spellings, triples, sort/min/max of lists, url and named versions mixed in. Monitor: every
comparison, hash and sort result of the real objects is an event. Oracle: `packaging.version.Version` order; antisymmetry,
transitivity and eq/hash consistency are checked directly. Bounds: components < 2^40, <= 6 release parts."""
D["V02"] = """Workload: every spelling rule of PEP 440 applied at random to random versions, near-miss mutations (deleted,
inserted, swapped characters), urls, arbitrary text. Oracle: `packaging` parses the input and the print; non-versions must not
come back as standard versions; bump against semver successor computed from the parts."""
D["V03"] = """Workload: random conjunctions of 1-4 clauses (all operators, wildcards, locals, pre/post/dev bounds) x a version
sample dense around all bounds (bound-epsilon, bound, bound+epsilon, pre, post, dev, local, 4/5 component neighbours).
Oracle: clause-by-clause evaluator (`refver.admits`). Print/parse is judged by membership on the same sample and, for
requirement texts, by `packaging.SpecifierSet` accepting it."""
D["V04"] = """Workload: *enumerated* all pairs of a small set of specifiers (every shape: point, hole, ray, interval, union, any,
none; all boundary coincidences) under all operations, then random chains that re-use operands. Monitor: bitmap of admitted
versions before and after each operation for operands and result. Oracle: boolean algebra on the bitmaps; repr of operands
unchanged."""
D["D01"] = """Workload: random marker trees (depth <= 4) over all PEP 508 variables, both operand orders, version-like and
non-version values, extras, `===`, in / not in; random environments. Oracle: independent evaluator over the generated tree
(not over text), cross-checked with `packaging.markers`; printed markers are re-parsed and evaluated over 2^k environments."""
D["D02"] = """Workload: random requirement structures rendered with random white space, quoting, parentheses; an edge grid of
bounds; mutation into malformed texts. Oracle: the generating structure and `packaging.requirements`; malformed ones (rejected
by packaging) must be rejected; extras on/off evaluate the marker."""
D["R01"] = """Workload: random finite indexes (3-9 packages, versions, extras, markers, cycles, diamonds) served by an in-memory
repository. Monitor: the recorded result and every candidate the index really returned. Oracle: direct check of every root and
dependency of every chosen package with the reference evaluator, reachability for 'nothing unneeded'."""
D["R02"] = """Same worlds, biased to conflicts. Oracle: exhaustive search over all version choices (worlds are small enough);
step counter + watchdog for termination; when the newest choice of each reachable package is mutually consistent it must be the
answer (locks/installed/update variants)."""
D["I01"] = """Workload: random wheels (all data schemes, scripts with shebangs, entry points, gui, headers, nested, unicode and
empty files, RECORD with/without hashes) installed into real venv-like targets. Monitor: snapshots of the whole target before
and after. Oracle: expected placement computed from the archive; RECORD re-hashed from disk, scripts executed."""
D["I02"] = """Workload: histories of install / update / uninstall of several packages with shared directories, links, user files,
__pycache__. Oracle: a model of the target (union of per-package files), compared with the snapshot after every step; update
compared with a fresh uninstall+install in a twin target."""
D["I03"] = """Workload: install over pre-populated targets with a fault injected at the k-th file system operation for *every* k
(open, write, rename, mkdir, chmod, copy) and damaged archives. Oracle: byte-exact snapshot equality when an error is raised;
a success must be the complete state."""
D["I04"] = """Workload: each tampering class at each member of the archive, combined with every hash spelling. Oracle: the class
(must-reject / must-accept / warn-only) known from how the archive was made; rejected ones leave the target unchanged."""
D["I05"] = """Workload: zip / tar / wheel / RECORD / url names from a hostile-name grammar (.., absolute, links, links to links,
device names, windows forms). Monitor: audit hook on all mutating file system calls + sentinel tree around the target. Oracle: no
event and no change outside of the target."""
D["N01"] = """Workload: histories over urls x server behaviours (status, redirects, compressions, truncation, disconnect, stall,
etag / last-modified changes) x cache directives x client restarts x concurrent fetchers against a local server that logs each
request. Oracle: model of what the server held at each instant and which contents the directive allows; *enumerated* validator
successions."""
D["C01"] = """Workload: every integer / float / date / boolean literal form in every place (*enumerated*), random documents in the
whole syntax (tables, implicit and array tables, dotted and quoted keys, all string forms and escapes, comments everywhere,
random white space, no final newline), random data trees (mixed lists, empty containers, control characters), edit histories
(set, delete, add, replace by another kind, list insert/pop) with a save after each. Oracle: tomllib on the source and on
everything written (types, signs of zero, nan and instants included), text identity, every comment is numbered and followed,
key order of what was not edited. Not covered: rejection of invalid documents."""
D["C02"] = """Workload: random METADATA (every field of the standard, multi-line licences, unicode, descriptions that look like headers),
WHEEL with several tags, RECORD rows with commas, quotes and line breaks, signing of real trees, entry points with extras and
odd names, request and store marks, pyvenv.cfg, an environment made by the tool and started, site links; each in both
directions. Oracle: packaging.metadata, importlib.metadata, csv, the `site` module and the interpreter itself read what was
written; what such tools write is read with the same values; a second save changes nothing. Not covered: direct_url files."""

D["C03"] = """Workload: random histories over generated project, group and repository configuration files (every documented section
in random order and spelling, unknown keys at every level, numbered comments, no file at all), through the real Project,
ProjectGroup and RepositoryManagement objects, with reloads in between and an undo at the end. Oracle: the file read by tomllib
after every step equals a dictionary model of the file with exactly the edit applied (requirements and ranges compared by
meaning), every comment of an untouched key is still there, the reloaded objects carry the model's values, and project/group
membership follows. Not covered: the interactive commands on top of these objects."""

D["N02"] = """Workload: generated projects (unicode, multi-line, absent and repeated metadata) and 1-4 distribution files each (sizes
around the chunk size, bytes that look like boundaries, build tags) published with the real publisher to a loopback server which
accepts, refuses before or after reading, redirects, drops requests or closes idle connections. Monitor: the server's log of raw
requests. Oracle: a strict multipart reader decodes each request; content, digests (hashlib), file and python type, name,
version and metadata fields must equal the file and the generated project, and accepted requests match the files one to one; a
refusal or a server that never answers must surface as an error. Not covered: TLS, and other repository types (none publish)."""

D["K01"] = """Workload: short histories of 2-12 threads over the real promises (racing completers, waiters, pollers, listeners that
raise, chain or register others, groups waited for with and without cancellation, thread pool work), computed-once properties
(failures, cross dependencies, frozen classes, short-lived owners) and monitored operations. Schedule perturbation: a trace
function delays the threads at randomly chosen executed lines of the code under test (the evidence counts the distinct delayed
lines) under a 10 us switch interval. Oracle over the recorded events: one accepted completion, each listener called once with the
completed promise, all waiters and pollers see exactly the accepted outcome, nobody is left waiting at the watchdog, a group wait
ends only when all are settled, one successful computation per property with no two computations overlapping, and
enter/failed/leave once each and in order. Group waits look at results in order, so a failure behind a promise that never settles
by itself is not reported: intentional, and not demanded."""
D["K02"] = """Workload: histories over real pools (1-4 workers, idle times down to 50 ms, 1-3 submitting threads): small and
300 kB values, failing tasks, tasks that exit / kill / interrupt their worker, unsendable arguments, unreadable results, direct
writes to the standard streams by the task and its children, cancellations of queued / running / finished tasks, group waits with a
failure, closing with work left. Monitor: each task leaves start/end marks (pid, monotonic time) in files, listeners and
outcomes are recorded, the number of worker processes is sampled, output is captured. Oracle: submissions, executions and
deliveries match one to one by kind of task, innocents are unaffected by dying neighbours, an accepted cancellation ends as
cancelled and a refused one with the result, never more tasks at a time than workers, output complete and in order, no worker
process left after close, nothing pending at the watchdog (liveness restated as that bound). Lost marks cannot excuse a result:
they are written before the task's work."""
D["U01"] = """Workload: generated command trees (nested sub-commands, short/long options, typed, choice, repeatable and mutually
exclusive ones, flags, fields, one- and multi-valued positionals, defaults), lines rendered from chosen values (shuffled options,
grouped flags, `=` forms, empty, dash-led, `=`-containing and non-ASCII values, repeated fields); about 20 kinds of single mistake put
into these lines; commands and fields made from generated functions; dynamic commands and arguments. Monitor: the parsed levels'
arguments and the executions recorded by the commands. Oracle: arguments equal the values rendered (type included) plus defaults;
each command on the line runs once, outermost first; a line with a mistake has a parse error or raises, and nothing runs; the help
can be printed and names every argument; the caller's list is left alone. Options after the first value of a multi-valued
positional belong to it (intentional: `pkm run` hands them on), the last of several uses of a non-repeatable option wins
(intentional). `main.py` itself can not run at this commit (undefined names) and is not claimed."""
D["U02"] = """Workload: histories of additions, replacements, removals, reloads, wrong passwords (near misses of the right one) on fresh
and on open stores, passwords asked for on a stand-in terminal, bit flips, cuts, splices and garbage in copies of the file; hostile
names, keys and values. Oracle: a dictionary that saw the same history; refusal leaves file and store as they were; the bytes on
disk (raw and decoded) contain no credential and no password. Base64 ignores some alterations: then what is read must be
unaltered. Passwords that differ only by trailing NULs are one key to HMAC and not tried. Two stores open at once over one file
overwrite each other's additions: not claimed."""
D["U03"] = """Workload: generated templates (nested folders, rendered names including empty, slashed and undefined ones, `.tmpl` files
with conditions, loops and filters, binary files, preserved folders, ignore files at every level) rendered through `execute` and
through the template's command into missing, empty and populated targets, with prepared conflicts (files, folders in place of files and
the reverse, dangling links) and failures (setup, template errors), with and without permission, and a second time; the shipped
templates with answers from a stand-in terminal. Monitor: byte and mode snapshots of target, template and temporary directory, the
calls of `post_render`. Oracle: a model of template semantics independent of jinja. A trailing newline of a rendered file is not
compared (jinja drops it); values that lead out of the target with `..` or absolute paths are not tried; two entries that render to
one name are not tried."""

D["I07"] = """Workload: the running interpreter and staged ones (glibc of several versions on six architectures, musl, 32-bit on 64-bit,
macOS Intel and ARM, Windows, PyPy, debug builds): an interpreter that answers the introspection's questions as the stage says, with
a made ELF binary and musl loader, so the whole path from running the interpreter to the verdict is the real one. Monitor: the
verdict on every supported tag, on clear negatives built from the stage (newer interpreter, foreign ABI, architecture, libc, system)
and on compressed sets; scores of pairs; artifacts chosen by `best_artifact_for` from generated lists with python requirements.
Oracle: the lists of packaging.tags for the same facts, packaging's SpecifierSet, and a dominance order (a tag better in every
component has to win). Tags which packaging lists differently by version or which the rules leave open are not judged."""
D["R03"] = """Workload: histories of install / remove / lock / unlock / save / load over five real environments (four kinds, two of one
kind) with names spelled differently at every step, empty and missing lock files, project locks, saving after loading. Monitor: after
every step the lock's content for every environment, `locked_versions`, and the order in which a repository behind the real
LockPrioritizingRepository offers its packages; the environment's mark computed by another process. Oracle: a dictionary model."""

D["R04"] = """Workload: random trees of contexts (global, zoo, environment, group, project) with configured repositories: recording ones
loaded through a real extension entry point, simple and PyPI-style indexes on a loopback server, folders of wheels and source
distributions; bindings (by name and inline), bind-only, inheritance modes, URL protocols, and configuration changes made through
RepositoryManagement, after which the tree is loaded anew. Monitor: what every lookup returned (the last number of a version tells
the repository) and which repositories the event log says were asked. Oracle: a model of the configured search order with
packaging's SpecifierSet; indexes are also changed between loads, return 404 and use absolute, root and relative links."""

D["I06"] = """Workload: histories of installs, updates, uninstalls and forced removals over generated indexes (extras, true and false
markers, circles, shared namespace folders, data files, versions that conflict) in real environments, one per concurrency mode,
with packages of another tool that nothing requests (some with broken dependencies), names spelled differently at every step, and
short pauses of pool threads before file-system calls. Monitor: a reader of its own over the site directory after every step
(versions, marks, requirements, files, empty folders), interpreter runs that import what is installed. Oracle: closures computed
with packaging's Requirement and markers, complete search for "refused" and "needless change" verdicts (skipped above 60 000
steps), dictionaries of requests, byte snapshots on refusal, and the modes against each other."""

D["B01"] = """Workload: generated projects (src layout, listed packages, nested listed packages; every field of `[project]` in its
legal spellings, readme and license as text, path or table, requirements with extras, markers, URLs, odd file names, empty, binary,
executable and pre-1980 files, caches of earlier runs), built by library calls from different working directories and by the
build-backend hooks in a process of their own; the source distribution is unpacked and built again. Monitor: the bytes of every
archive, byte snapshots of the project before and after, installs by pip and by pkm (normal and editable) into a virtual environment
whose declared scripts and entry points are then run. Oracle: the configuration as generated, read against the archives with
zipfile, tarfile, email, csv, configparser and packaging (file names, metadata, requirements, tags)."""
FALSE = """* R02: the predicted result of an update was first computed as if nothing else had been requested in the environment; since the
  I06 repair updates respect earlier requests, so the prediction now follows them (it alarmed on the repaired tree, seed 4 and 9).
* B01: pkm may merge two declarations of one package; requirements are compared by what they admit in every environment, not by text."""

D["I08"] = """Workload: histories of install (extras, specifiers, updates, another build of a version by its URL), uninstall, forced removal,
deletion of environments and cleaning over the environments of a real zoo, called by its path, a symbolic link or a relative path, in
all concurrency modes; packages with scripts for `#!python`, entry points, namespace folders, data, headers, `.pth` files, platform
tags and misleading file names. Monitor: an interpreter of each environment reports modules, data, metadata and entry points, every
script is run, pkm's own view (requests, dependencies) is read, and the shared store is compared with the links found in site
packages. Oracle: a twin environment outside the zoo on which the same calls are made without sharing. Packages that put files into
another package's regular (not namespace) package are beyond what a link can do and are not tried."""

D["A01"] = """Workload: random indexes (libraries with path files, programs and data; applications with console and gui scripts under
awkward names; plugins; names in several spellings; conflicting requirements; versions that are released later) and histories of 6-12
operations: host install and uninstall, application install, repeated install, update, plugin install and uninstall, uninstall through
the container or as a package. Then projects as applications: installed from their directory (editable or copied), with an application
table and exposed packages, and published as cnt-app source distributions that pkm and pip install (the index has a stand-in for the
pkm distribution whose path file leads to /repo). Monitor: the whole environment is read before and after every operation; files are
attributed to the container whose operation brought them; the host's interpreter and each application's scripts (and a child interpreter
of them) report imported versions, listed distributions, plugins, data, programs on PATH, arguments, input, prefix, exit status; RECORD is
compared with the files. Scripts of applications also start those of other applications, which start the first again. Oracle: a model of which
files belong to whom, a brute-force solver that says which requests can be satisfied
and which application version is the newest that fits, and closure of the requirements. Bounds: at most 4 libraries, 3 applications, 2
plugins, 3 versions each. Not decided: scripts of an application whose version a plugin changed (they stay those of the last install or
update), programs of the dependencies in containers that came from a source distribution (their first line names the interpreter that
built them), scripts of the same name in two places. Cost: 40 s quick. The defects found: 14 fix commits, see known_findings.txt."""
D["E01"] = """Workload: folders on PATH and in search paths (missing, unreadable, linked twice, relative, with odd names) with interpreters of
staged versions (scripts that start the real python3.12 under their own name with its version replaced, so that environments made of them
work), links to them, and some twenty kinds of things that are none: not executable, no program, failing, killed, printing anything or
nothing, bytes that are not UTF-8, dangling and looping links, folders, similar names. Environments at plain, nested, relative, linked and
non-ASCII places, over files, folders and environments, of broken and missing interpreters; then the interpreter is upgraded in place,
the stored information damaged, the environment moved, made read-only or made again. Projects with requires-python and an environment
at the default place, a configured one or a zoo, over nothing, a working, a dangling environment or a folder of files. Monitor: every
staged file logs its start; the interpreters of the environments report prefix, version, paths and markers themselves. Oracle: the model of
what was staged, packaging's specifiers, the interpreter's own report. Bounds: one real interpreter on this machine; requirements whose
meaning for pre-releases is V03's are left out where a pre-release is installed. Not decided: interpreters that never answer, and Windows.
Cost: 35 s quick. The defects found: see known_findings.txt."""
D["R05"] = """Workload: worlds of four packages with up to three sources each besides an index: wheels and source distributions by URL (two servers,
equal paths, queries, percent-encodings, fragments with and without hashes) and by file (also in folders with spaces, percent-encoded), project
folders (of pkm and of backends without support for editable installs), git repositories of one project or a group, by default branch, branch
(also with a slash), tag, full and short commit, over dumb http of the loopback, by path, and over ssh (a stand-in that runs the other
side); they require each other by name or by reference. Histories over two environments: install by reference, version or name, with
markers, extras and other spellings, with updates; publish anew (content changes, versions do not); make a reference impossible (404, 500,
cut off, damaged, wrong hash, missing branch, unreachable, another package). In every sixth world a stand-in for git kills pkm before or
after a step of fetching. Monitor: each published content holds a token; after each step the environments' modules, records and requests
are read from the files, and the other environment's too. Oracle: closure of the requests over the sources (at most one reference or
version per package: must succeed; two references in what is asked for: must fail), the token of the reference now or at the time it was
installed. Not decided: references together with version ranges (pkm refuses those), histories of a branch that were rewritten, simultaneous
fetches of one repository by several processes. Cost: 40 s quick. The defects found: see known_findings.txt."""
D["B02"] = """Workload: random graphs of distributions (wheels and tar.gz, zip and bz2 source archives; static, backend-reported and runtime
requirements; names in several spellings) whose generated backends are modules, objects or nested objects in a tree, in a package of
the index, or the default one; hooks may be missing, print megabytes or bytes that are no UTF-8, raise, exit, or fail only for now.
Also rings of build requirements, diamonds, changed archives under one name, five installs of one archive at the same time in threads
and processes with nothing cached, more builds in the pool than it has workers, and source projects. Monitor: each hook call appends
what it sees to a log (environment, import path, distributions, arguments, working directory, which backend answers); the installed
files, temporary files and kept wheels are read after each step; a watchdog decides "ends" (60 s for what takes 3). Oracle: the
graph as generated: who can be built, what the wheel must contain (it embeds tokens of the requirements it could import), how often
a hook may run. That the folder of packages (a file-system repository) stands for an index is an assumption."""
