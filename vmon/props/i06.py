"""I06: histories of install / update / uninstall over generated package indexes in real environments, one environment per concurrency mode;
what is really installed afterwards is judged by a reader of its own, and the modes against each other."""
import contextlib
import io
import json
import os
import random
import re
import subprocess
import sys
import threading
import time
import warnings
from pathlib import Path

from packaging.requirements import Requirement
from packaging.specifiers import SpecifierSet
from packaging.version import Version as PV

from vmon.core import short_tb
from vmon.world import fake_installed, make_env, reset_tree, snapshot, tree_diff, wheel_files, write_wheel

NAMES = ["alpha", "Beta", "gam.ma", "del_ta", "eps-ilon", "Ze.ta_x", "eta", "theta"]
VERSIONS = ["1.0", "1.1", "2.0", "2.1.3", "3.0"]
SPECS = [">=1.1", "<2", ">=2", "==1.*", "!=2.0", "~=1.0", "<=2.0", ">=1.0,<3", ">1.0", "==2.0"]
TRUE_MARKERS = ['python_version > "3"', 'sys_platform == "linux"', 'os_name == "posix" or python_version < "3"']
FALSE_MARKERS = ['python_version < "3"', 'sys_platform == "win32"', 'platform_system == "Windows"']


def norm(n):
    return re.sub(r"[-_.]+", "-", n).lower()


def spelled(r, n):
    return r.choice([n, n, n.lower(), n.upper(), re.sub(r"[-_.]", r.choice("-_."), n)])


class Index:
    """a generated index: {name: {version: [requirement text]}} and its wheels"""

    def __init__(self, r, folder):
        self.folder = folder
        self.requires, self.extras, self.members = {}, {}, {}
        names = r.sample(NAMES, r.randint(4, len(NAMES)))
        shared = {n: r.random() < .5 for n in names}
        islands = r.random() < .4
        for i, n in enumerate(names):
            versions = sorted(r.sample(VERSIONS, r.choice([1, 2, 3, 4, 4])), key=PV)
            self.requires[norm(n)] = {}
            has_extra = r.random() < .35
            self.extras[norm(n)] = has_extra
            for v in versions:
                deps = []
                later = names[i + 1:] if r.random() < .92 else [x for x in names if x != n]     # now and then in circles
                if islands:
                    later = [x for x in later if names.index(x) % 2 == i % 2]
                for d in r.sample(later, min(len(later), r.choice([0, 1, 1, 2]))):
                    x = r.random()
                    marker = f"; {r.choice(TRUE_MARKERS)}" if x < .15 else f"; {r.choice(FALSE_MARKERS)}" if x < .27 else ""
                    extra = "[more]" if r.random() < .25 else ""
                    deps.append(f"{spelled(r, d)}{extra} {r.choice(['', r.choice(SPECS), r.choice(SPECS)])}{marker}".strip())
                if has_extra and later:
                    deps.append(f"{spelled(r, r.choice(later))} {r.choice(['', r.choice(SPECS)])}; extra == \"more\"")
                self.requires[norm(n)][v] = deps
                self.members[norm(n), v] = self.wheel(r, n, v, deps, has_extra, shared[n])
        self.names = names

    def wheel(self, r, n, v, deps, has_extra, shared):
        top = norm(n).replace("-", "_")
        tok = f"{norm(n)} {v}"
        files = {f"vm_{top}/__init__.py": f"TOKEN = {tok!r}\n\n\ndef main():\n    print(TOKEN)\n".encode()}
        for k in range(r.randint(0, 3)):
            files[f"vm_{top}/{r.choice(['a', 'b', 'sub/c', 'sub/deep/d'])}{k}.txt"] = r.randbytes(r.choice([0, 10, 3000]))
        if shared:
            for k in range(r.randint(1, 3)):
                files[f"vmns/{r.choice(['', 'part/', 'part/x/'])}{top}_{k}.py"] = f"TOKEN = {tok!r}\n".encode()
        if r.random() < .3:
            files[f"{self.dist(n, v)}.data/data/share/vm/{r.choice(['', 'doc/'])}{top}.txt"] = tok.encode()
        eps = {"console_scripts": {f"run-{top}": f"vm_{top}:main"}} if r.random() < .4 else None
        m = wheel_files(n, v, files, deps, ["more"] if has_extra else [], eps)
        write_wheel(self.folder, n, v, m)
        return m

    @staticmethod
    def dist(n, v):
        from vmon.world import dist_dir
        return dist_dir(n, v)

    def deps(self, name, version, extras, environment):
        out = []
        for t in self.requires[name][version]:
            q = Requirement(t)
            if q.marker is None or any(q.marker.evaluate({**environment, "extra": e}) for e in ["", *extras]):
                out.append(q)
        return out

    def component(self, names):
        """every project that has to do with these in any way"""
        links = {n: set() for n in self.requires}
        for n, vs in self.requires.items():
            for ts in vs.values():
                for t in ts:
                    links[n].add(norm(Requirement(t).name))
                    links.setdefault(norm(Requirement(t).name), set()).add(n)
        todo, done = [n for n in names if n in links], set()
        while todo:
            n = todo.pop()
            if n not in done:
                done.add(n)
                todo.extend(links[n])
        return done

    def solvable(self, requests, fixed=None, limit=60_000):
        """complete search: a {name: version} that satisfies all the requests, None, or 'unknown'; fixed: versions that may not change"""
        from packaging.markers import default_environment
        environment = default_environment()
        steps = [0]
        fixed = fixed or {}

        def admit(q, v):
            return q.specifier.contains(v, prereleases=True)

        def search(chosen, done, pending):
            steps[0] += 1
            if steps[0] > limit:
                raise TimeoutError
            if not pending:
                return chosen
            q, rest = pending[0], pending[1:]
            n = norm(q.name)
            if n not in self.requires:
                return None
            for v in ([chosen[n]] if n in chosen else [fixed[n]] if n in fixed else sorted(self.requires[n], key=PV, reverse=True)):
                if not admit(q, v):
                    continue
                new = [(n, e) for e in ["", *sorted(q.extras)] if (n, e) not in done]
                more = [d for _, e in new for d in self.deps(n, v, [e] if e else [], environment)]
                got = search({**chosen, n: v}, done | set(new), more + rest)
                if got is not None:
                    return got
            return None

        try:
            return search({}, frozenset(), list(requests))
        except TimeoutError:
            return "unknown"


class Site:
    """what is installed, by a reader of its own"""

    def __init__(self, site):
        self.packages = {}                  # key -> (version, requested text or None, [Requirement], dist-info name)
        self.twice = []
        for di in sorted(Path(site).glob("*.dist-info")):
            meta = (di / "METADATA").read_text()
            name = re.search(r"^Name: (.*)$", meta, re.M).group(1)
            version = re.search(r"^Version: (.*)$", meta, re.M).group(1)
            req = di / "REQUESTED"
            if norm(name) in self.packages:
                self.twice.append(name)
            self.packages[norm(name)] = (version, req.read_text().strip() if req.exists() else None, [Requirement(x) for x in re.findall(r"^Requires-Dist: (.*)$", meta, re.M)], di.name)

    def versions(self):
        return {n: p[0] for n, p in self.packages.items()}

    def marks(self):
        return {n: p[1] for n, p in self.packages.items() if p[1] is not None}

    def needs(self, name, extras, environment):
        return [q for q in self.packages[name][2] if q.marker is None or any(q.marker.evaluate({**environment, "extra": e}) for e in ["", *extras])]

    def closure(self, requests, environment):
        """the installed projects that these requests need"""
        todo, seen = [(norm(q.name), e) for q in requests for e in ["", *q.extras]], set()
        while todo:
            n, e = todo.pop()
            if (n, e) in seen or n not in self.packages:
                continue
            seen.add((n, e))
            for q in self.needs(n, [e] if e else [], environment):
                todo.extend((norm(q.name), x) for x in ["", *q.extras])
        return {n for n, _ in seen}

    def unsatisfied(self, requests, environment):
        out, todo, seen = [], [("the user", q) for q in requests], set()
        for n in self.packages:
            todo.extend((f"{n} {self.packages[n][0]}", q) for q in self.needs(n, [], environment))
        while todo:
            who, q = todo.pop()
            n = norm(q.name)
            if n not in self.packages:
                out.append(f"{who} needs {q}, which is not installed")
            elif not q.specifier.contains(self.packages[n][0], prereleases=True):
                out.append(f"{who} needs {q}, installed is {self.packages[n][0]}")
            else:
                for e in q.extras:
                    if (n, e) not in seen:
                        seen.add((n, e))
                        todo.extend((f"{n}[{e}]", d) for d in self.needs(n, [e], environment))
        return sorted(set(out))


class Delays:
    """short pauses of pool threads right before they change directories and files: interleavings that a busy machine would produce"""

    def __init__(self):
        self.on, self.main, self.seed, self.count = False, threading.get_ident(), 0, 0
        self.local = threading.local()
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if not self.on or event not in ("os.mkdir", "os.rmdir", "os.remove", "open", "shutil.move", "os.listdir", "os.scandir") or threading.get_ident() == self.main:
            return
        if event == "open" and not (len(args) > 2 and isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR)):
            return
        rnd = getattr(self.local, "rnd", None)
        if rnd is None or self.local.seed != self.seed:
            rnd = self.local.rnd = random.Random(f"{self.seed} {threading.get_ident()}")
            self.local.seed = self.seed
        if rnd.random() < .3:
            self.count += 1
            time.sleep(rnd.choice([0, 0, .0005, .001, .003]))


def repository_for(index):
    from pkm.api.distributions.distribution import Distribution
    from pkm.api.packages.package import PackageDescriptor
    from pkm.api.repositories.repository import AbstractRepository
    from pkm.api.versions.version import Version

    class Wheels(AbstractRepository):
        def __init__(self):
            super().__init__("wheels")
            self.held = {}
            for w in sorted(index.folder.glob("*.whl")):
                name, version = w.name.split("-")[:2]
                real = next(n for n in index.names if norm(n) == norm(name))
                self.held.setdefault(norm(name), []).append(Distribution.package_from(w, PackageDescriptor(real, Version.parse(version))))

        def _do_match(self, dependency, env):
            return self._sorted_by_version([p for p in self.held.get(norm(dependency.package_name), ()) if dependency.version_spec.allows_version(p.version)])

    return Wheels()


def run(ctx):
    from packaging.markers import default_environment
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.environments.environment import Environment
    from pkm.api.pkm import pkm
    from pkm.resolution.pubgrub import UnsolvableProblemException
    warnings.simplefilter("ignore")
    ctx.rule = ("history of install / update / uninstall; afterwards (read from the site directory itself) every request and every dependency of an installed package is satisfied, the marks are the "
                "requests, projects without any relation to the change are untouched, what the removal orphaned is gone and nothing else; failed changes change nothing; equal outcome in all concurrency modes")
    ctx.required_events = ["installs", "updates", "uninstalls", "refused installs", "dependencies kept", "orphans removed", "mode none", "mode thread", "mode proc", "delays", "imports", "forced removals"]
    environment = default_environment()
    delays = Delays()
    worlds = []
    for m in ("none", "thread", "proc"):
        env = make_env(ctx, f"env-{m}")
        worlds.append((m, Path(env.path), snapshot(env.path)))
    site_of = {m: Path(Environment(root).installation_target.purelib) for m, root, _ in worlds}
    more = ctx.budget(22, 500)
    i = 0
    while more() and sum(ctx._vkeys.values()) < 10:
        r = ctx.sub_rng("history", i)
        i += 1
        index = Index(r, Path(ctx.scratch) / "work" / f"idx{i}")
        repo = repository_for(index)
        shown = {f"{n} {v}": ts for n, vs in index.requires.items() for v, ts in vs.items()}
        modes = ["none", "thread"] + (["proc"] if i % 4 == 1 else [])
        used = [w for w in worlds if w[0] in modes]
        for _, root, base in used:
            reset_tree(root, base)
        foreign = {}            # installed by another tool, nothing requests them
        for n, v, deps in r.sample([("pip", "24.0", []), ("Set_uptools", "70.1.0", []), ("old.tool", "1.0b2", ["set.uptools >=1"]), ("broken-tool", "0.1", ["set.uptools <2", "absent >1"])],
                                   r.choice([0, 1, 2, 3])):
            foreign[norm(n)] = v
            for m, _, _ in used:
                fake_installed(site_of[m], n, v, deps)
        requests = {}           # key -> Requirement
        history = []
        for step in range(r.choice([3, 6, 9])):
            before = {m: Site(site_of[m]) for m, _, _ in used}
            installed = before["none"].packages
            updates = []
            if requests and r.random() < .4:
                kind = "uninstall"
                pool = sorted(installed)
                names = [spelled(r, r.choice(index.names)) if r.random() < .1 else spelled(r, next((n for n in index.names if norm(n) == norm(k)), k))
                         for k in r.sample(sorted(requests) if r.random() < .6 else pool, 1 if r.random() < .7 or len(pool) < 2 else min(2, len(requests)))]
                call = names
            else:
                kind = "install"
                call = []
                deps_there = [n for n in index.names if norm(n) in installed and norm(n) not in requests]
                tight = bool(deps_there) and r.random() < .3         # a dependency that is there, wanted at a version of its own
                for n in [r.choice(deps_there)] if tight else r.sample(index.names, r.choice([1, 1, 1, 2, 3])):
                    if tight:
                        call.append(f"{spelled(r, n)} {r.choice(['==' + r.choice(sorted(index.requires[norm(n)])), r.choice(SPECS)])}")
                        continue
                    extra = "[more]" if index.extras[norm(n)] and r.random() < .5 else ""
                    call.append(f"{spelled(r, n)}{extra} {r.choice(['', '', r.choice(SPECS), r.choice(SPECS)])}".strip())
                if set(installed) - set(foreign) and r.random() < .35:
                    kind = "update"
                    pool = sorted(set(installed) - set(foreign))
                    updates = r.sample(pool, 1 if len(pool) < 2 or r.random() < .6 else 2)
                    if r.random() < .75:
                        call = [next((f"{n}" for n in index.names if norm(n) == u), u) for u in updates]
            history.append({"step": step, "do": kind, "args": call, **({"updates": updates} if updates else {})})
            where = {"index": shown, "history": history}
            outcomes = {}
            for m, root, base in used:
                env = Environment(root)
                target = env.installation_target
                pkm.config.concurrency_mode = m
                tree = snapshot(root)
                ctx.event(f"mode {m}")
                delays.seed, delays.on = f"{i} {step}", m == "thread"
                err = io.StringIO()
                try:
                    with contextlib.redirect_stdout(err), contextlib.redirect_stderr(err):
                        if kind == "uninstall":
                            result = target.uninstall(list(call))
                        else:
                            result = target.install([Dependency.parse(t) for t in call], repo, updates=updates or None)
                    how = "ok"
                except UnsolvableProblemException as e:
                    how, result = "unsolvable", e
                except Exception as e:
                    how, result = "crash", e
                delays.on = False
                if delays.count:
                    ctx.event("delays", delays.count)
                    delays.count = 0
                ctx.evaluated((m, i, step), sample=history[-1] if step == 1 else None)
                after = Site(site_of[m])
                outcomes[m] = (how, after)
                say = lambda key, msg: ctx.violation(key, f"[{m}] step {step} {history[-1]}: {msg}\n  before {before[m].versions()} requests {[str(q) for q in requests.values()]}", **where, mode=m)
                if how == "crash":
                    say(f"{kind}-crash", f"{short_tb(result)} {err.getvalue()[-300:]}")
                    break
                if how == "unsolvable":
                    d = tree_diff(tree, snapshot(root))
                    if d:
                        say("failed-change", f"the refused change changed the environment: {d}")
                        break
                    if kind == "uninstall":
                        say("uninstall-refused", f"{short_tb(result)}")
                        break
                    wanted = {**requests, **{norm(Requirement(t).name): Requirement(t) for t in call}}
                    ctx.event("refused installs")
                    solution = index.solvable(wanted.values())
                    if solution not in (None, "unknown"):
                        say("refused", f"refused, but {solution} satisfies everything that is requested")
                        break
                    continue
                if after.twice:
                    say("twice", f"installed twice: {after.twice}")
                if kind == "uninstall":
                    ctx.event("uninstalls")
                    gone = {norm(n) for n in call}
                    left = {k: q for k, q in requests.items() if k not in gone}
                    orphans_before = set(before[m].packages) - before[m].closure(requests.values(), environment)
                    stay = before[m].closure([*left.values(), *(Requirement(k) for k in orphans_before - gone)], environment)
                    lost = (set(before[m].packages) & stay) - set(after.packages)
                    kept = set(after.packages) - stay
                    if gone & stay & set(before[m].packages):
                        ctx.event("dependencies kept")
                    if len(set(before[m].packages) - set(after.packages)) > len(gone):
                        ctx.event("orphans removed")
                    if lost:
                        say("removed-needed", f"removed too: {sorted(lost)}")
                    if kept:
                        say("left-over", f"still installed: {sorted(kept)}")
                    changed = {k for k in set(after.packages) & set(before[m].packages) if after.packages[k][0] != before[m].packages[k][0]} | set(after.packages) - set(before[m].packages)
                    if changed:
                        say("uninstall-changed", f"other packages changed: {sorted(changed)}")
                    if m == "none":
                        reported = {n for n in call if norm(n) in before[m].packages} & set(result)
                        truly = {n for n in call if norm(n) in before[m].packages and norm(n) not in after.packages}
                        if reported != truly:
                            say("uninstall-report", f"reported as removed: {sorted(result)}, removed are {sorted(truly)}")
                    asked = left
                else:
                    ctx.event("updates" if updates else "installs")
                    asked = {**requests, **{norm(Requirement(t).name): Requirement(t) for t in call}}
                    new = set(asked) - set(requests) | {norm(Requirement(t).name) for t in call}
                    related = index.component(new | set(updates))
                    for k, p in before[m].packages.items():
                        if k not in related and after.packages.get(k, (None,))[0] != p[0]:
                            say("unrelated-changed", f"{k} {p[0]} has nothing to do with the change, now {after.packages.get(k, ('absent',))[0]}")
                    if any(k in after.packages and after.packages[k][0] != p[0] and k not in new for k, p in before[m].packages.items()):
                        ctx.event("changed dependencies")
                    bare = [t for t in call if not Requirement(t).specifier]
                    if not bare and not updates and m == "none":
                        touched = [k for k, p in before[m].packages.items() if after.packages.get(k, (None,))[0] != p[0]]
                        if touched and not before[m].unsatisfied(requests.values(), environment):
                            ctx.event("needed changes judged")
                            s = index.solvable([Requirement(t) for t in call], fixed=before[m].versions())
                            if s not in (None, "unknown"):
                                say("needless-change", f"{touched} changed, but adding {s} to what was there satisfies everything")
                    extra = set(after.packages) - set(before[m].packages) - after.closure(asked.values(), environment)
                    if extra:
                        say("extra", f"nothing needs the newly installed {sorted(extra)}")
                for k, v in foreign.items():
                    if after.packages.get(k, (None,))[0] != v and not (kind == "uninstall" and k in gone):
                        say("foreign", f"{k} {v}, installed by another tool, is now {after.packages.get(k, ('absent',))[0]}")
                broken = before[m].unsatisfied([], environment)
                bad = [b for b in after.unsatisfied(asked.values(), environment) if not (b in broken and norm(b.split()[0]) in foreign)]
                if bad:
                    say("unsatisfied", "; ".join(bad[:4]))
                marks = {k: (norm(Requirement(t).name), Requirement(t).specifier, frozenset(Requirement(t).extras)) for k, t in ((k, t.replace(" *", "")) for k, t in after.marks().items())}
                wanted_marks = {k: (k, q.specifier, frozenset(q.extras)) for k, q in asked.items() if k in after.packages}
                if {k: (x[0], x[2]) for k, x in marks.items()} != {k: (x[0], x[2]) for k, x in wanted_marks.items()} or \
                        any(marks[k][1].contains(v) != wanted_marks[k][1].contains(v) for k in marks for v in VERSIONS):
                    say("marks", f"requested-by-user marks are {after.marks()}, the requests {[str(q) for q in asked.values()]}")
                # the files are those of the installed packages
                files = {f for f in snapshot(site_of[m]) if not f.endswith(".pyc") and "__pycache__" not in f and (f.startswith("vm") or ".dist-info/" in f) and not (site_of[m] / f).is_dir()}
                want = set()
                for k, p in after.packages.items():
                    for f in index.members.get((k, p[0]), [f"{p[3]}/METADATA"]):
                        if ".data/" not in f:
                            want.add(f)
                odd = {f for f in files if f not in want and f.rsplit("/", 1)[-1] not in ("INSTALLER", "REQUESTED", "RECORD", "INSTALLATION_MODE")}
                if want - files or odd:
                    say("files", f"missing files {sorted(want - files)[:4]}, files of no installed package {sorted(odd)[:4]}")
                empty = [str(d.relative_to(root)) for d in list(site_of[m].rglob("vm*")) + list((root / "share").rglob("*")) if d.is_dir() and not any(d.iterdir())]
                if empty:
                    say("empty-directories", f"left behind: {empty[:4]}")
            else:
                hows = {m: (h, a.versions(), {k: str(Requirement(t.replace(" *", ""))) for k, t in a.marks().items()}) for m, (h, a) in outcomes.items()}
                first = next(iter(hows.values()))
                for m, h in hows.items():
                    if h != first:
                        ctx.violation("modes-differ", f"step {step} {history[-1]}: mode {modes[0]}: {first}, mode {m}: {h}", **where)
                if outcomes["none"][0] == "ok":
                    requests = asked
                    foreign = {k: v for k, v in foreign.items() if k in outcomes["none"][1].packages}
                if not ctx.violated or sum(ctx._vkeys.values()) < 10:
                    continue
            break
        # forced removal: this package and nothing else
        there = Site(site_of["none"]).packages
        if there and r.random() < .3 and not ctx.violated:
            victim = r.choice(sorted(there))
            for m, root, _ in used:
                was, tree = Site(site_of[m]).packages, snapshot(site_of[m])
                told = Environment(root).uninstall([spelled(r, victim)], force=True)
                now = Site(site_of[m]).packages
                ctx.event("forced removals")
                ctx.check(set(was) - set(now) == {victim} and len(told) == 1, "forced", f"[{m}] forced removal of {victim} removed {sorted(set(was) - set(now))} and reported {told}", index=shown, history=history)
                lost = [f for f, s in tree.items() if s[0] == "f" and not (site_of[m] / f).exists() and not f.endswith(".pyc")]
                mine = set(index.members.get((victim, was[victim][0]), [])) | {was[victim][3]}
                odd = [f for f in lost if f not in mine and not f.startswith(was[victim][3])]
                ctx.check(not odd, "forced-files", f"[{m}] forced removal of {victim} removed files of others: {odd[:4]}", index=shown, history=history)
        # what is installed runs
        if i % 3 == 1:
            for m, root, _ in used:
                have = {k: v for k, v in Site(site_of[m]).versions().items() if k not in foreign}
                if not have:
                    continue
                code = "import sys, json, importlib, importlib.metadata as im\nprint(json.dumps({n: [importlib.import_module('vm_' + n.replace('-', '_')).TOKEN, im.version(n)] for n in json.loads(sys.argv[1])}))"
                p = subprocess.run([str(root / "bin" / "python"), "-c", code, json.dumps(sorted(have))], capture_output=True, text=True)
                ctx.event("imports", len(have))
                want = {n: [f"{n} {v}", v] for n, v in have.items()}
                if p.returncode or json.loads(p.stdout) != want:
                    ctx.violation("import", f"[{m}] importing what is installed: {p.stdout[:300]} {p.stderr[-300:]}, expected {want}", index=shown, history=history)
