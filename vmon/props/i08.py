"""I08: histories over a real environment zoo with package sharing, in lockstep with private environments that share nothing; what the
interpreters of both see is compared after every step, and the shared store with what the environments link to."""
import contextlib
import io
import json
import os
import re
import shutil
import subprocess
import sys
import warnings
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

from packaging.version import Version as PV

from vmon.core import short_tb
from vmon.world import INTERP_LINES, dist_dir, make_env, reset_tree, snapshot, wheel_files, write_wheel

NAMES = ["alpha", "Beta", "gam.ma", "del_ta", "eps-ilon", "Ze.ta_x"]
VERSIONS = ["1.0", "1.1", "2.0", "2.1+loc.1"]
SPECS = [">=1.1", "<2", ">=2", "==1.*", "!=2.0", "~=1.0", ">=1.0,<3"]


def norm(n):
    return re.sub(r"[-_.]+", "-", n).lower()


def spelled(r, n):
    return r.choice([n, n, n.lower(), n.upper(), re.sub(r"[-_.]", r.choice("-_."), n)])


class Index:
    def __init__(self, r, folder, url):
        self.folder = folder
        folder.mkdir(parents=True)
        self.names = r.sample(NAMES, r.randint(3, len(NAMES)))
        self.modules, self.plain, self.shown, self.has, self.scripts = {}, set(), {}, {}, {}
        for i, n in enumerate(self.names):
            extra = r.random() < .5
            kind = r.choice(["plain"] * 4 + ["data", "pth", "headers", "plat"])
            tricky = kind == "plain" and r.random() < .3
            for v in sorted(r.sample(VERSIONS, r.choice([1, 2, 2, 3])), key=PV):
                deps = []
                for d in r.sample(self.names[i + 1:], min(len(self.names) - i - 1, r.choice([0, 0, 1, 2]))):
                    deps.append(f"{spelled(r, d)}{r.choice(['', '', '[more]'])}")
                if extra and i + 1 < len(self.names):
                    deps.append(f"{spelled(r, r.choice(self.names[i + 1:]))}; extra == 'more'")
                self.wheel(folder, r, n, v, deps, extra, kind, tricky, f"{norm(n)} {v}")
                self.shown[f"{n} {v}"] = [kind, *deps]
                self.has.setdefault(n, []).append((v, extra))
                if kind in ("plain", "plat"):
                    self.plain.add((norm(n), v))
        self.url = None
        if url:                                # another build of a version, reached by its url
            n = r.choice(self.names)
            v = self.has[n][-1][0]
            other = folder.parent / (folder.name + "-url")
            other.mkdir()
            self.wheel(other, r, n, v, [], False, "plain", False, f"{norm(n)} {v} of the url")
            self.url = (n, f"{n} @ file://{next(other.glob('*.whl'))}")

    def wheel(self, folder, r, n, v, deps, extra, kind, tricky, tok):
        top = norm(n).replace("-", "_")
        body = lambda what: f"TOKEN = {tok + ' ' + what!r}\n\n\ndef main():\n    import sys\n    print(TOKEN, sys.prefix)\n".encode()
        files = {f"vm_{top}/__init__.py": body("init"), f"vm_{top}/data/d.txt": tok.encode() * r.choice([1, 5000])}
        mods = {f"vm_{top}"}
        for k in range(r.randint(0, 2)):
            files[f"vm_{top}/sub/m{k}.py"] = body(f"m{k}")
            mods.add(f"vm_{top}.sub.m{k}")
        if r.random() < .5:
            files[f"vmns/{r.choice(['', 'part/'])}{top}.py"] = body("ns")
            mods |= {f[:-3].replace("/", ".") for f in files if f.startswith("vmns")}
        if r.random() < .3:
            files[f"{top}_single.py"] = body("single")
            mods.add(f"{top}_single")
        if tricky:
            files[f"vm_{top}/inner.pth"] = b"not a link file of the site\n"
            files[f"vm_{top}/x.dist-info/RECORD"] = b"a file of the package"
        dd = dist_dir(n, v) + ".data"
        if kind == "data":
            files[f"{dd}/data/share/vm/{top}.txt"] = tok.encode()
        elif kind == "headers":
            files[f"{dd}/headers/{top}.h"] = tok.encode()
        elif kind == "pth":
            files[f"vm_{top}_more/vm_{top}_hidden.py"] = body("hidden")
            files[f"{top}.pth"] = f"vm_{top}_more\n".encode()
            mods.add(f"vm_{top}_hidden")
        eps = {}
        if r.random() < .6:
            eps["console_scripts"] = {f"run-{top}": f"vm_{top}:main"}
        if r.random() < .2:
            eps.setdefault("console_scripts", {})[f"gui.{top}"] = f"vm_{top}:main"
        if r.random() < .3:
            eps["vm.group"] = {f"p-{top}": f"vm_{top}:main"}
        if r.random() < .45:
            for s in r.sample([f"{top}-script", f"run-{top}.sh", f"{top}.d.py", f"gui.{top}.cfg"], r.randint(1, 2)):
                files[f"{dd}/scripts/{s}"] = r.choice(INTERP_LINES) + b"import sys\nprint('script', " + repr(tok).encode() + b", sys.prefix)\n"
        m = wheel_files(n, v, files, deps, ["more"] if extra else [], eps or None, purelib=kind != "plat", tag="cp312-cp312-linux_x86_64" if kind == "plat" else "py3-none-any",
                        extra_info={"licenses/RECORD": b"a license of this name", "LICENSE": tok.encode()} if r.random() < .3 else {})
        write_wheel(folder, n, v, m, tag="cp%d%d-cp%d%d-linux_x86_64" % (*sys.version_info[:2], *sys.version_info[:2]) if kind == "plat" else "py3-none-any")
        self.modules.setdefault(n, set()).update(mods)
        return m

    def all_modules(self):
        return sorted({m for ms in self.modules.values() for m in ms})


PROBE = r"""
import importlib, importlib.metadata as im, importlib.resources as ir, json, re, sys
out = {}
for m in sys.argv[2:]:
    try:
        out["module " + m] = importlib.import_module(m).TOKEN
    except ImportError as e:
        out["module " + m] = "ImportError"
    if "." not in m and out["module " + m] != "ImportError":
        try:
            out["data " + m] = hash_ = len((ir.files(m) / "data" / "d.txt").read_bytes())
        except Exception as e:
            out["data " + m] = type(e).__name__
seen = {}
for d in im.distributions(path=[p for p in sys.path if p]):
    n = re.sub(r"[-_.]+", "-", d.metadata["Name"]).lower()
    seen[n] = seen.get(n, 0) + 1
    out["dist " + n] = [d.version, sorted(d.requires or []), sorted(d.metadata.get_all("Provides-Extra") or []), sorted([p.group, p.name, p.value] for p in d.entry_points),
                        d.read_text("LICENSE"), d.read_text("licenses/RECORD"), d.read_text("INSTALLER"), d.read_text("REQUESTED") is not None]
out["twice"] = [n for n, k in seen.items() if k > 1]
for p in im.entry_points(group="vm.group"):
    out["point " + p.name] = p.load().__module__
out["prefix"] = sys.prefix == sys.argv[1]
print(json.dumps(out))
"""


class Side:
    """an environment as its users see it"""

    def __init__(self, root):
        self.root = Path(root)

    def env(self, zoo=None):
        from pkm.api.environments.environment import Environment
        return zoo.load_environment(self.root.name) if zoo else Environment(self.root)

    def seen(self, modules, base):
        q = subprocess.run([str(self.root / "bin" / "python"), "-B", "-X", "utf8", "-c", PROBE, str(self.root), *modules], capture_output=True, text=True, cwd=self.root.parent)
        out = json.loads(q.stdout) if q.returncode == 0 else {"probe": q.stderr[-400:]}
        here, other = str(self.root), str(self.root.parent.parent / "alias" / self.root.name)      # the zoo may have been called so
        runs = []
        for f in sorted((self.root / "bin").iterdir()):
            if f"bin/{f.name}" in base or f.is_dir():
                continue
            raw = f.read_bytes().replace(other.encode(), here.encode())
            out[f"script {f.name}"] = [oct(f.stat().st_mode & 0o777), raw.replace(here.encode(), b"{env}").decode("utf8", "replace")]
            if raw.startswith(f"#!{here}".encode()):
                runs.append(f)

        def run_it(f):
            try:
                q = subprocess.run([str(f)], capture_output=True, text=True, cwd=self.root.parent, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"})
                return f"runs {f.name}", [q.returncode, q.stdout.replace(here, "{env}").replace(other, "{env}"), q.stderr[-200:] if q.returncode else ""]
            except OSError as e:                        # its interpreter (pythonw) does not exist here
                return f"runs {f.name}", type(e).__name__

        with ThreadPoolExecutor(4) as pool:
            out.update(pool.map(run_it, runs))
        for rel in snapshot(self.root):
            if rel not in base and not rel.startswith(("lib/", "lib64/", "bin/")) and (self.root / rel).is_file():
                out[f"file {rel}"] = (self.root / rel).read_text("latin1")
        return out

    def known(self, zoo=None):
        """what pkm itself knows about the environment"""
        env = self.env(zoo)
        site = env.site_packages
        return {norm(p.name): [str(p.version), str(p.user_request) if p.user_request else None, sorted(str(d) for d in p.dependencies(env.installation_target)),
                               sorted(str(d) for d in p.dependencies(env.installation_target, ["more"]))] for p in site.installed_packages()}

    def links(self):
        """the shared directories that this environment leads to"""
        out = set()
        for f in Path(self.site()).glob("*.pth"):
            for line in f.read_text().splitlines():
                if line.startswith(os.sep) and f"{os.sep}.zoo{os.sep}" in line:
                    out.add(os.path.realpath(os.path.dirname(line)))
        return out

    def site(self):
        return next(self.root.glob("lib/python*/site-packages"))


def stored(zoo_root):
    top = zoo_root / ".zoo" / "shared"
    return {os.path.realpath(d) for d in top.glob("*/*/*") if d.is_dir()} if top.exists() else set()


def run(ctx):
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.environments.environment import Environment
    from pkm.api.environments.environments_zoo import EnvironmentsZoo
    from pkm.api.pkm import pkm
    from pkm.resolution.pubgrub import UnsolvableProblemException
    from pkm.utils.properties import clear_cached_properties
    warnings.simplefilter("ignore")
    ctx.rule = ("history over the environments of a sharing zoo; after every step each environment's modules, data, scripts, metadata, entry points, requests and dependencies equal those of a twin "
                "that shares nothing; shared packages are stored once; cleaning leaves exactly the shared directories that a link leads to")
    ctx.required_events = ["installs", "uninstalls", "cleanings", "shared by later environments", "scripts compared", "excluded", "url installs", "private packages", "environments created by the zoo"]
    work = Path(ctx.scratch) / "work"
    work.mkdir(parents=True, exist_ok=True)
    zoo_root = work / "zoo"
    zoo_root.mkdir()
    (work / "alias").symlink_to(zoo_root)
    shared = [Side(make_env(ctx, f"zoo/e{k}").path) for k in range(3)]
    twins = [Side(make_env(ctx, f"t{k}").path) for k in range(3)]
    Environment.current = classmethod(lambda cls: Environment(twins[0].root))      # the interpreter of this check, which must stay as it is
    base = {s.root: snapshot(s.root) for s in [*shared, *twins]}
    spare = {}
    for s in shared:
        spare[s.root] = work / "spare" / s.root.name
        shutil.copytree(s.root, spare[s.root], symlinks=True)

    def zoo_for(r):
        os.chdir(work)
        path = r.choice([zoo_root, zoo_root, work / "alias", Path("zoo")])
        return EnvironmentsZoo.load(path)

    more = ctx.budget(40, 480)
    i = 0
    while more() and sum(ctx._vkeys.values()) < 8:
        r = ctx.sub_rng("history", i)
        i += 1
        index = Index(r, work / f"idx{i}", i % 2 == 1)
        for s in [*shared, *twins]:
            if not s.root.exists():
                shutil.copytree(spare[s.root], s.root, symlinks=True)
            reset_tree(s.root, base[s.root])
        for n in ("env-zoo.toml", ".zoo", "etc"):
            p = zoo_root / n
            shutil.rmtree(p) if p.is_dir() else p.unlink(missing_ok=True)
        exclude = [spelled(r, r.choice(index.names))] if i % 3 == 1 else []
        if exclude:
            (zoo_root / "env-zoo.toml").write_text(f'[package-sharing]\nenabled = true\nexclude = {json.dumps(exclude)}\n')
        etc = pkm.home / "etc" / "pkm"
        etc.mkdir(parents=True, exist_ok=True)
        (etc / "repositories.toml").write_text(f'inheritance-mode = "none"\n[repos.idx]\ntype = "file-system"\npath = {json.dumps(str(index.folder))}\n')
        clear_cached_properties(pkm)
        alive = [0, 1, 2]
        where = {"index": index.shown, "exclude": exclude}
        history = []
        trouble = False
        wanted = {}
        for step in range(r.choice([5, 8, 11])):
            k = r.choice(alive)
            do = r.choice(["install"] * 5 + ["uninstall"] * 3 + ["remove", "delete", "clean", "clean", "clean"])
            installed = twins[k].known()
            if history and history[-1][1] in ("uninstall", "delete", "remove") and r.random() < .7:
                do = "clean"
            if step == 0 and index.url:
                do = "install"
            args, updates = [], None
            if do in ("uninstall", "remove"):
                if not installed:
                    do = "install"
                else:
                    args = [spelled(r, r.choice(sorted(installed)))]
            if do == "delete" and len(alive) == 1:
                do = "clean"
            if do == "install":
                for n in r.sample(index.names, r.choice([1, 1, 2, 3]) if len(index.names) >= 3 else 1):
                    extra = "[more]" if any(e for _, e in index.has[n]) and r.random() < .4 else ""
                    args.append(f"{spelled(r, n)}{extra} {r.choice(['', '', '', r.choice(SPECS), '==' + r.choice(index.has[n])[0]])}".strip())
                elsewhere = set().union(*(twins[j].known() for j in alive if j != k)) - set(installed)
                more_of = sorted(n for n in index.names if norm(n) in elsewhere and any(e for _, e in index.has[n]))
                if more_of and r.random() < .4:             # with an extra that others did not ask for
                    args = [f"{r.choice(more_of)}[more]"]
                    ctx.event("extras of later environments")
                elif index.url and r.random() < .35:
                    args = [index.url[1]]
                elif installed and r.random() < .3:
                    updates = [r.choice(sorted(installed))]
            mode = r.choice(["none", "thread"] if i % 6 else ["none", "proc"])
            history.append([f"e{k}", do, args, updates, mode])
            zoo = zoo_for(r)
            pkm.config.concurrency_mode = mode
            say = lambda key, msg: ctx.violation(key, f"history {i} step {step} {history[-1]}: {msg}", history=history, **where)
            ctx.evaluated((i, step), sample={"history": list(history)} if step == 4 else None)
            if do == "delete":
                ctx.event("environments deleted")
                zoo.delete_environment(f"e{k}")
                alive.remove(k)
                if shared[k].root.exists():
                    say("delete", "the environment is still there")
                    break
            elif do == "clean":
                used = set().union(*(shared[j].links() for j in alive))
                before = stored(zoo_root)
                try:
                    zoo.clean_unused_shared()
                except Exception as e:
                    say("clean-crash", short_tb(e))
                    break
                ctx.event("cleanings")
                if before - used:
                    ctx.event("unused removed")
                left = stored(zoo_root)
                if left != used & before:
                    say("clean", f"cleaning left {sorted(os.path.relpath(p, zoo_root) for p in left)}, in use are {sorted(os.path.relpath(p, zoo_root) for p in used)}")
                    break
            else:
                outcomes = []
                before = stored(zoo_root)
                for side, z in ((twins[k], None), (shared[k], zoo)):
                    err = io.StringIO()
                    try:
                        with contextlib.redirect_stdout(err), contextlib.redirect_stderr(err):
                            env = side.env(z)
                            if do == "install":
                                env.installation_target.install([Dependency.parse(a) for a in args], updates=updates)
                            elif do == "uninstall":
                                env.uninstall(args)
                            else:
                                env.installation_target.force_remove(args[0])
                        outcomes.append(("ok", ""))
                    except UnsolvableProblemException as e:
                        outcomes.append(("unsolvable", str(e)[:200]))
                    except Exception as e:
                        outcomes.append(("crash", short_tb(e)))
                ctx.event({"install": "updates" if updates else "installs", "uninstall": "uninstalls", "remove": "forced removals"}[do])
                if args and "@" in args[0] and outcomes[0][0] == "ok":
                    ctx.event("url installs")
                if outcomes[0][0] == "crash":
                    ctx.event("twin crashed: " + outcomes[0][1][:80])
                    trouble = True
                    break
                if outcomes[0][0] != outcomes[1][0]:
                    say(f"{do}-{outcomes[1][0]}", f"private: {outcomes[0]}, in the zoo: {outcomes[1]}")
                    break
                if do == "install" and outcomes[1][0] == "ok" and shared[k].links() & before:
                    ctx.event("shared by later environments")
            # every environment, whether it was touched or not, is what its twin is
            bad = False
            modules = index.all_modules()
            for j in alive:
                if j != k and r.random() < .6:
                    continue
                with ThreadPoolExecutor(2) as pool:
                    sides = [shared[j]] + ([twins[j]] if j == k or j not in wanted else [])
                    got, *fresh = pool.map(lambda side: side.seen(modules, base[side.root]), sides)
                want = wanted[j] = fresh[0] if fresh else wanted[j]
                ctx.event("scripts compared", sum(1 for x in want if x.startswith("runs ")))
                diff = {x: (want.get(x), got.get(x)) for x in sorted(set(want) | set(got)) if want.get(x) != got.get(x)}
                if diff:
                    say("seen", f"e{j} differs from a private installation (private, in the zoo): {str(dict(list(diff.items())[:4]))[:900]}")
                    bad = True
                if got.get("twice"):
                    say("twice", f"e{j}: distributions found twice {got['twice']}")
                a, b = twins[j].known(), shared[j].known(zoo)
                if a != b:
                    say("known", f"e{j}: pkm knows {({n: (a.get(n), b.get(n)) for n in set(a) | set(b) if a.get(n) != b.get(n)})} (private, in the zoo)")
                    bad = True
                # stored once: what can be shared is not in the environment
                for n, row in b.items():
                    top = n.replace("-", "_")
                    there = (shared[j].site() / f"vm_{top}" / "__init__.py").exists()
                    by_url = index.url and norm(index.url[0]) == n
                    if n in {norm(x) for x in exclude}:
                        ctx.event("excluded")
                        if not there:
                            say("excluded", f"e{j}: {n} is excluded from sharing, but is not in the environment")
                            bad = True
                    elif (n, row[0]) in index.plain and not by_url:
                        if there:
                            say("not-shared", f"e{j}: {n} {row[0]} is a private copy")
                            bad = True
                    else:
                        ctx.event("private packages")
            if bad:
                break
        if i % 5 == 1 and not trouble:
            created(ctx, r, zoo_root, index, exclude)
        os.chdir(work)
        shutil.rmtree(index.folder, ignore_errors=True)
    for s in [*shared, *twins]:
        shutil.rmtree(s.root, ignore_errors=True)


def created(ctx, r, zoo_root, index, exclude):
    """an environment made by the zoo is a member of it from the start"""
    from pkm.api.environments.environments_zoo import EnvironmentsZoo
    from pkm.api.environments.environment_builder import EnvironmentBuilder
    from pkm.api.versions.version_specifiers import AllowAllVersions
    from pkm.api.dependencies.dependency import Dependency
    was = EnvironmentBuilder.create_matching
    EnvironmentBuilder.create_matching = staticmethod(lambda path, spec: EnvironmentBuilder.create(path, Path(sys.executable)))     # looking for other interpreters is not at stake
    try:
        zoo = EnvironmentsZoo.load(zoo_root)
        env = zoo.create_environment("made", AllowAllVersions)
        ctx.event("environments created by the zoo")
        names = {e.path.name for e in zoo.list()}
        ctx.check("made" in names and "spare" not in names and ".zoo" not in names, "created", f"the zoo lists {names}")
        plain = sorted(n for n in index.names if (norm(n), max((v for v, _ in index.has[n]), key=PV)) in index.plain and norm(n) not in {norm(x) for x in exclude})
        if plain:
            try:
                env.install([Dependency.parse(plain[0])])
            except Exception as e:
                ctx.violation("created", f"installing {plain[0]} into a new environment of the zoo: {short_tb(e)}", index=index.shown)
                return
            side = Side(zoo_root / "made")
            ctx.check(bool(side.links()), "created", f"{plain[0]} is a private copy in the environment that the zoo created", index=index.shown)
    finally:
        EnvironmentBuilder.create_matching = was
        shutil.rmtree(zoo_root / "made", ignore_errors=True)
