"""R03: histories of lock / unlock / change / save / load over environments of several kinds, replayed against a model of the lock."""
import pathlib
import re
import shutil

from vmon.core import short_tb
from vmon.staging import stage_interpreter
from vmon.world import fake_installed

NAMES = ["alpha", "beta-pkg", "Gamma", "delta.ns", "eps_lib", "z9", "Long-Name_of.Thing"]
VERSIONS = ["0.1", "1.0", "1.0.0", "1.0.post1", "1.1", "2.0", "2.0a1", "2.0.dev3", "10.0", "1!0.5", "1.0+local.1", "2.0rc1", "3.1.4.1", "1.0b2"]


def key(name):
    return re.sub(r"[-_.]+", "-", name).lower()


def spelled(r, name):
    return r.choice([name, name, name.lower(), name.upper(), re.sub(r"[-_.]", r.choice("-_."), name)])


class Kind:
    """an environment and what is installed in it"""

    def __init__(self, env, site, kind):
        self.env, self.site, self.kind, self.installed = env, site, kind, {}

    def put(self, r, name, version):
        self.drop(name)
        wrote = spelled(r, name)
        fake_installed(self.site, wrote, version)
        # the directory's name has the usual form, the metadata keeps the author's spelling
        self.installed[key(name)] = version

    def drop(self, name):
        if self.installed.pop(key(name), None) is not None:
            for d in self.site.iterdir():
                if key(d.name.split("-")[0]) == key(name):
                    shutil.rmtree(d)


def make_kinds(ctx, work):
    """several kinds of environment; two of them are different environments of the same kind"""
    from pkm.api.environments.environment import Environment
    base = dict(implementation="cpython", maxsize=2 ** 63 - 1, sys_platform="linux", system="Linux", machine="x86_64", platform="linux-x86_64",
                python_implementation="CPython", confstr={"CS_GNU_LIBC_VERSION": "glibc 2.31"}, vars={})
    kinds = [("linux-3.9", dict(version_info=[3, 9, 2, "final", 0]), "x86_64"), ("linux-3.11", dict(version_info=[3, 11, 0, "final", 0]), "x86_64"),
             ("mac-3.9", dict(version_info=[3, 9, 2, "final", 0], sys_platform="darwin", system="Darwin", machine="arm64", platform="macosx-11.0-arm64", mac_ver=["12.3", ["", "", ""], "arm64"]), None),
             ("linux-arm", dict(version_info=[3, 9, 2, "final", 0], machine="aarch64", platform="linux-aarch64"), "aarch64"),
             ("linux-3.9", dict(version_info=[3, 9, 2, "final", 0]), "x86_64")]
    out = []
    for i, (kind, more, arch) in enumerate(kinds):
        site = work / f"e{i}" / "site"
        site.mkdir(parents=True)
        (work / f"e{i}" / "pyvenv.cfg").write_text("home = /nowhere\n")
        cfg = {**base, **more, "paths": {"purelib": str(site), "platlib": str(site)}}
        out.append(Kind(Environment(work / f"e{i}", stage_interpreter(work / f"e{i}" / "bin", cfg, arch)), site, kind))
    return out


class Model:
    def __init__(self):
        self.locked = {}            # {kind: {name key: version}}

    def update(self, k):
        self.locked[k.kind] = dict(k.installed)

    def unlock(self, names):
        for n in names:
            for d in self.locked.values():
                d.pop(key(n), None)


def fresh(k):
    from pkm.api.environments.environment import Environment
    return Environment(k.env.path, k.env.interpreter_path)


def same(a, b):
    from packaging.version import Version
    return Version(str(a)) == Version(str(b))


def observe(ctx, lock, model, kinds, r, universe, history):
    """everything that can be asked, for every environment"""
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.packages.package import PackageDescriptor
    from pkm.api.repositories.repository import AbstractRepository
    from pkm.api.packages.package import Package
    from pkm.api.versions.version import Version
    from pkm.resolution.packages_lock import LockPrioritizingRepository

    class Offer(Package):
        def __init__(self, name, version):
            self.d = PackageDescriptor(name, Version.parse(version))

        descriptor = property(lambda self: self.d)

        def dependencies(self, target, extras=None):
            return []

        def is_compatible_with(self, env):
            return True

        def install_to(self, *a, **k):
            raise AssertionError

    class Offers(AbstractRepository):
        def __init__(self, offers):
            super().__init__("offers")
            self.offers = offers

        def _do_match(self, dependency, env):
            return self._sorted_by_version([o for o in self.offers if dependency.version_spec.allows_version(o.version)])

    ok = True
    for k in kinds:
        mine = model.locked.get(k.kind, {})
        got = {}
        for d in lock.env_specific_locks(k.env):
            got.setdefault(key(d.name), []).append(str(d.version))
        ctx.event("environment locks compared")
        want = {n: [v] for n, v in mine.items()}
        if {n: len(v) for n, v in got.items()} != {n: 1 for n in want} or any(not same(got[n][0], v[0]) for n, v in want.items()):
            ok = ctx.violation("environment-lock", f"the lock of the environment {k.kind} is {got}, locked was {want}", history=history[-25:])
        for n in r.sample(universe, 3):
            name = spelled(r, n)
            own = mine.get(key(n))
            others = [d[key(n)] for kind, d in model.locked.items() if kind != k.kind and key(n) in d]
            versions = [str(p.version) for p in lock.locked_versions(k.env, name)]
            ctx.event("locked versions queried")
            ctx.evaluated((k.kind, key(n), own, tuple(sorted(others)), tuple(versions)), f"{k.kind} {name}: {versions}")
            good = len(versions) == len(others) + (own is not None) and (own is None or (versions and same(versions[0], own)))
            rest = sorted(versions[1:] if own is not None else versions)
            good = good and all(any(same(a, b) for b in others) for a in rest) and all(any(same(a, b) for b in rest) for a in others)
            if not good:
                ok = ctx.violation("locked-versions", f"{k.kind}: {name}: the versions are {versions}; locked for it is {own}, for others {others}", history=history[-25:])
            # resolving
            pool = r.sample(VERSIONS, 6)
            offers = [Offer(spelled(r, n) if r.random() < .3 else name, v) for v in dict.fromkeys([*pool, *([own] if own and r.random() < .8 else []), *r.sample(others, min(len(others), r.randint(0, 2)))])]
            # one offer per version
            uniq = []
            for o in offers:
                if not any(same(o.version, u.version) for u in uniq):
                    uniq.append(o)
            r.shuffle(uniq)
            spec = r.choice(["", "", ">=1", "<2", ">=0.1,!=1.1", ">=1.0a1"])
            dep = Dependency.parse(f"{name}{spec}")
            plain = Offers(list(uniq)).match(dep, k.env)
            repo = LockPrioritizingRepository("lock", Offers(list(uniq)), lock)
            result = repo.match(dep, k.env)
            ctx.event("resolutions observed")

            def level(p):
                return 0 if own is not None and same(p.version, own) else 1 if any(same(p.version, o) for o in others) else 2
            levels = [level(p) for p in result]
            if sorted(map(id, result)) != sorted(map(id, plain)):
                ok = ctx.violation("match-set", f"{k.kind}: {dep}: {[str(p.version) for p in result]}, without the lock {[str(p.version) for p in plain]}", history=history[-25:])
            elif levels != sorted(levels) or [p for p in result if level(p) == 2] != [p for p in plain if level(p) == 2]:
                ok = ctx.violation("preference", f"{k.kind}: {dep}: the order is {[str(p.version) for p in result]}; locked for it is {own}, for others {others}", history=history[-25:])
            if own is not None and any(l == 0 for l in levels):
                ctx.event("locked version offered")
    return ok is True


def history(ctx, r, kinds, work, number, project_of):
    from pkm.resolution.packages_lock import PackagesLock
    log, model = [], Model()
    for k in kinds:
        for n in list(k.installed):
            k.drop(n)
        k.env = fresh(k)
    universe = r.sample(NAMES, r.randint(3, len(NAMES)))
    file = work / f"h{number}" / r.choice(["lock.toml", "deep/er/packages-lock.toml"])
    if r.random() < .3:
        file.parent.mkdir(parents=True)
        file.write_text("")
    project = project_of(work / f"p{number}") if r.random() < .3 else None
    if project is not None:
        file = project.path / "etc" / "pkm" / "packages-lock.toml"
        lock = project.lock
        ctx.event("project locks")
        file = project.directories.etc_pkm / "packages-lock.toml"
    else:
        lock = PackagesLock.load(file)
    saved = Model()
    try:
        for _ in range(r.randint(4, 14)):
            x = r.random()
            k = r.choice(kinds)
            if x < .3:
                for n in r.sample(universe, r.randint(2, 3)):
                    if r.random() < .8 or key(n) not in k.installed:
                        v = r.choice(VERSIONS)
                        k.put(r, n, v)
                        log.append(f"{kinds.index(k)}:{k.kind} has {n} {v}")
                    else:
                        k.drop(n)
                        log.append(f"{kinds.index(k)}:{k.kind} drops {n}")
                continue
            if x < .7:
                k.env = fresh(k)
                chained = lock.update_lock(k.env)
                model.update(k)
                log.append(f"lock {kinds.index(k)}:{k.kind}")
                ctx.event("environments locked")
                ctx.check(chained is lock, "chaining", "update_lock does not return the lock")
            elif x < .8:
                names = r.sample(universe, r.randint(1, 2))
                lock.unlock_packages(iter([spelled(r, n) for n in names]) if r.random() < .5 else [spelled(r, n) for n in names])
                model.unlock(names)
                log.append(f"unlock {names}")
                ctx.event("packages unlocked")
            else:
                if r.random() < .75:
                    lock.save(*([file] if r.random() < .3 else []))
                    saved.locked = {a: dict(b) for a, b in model.locked.items()}
                    log.append("save")
                    ctx.event("saves")
                    if r.random() < .3:
                        text = file.read_bytes()
                        PackagesLock.load(file).save()
                        ctx.check(file.read_bytes() == text, "save-not-stable", "loading and saving the lock changes the file", before=text.decode(errors="replace")[:800], after=file.read_text()[:800])
                if r.random() < .8:
                    lock = PackagesLock.load(file) if project is None or r.random() < .5 else type(project).load(project.path).lock
                    model.locked = {a: dict(b) for a, b in saved.locked.items()}
                    log.append("load")
                    ctx.event("loads")
            if not observe(ctx, lock, model, kinds, r, universe, log):
                return
    except Exception as e:
        ctx.violation("crash", short_tb(e), history=log[-25:])
    ctx.distinct("histories", tuple(log))


def run(ctx):
    from pkm.api.projects.project import Project
    ctx.rule = ("lock states after every step equal a dictionary model {kind of environment: {package: version}}; saving and loading is the identity; resolving "
                "through the lock puts the own locked version first, then the ones others locked, then the rest in the repository's order")
    ctx.required_events = ["environment locks compared", "locked versions queried", "resolutions observed", "locked version offered", "saves", "loads", "packages unlocked"]
    ctx.min_evaluations = 300
    work = ctx.scratch / "work" / "r03"
    kinds = make_kinds(ctx, work)
    hashes = [k.env.markers_hash for k in kinds]
    ctx.check(hashes[0] == hashes[4] and len(set(hashes)) == 4, "environment-kinds", f"kinds {[k.kind for k in kinds]} have the marks {hashes}")
    # the mark of a kind is the same in another process
    import subprocess
    import sys
    code = "import sys; from pathlib import Path; from pkm.api.environments.environment import Environment; print(Environment(Path(sys.argv[1]), Path(sys.argv[2])).markers_hash)"
    out = subprocess.run([sys.executable, "-c", code, str(kinds[1].env.path), str(kinds[1].env.interpreter_path)], capture_output=True, text=True)
    if out.returncode == 0:
        ctx.event("other processes")
        ctx.check(out.stdout.strip().splitlines()[-1] == hashes[1], "hash-unstable", "another process has another mark for the same environment, so its lock is not found")

    def project_of(path):
        path.mkdir(parents=True)
        (path / "pyproject.toml").write_text('[project]\nname = "prj"\nversion = "1.0"\n[build-system]\nrequires = ["pkm"]\nbuild-backend = "pkm.api.buildsys"\n')
        return Project.load(path)

    more = ctx.budget(14, 400)
    i = 0
    while more() and sum(ctx._vkeys.values()) < 8:
        history(ctx, ctx.sub_rng("history", i), kinds, work, i, project_of)
        i += 1
