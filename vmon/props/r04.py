"""R04: random trees of contexts (global, zoo, environment, group, project) with configured repositories; what is asked and what is answered against a model."""
import re
import shutil
import sys

from packaging.specifiers import SpecifierSet
from packaging.version import Version as PV

from vmon.core import short_tb
from vmon.index import File, Server
from vmon.world import make_env, metadata_text, write_wheel

EXT = '''
from vmon_recording import extension
'''
NAMES = ["apple", "Big.Pear", "cherry_pie", "date-palm", "elder"]
SPECS = ["", "", "", ">=1", "<2", ">=1.0,<3", "!=1.1.*", ">=2.0a1", "==2.*", "~=1.0", ">1.0", "<=2.1", ">=9", "==1.0.*", ">=1.0.dev1"]
BASES = ["0.9", "1.0", "1.1", "1.1.1", "2.0", "2.0a1", "2.1.dev2", "3.0", "2.0rc1", "0.1"]


def norm(n):
    return re.sub(r"[-_.]+", "-", n).lower()


def spelled(r, n):
    return r.choice([n, n, n.lower(), n.upper(), re.sub(r"[-_.]", r.choice("-_."), n)])


class Repo:
    """a configured repository: its definition and what it holds {project: [(version, compatible)]}"""

    def __init__(self, name, kind, args, packages, bind_only, protocols=(), non_url=True):
        self.name, self.kind, self.args, self.packages, self.bind_only, self.protocols, self.non_url = name, kind, args, packages, bind_only, protocols, non_url

    def definition(self):
        d = {"type": self.kind, **self.args}
        if self.bind_only:
            d["bind-only"] = True
        return d

    def match(self, name, spec):
        good = [(v, ok) for v, ok in self.packages.get(norm(name), ()) if ok and SpecifierSet(spec, prereleases=True).contains(v)]
        out = [v for v, _ in good]
        asks_pre = any(PV(m.group(0)).is_prerelease for m in re.finditer(r"\d[\w.]*", spec) if not m.group(0).endswith(".")) if spec else False
        if not asks_pre:
            out = [v for v in out if not PV(v).is_prerelease] or out
        return sorted(out, key=PV, reverse=True)


class Level:
    """one context: what its configuration says"""

    def __init__(self, name, repos=(), mode="context", bindings=None):
        self.name, self.repos, self.mode, self.bindings = name, list(repos), mode, dict(bindings or {})

    def toml(self):
        import json
        out = [f'inheritance = "{self.mode}"\n'] if self.mode != "context" else []

        def table(d):
            return "{ " + ", ".join(f"{k} = {json.dumps(v)}" for k, v in d.items()) + " }"
        for r in self.repos:
            out.append(f"[repos.{r.name}]\n" + "".join(f"{k} = {json.dumps(v)}\n" for k, v in r.definition().items()))
        if self.bindings:
            out.append("[package-bindings]\n" + "".join(f'"{k}" = {json.dumps(v) if isinstance(v, str) else table({a: b for a, b in v.definition().items() if a != "bind-only"})}\n' for k, v in self.bindings.items()))
        return "\n".join(out)


class Expect:
    def __init__(self):
        self.asked, self.result, self.error = [], [], False


def look(level, nexts, name, spec, e, root):
    """model of one configuration level; `nexts`: what comes after it"""
    binding = next((b for k, b in level.bindings.items() if norm(k) == norm(name)), None)
    if binding is not None:
        repo = binding if not isinstance(binding, str) else next((x for x in level.repos if x.name == binding and x.non_url), None)
        if repo is None:
            e.error = True
            return []
        e.asked.append(repo)
        return repo.match(name, spec)
    for repo in level.repos:
        if not repo.bind_only and repo.non_url:
            e.asked.append(repo)
            if out := repo.match(name, spec):
                return out
    if level.mode == "context" and nexts:
        return nexts[0](nexts[1:], name, spec, e)
    if level.mode == "global" and root is not None:
        return look(root, (), name, spec, e, None)
    return []


def recording_extension(log):
    """what an installed repository extension provides: a repository type that records"""
    from pkm.api.packages.package import Package, PackageDescriptor
    from pkm.api.repositories.repository import AbstractRepository, RepositoryBuilder
    from pkm.api.repositories.repository_loader import RepositoriesExtension
    from pkm.api.versions.version import Version
    import types

    class Held(Package):
        def __init__(self, name, version, ok, origin):
            self.d, self.ok, self.origin = PackageDescriptor(name, Version.parse(version)), ok, origin

        descriptor = property(lambda self: self.d)

        def dependencies(self, target, extras=None):
            return []

        def is_compatible_with(self, env):
            return self.ok

        def install_to(self, *a, **k):
            raise AssertionError

    class Recording(AbstractRepository):
        stock = {}

        def __init__(self, name, stock):
            super().__init__(name)
            self.key = stock
            self.held = Recording.stock[stock]

        def _do_match(self, dependency, env):
            log.append(("vmon", self.key, norm(dependency.package_name)))
            if url := dependency.required_url():
                return [Held(dependency.package_name, v, True, self.key) for v in self.held.packages.get(str(url), ())]
            return self._sorted_by_version([Held(dependency.package_name, v, ok, self.key) for v, ok in self.held.packages.get(norm(dependency.package_name), ())
                                            if dependency.version_spec.allows_version(Version.parse(v))])

        def accepted_url_protocols(self):
            return tuple(self.held.protocols)

        def accept_non_url_packages(self):
            return self.held.non_url

    class Builder(RepositoryBuilder):
        def __init__(self):
            super().__init__("vmon")

        def build(self, name, stock):
            return Recording(name, stock)

    module = types.ModuleType("vmon_recording")
    module.extension = lambda: RepositoriesExtension(builders=[Builder()])
    sys.modules["vmon_recording"] = module
    return Recording


class Maker:
    def __init__(self, ctx, r, server, recording, work):
        self.ctx, self.r, self.server, self.recording, self.work = ctx, r, server, recording, work
        self.count = 0

    def packages(self, few=False):
        """{project: [(version, compatible)]}: the last number of a version tells the repository"""
        r, out = self.r, {}
        for n in r.sample(NAMES, r.randint(0, 2) if few else r.randint(1, len(NAMES))):
            vs = []
            for b in r.sample(BASES, r.randint(1, 4)):
                m = re.match(r"([\d.]+)(.*)", b)
                rel = m.group(1).rstrip(".")
                rel += ".0" * (2 - rel.count("."))
                vs.append((f"{rel}.{self.count}{'.' if m.group(2).startswith('dev') else ''}{m.group(2)}", r.random() < .85))
            out[norm(n)] = vs
        return out

    def repo(self, name, bind_only=False):
        r, self.count = self.r, self.count + 1
        x = r.random()
        packages = self.packages(few=r.random() < .4)
        if x < .5:
            rep = Repo(name, "vmon", {"stock": f"s{self.count}"}, packages, bind_only)
            if not bind_only and r.random() < .3:
                rep.protocols = tuple(r.sample(["vma", "vmb"], r.randint(1, 2)))
                rep.non_url = r.random() < .6
                for p in rep.protocols:
                    for k in range(2):
                        if r.random() < .6:
                            rep.packages[f"{p}+http://h/{k}"] = [f"7.{k}.{self.count}"]
            self.recording.stock[rep.args["stock"]] = rep
            return rep
        if x < .85:
            kind = r.choice(["simple", "pypi"])
            index = self.server.index(f"i{id(self)}-{self.count}")
            for n, vs in packages.items():
                for v, ok in vs:
                    self.files(index, n, v, ok)
            return Repo(name, kind, {"url": f"{self.server.url}/{index.name}/{kind}{r.choice(['', '/'])}"}, packages, bind_only)
        folder = self.work / f"fs{self.count}"
        folder.mkdir(parents=True)
        for n, vs in packages.items():
            for v, ok in vs:
                if ok and r.random() < .3:
                    (folder / f"{r.choice([n, n.replace('-', '_'), n.title()])}-{v}.tar.gz").write_bytes(b"a source distribution")
                    continue
                tag = "py3-none-any" if ok else "py2-none-any"
                data = self.wheel(n, v, tag)
                (folder / f"{n.replace('-', '_') if r.random() < .6 else n.replace('-', '_').title()}-{v}-{tag}.whl").write_bytes(data)
        return Repo(name, "file-system", {"path": str(folder)}, packages, bind_only)

    def wheel(self, n, v, tag):
        from vmon.world import wheel_files
        d = self.work / "w"
        p = write_wheel(d, n, v, wheel_files(n, v, {}, tag=tag), tag=tag)
        data = p.read_bytes()
        p.unlink()
        return data

    def files(self, index, n, v, ok):
        """files of one version; compatible or not, by tag or by python requirement"""
        r = self.r
        here = f"{sys.version_info[0]}.{sys.version_info[1]}"
        base = n.replace("-", "_")
        href = r.choice(["absolute", "root", "relative"])
        good = [lambda: File(f"{base}-{v}-py3-none-any.whl", b"w", v, r.choice([None, ">=3.6", f">={here}", f"=={here}.*"]), href=href),
                lambda: File(f"{base}-{v}.tar.gz", b"s", v, r.choice([None, ">=2.7,!=3.0.*"]), href=href), lambda: File(f"{n}-{v}.tar.gz", b"s", v, href=href)]
        bad = [lambda: File(f"{base}-{v}-py2-none-any.whl", b"w", v, href=href), lambda: File(f"{base}-{v}-cp39-cp39-win_amd64.whl", b"w", v, ">=3.6", href=href),
               lambda: File(f"{base}-{v}-py3-none-any.whl", b"w", v, r.choice(["<3", "<3.0", ">=4", "==2.7.*"]), href=href),
               lambda: File(f"{base}-{v}-py3-none-any.whl", b"w", v, yanked=r.choice(["", "broken"]), href=href)]
        chosen = [c() for c in ([r.choice(good)] if ok else []) + r.sample(bad, r.randint(0 if ok else 1, 2))]
        chosen = list({f.name: f for f in reversed(chosen)}.values())
        r.shuffle(chosen)
        for f in chosen:
            index.add(n, f)

    def level(self, name, few=False):
        r = self.r
        level = Level(name)
        for i in range(r.choice([0, 1, 1, 2, 3]) if not few else r.choice([0, 0, 1, 2])):
            level.repos.append(self.repo(r.choice([f"{name}-{i}", f"r{i}"]), bind_only=r.random() < .2))
        uniq = {}
        for x in level.repos:
            uniq[x.name] = x
        level.repos = list(uniq.values())
        for n in NAMES:
            x = r.random()
            if x < .12 and (c := [q for q in level.repos if q.non_url]):
                level.bindings[spelled(r, n)] = r.choice(c).name
            elif x < .18:
                rep = self.repo("inline")
                rep.protocols, rep.non_url = (), True
                level.bindings[spelled(r, n)] = rep
        level.mode = r.choice(["context"] * 6 + ["global", "none"])
        return level


def answer_of(result):
    return [str(p.version) for p in result]


def check_query(ctx, where, repository, env, name, spec, model, log, server, replay):
    """one lookup in one context"""
    from pkm.api.dependencies.dependency import Dependency
    log.clear()
    server.take_log()
    e = Expect()
    want = model(name, spec, e)
    text = f"{name}{spec}"
    try:
        result = repository.match(Dependency.parse(text), env)
    except Exception as ex:
        if e.error:
            return ctx.event("undefined bindings refused")
        return ctx.violation("crash", f"{where}: {text}: {short_tb(ex)}", **replay)
    got = answer_of(result)
    ctx.event("lookups")
    ctx.evaluated((where, text, tuple(want), len(e.asked)), f"{where}: {text} -> {got}")
    ctx.event(f"answered by {e.asked[-1].kind}" if want and e.asked else "answered by a project" if want else "nothing found")
    if e.error:
        return ctx.violation("unknown-binding", f"{where}: {text} is bound to a repository which is not there, the answer is {got}", **replay)
    if [PV(v) for v in got] != [PV(v) for v in want]:
        key = "answer" if sorted(map(PV, got)) != sorted(map(PV, want)) else "answer-order"
        ctx.violation(key, f"{where}: {text}: the answer is {got}, by the configuration it is {want} (asked in order: {[(x.name, x.kind) for x in e.asked]})", **replay)
    if any(norm(p.name) != norm(name) for p in result):
        ctx.violation("answer-name", f"{where}: {text}: answered with {[p.name for p in result]}", **replay)
    # who was asked
    asked = [x[1] for x in log]
    expected = [x.args["stock"] for x in e.asked if x.kind == "vmon"]
    if asked != expected:
        ctx.violation("asked", f"{where}: {text}: recording repositories {asked} were asked, by the configuration it is {expected}", **replay)
    ctx.event("recorded questions", len(asked))
    web = {x[0] for x in server.take_log()}
    allowed = {x.args["url"].split("/")[3] for x in e.asked if x.kind in ("simple", "pypi")}
    ctx.event("index requests", len(web))
    if not web <= allowed:
        ctx.violation("asked-index", f"{where}: {text}: an index was asked that is not to be asked", **replay)


def check_url(ctx, where, repository, env, levels, log, r, replay, root):
    """requirements with a url: only repositories which accept the protocol"""
    from pkm.api.dependencies.dependency import Dependency
    proto, k = r.choice(["vma", "vmb"]), r.randint(0, 1)
    url = f"{proto}+http://h/{k}"
    log.clear()

    def go(i, expect):
        level = levels[i]
        for x in level.repos:
            if proto in x.protocols:
                expect.append(x.args["stock"])
                if out := x.packages.get(url):
                    return out
        if level.mode == "context" and i + 1 < len(levels):
            return go(i + 1, expect)
        if level.mode == "global" and level is not root:
            return go(len(levels) - 1, expect)
        return []
    expect = []
    want = go(0, expect)
    try:
        got = answer_of(repository.match(Dependency.parse(f"elder @ {url}"), env))
    except Exception as ex:
        return ctx.violation("url-crash", f"{where}: {url}: {short_tb(ex)}", **replay)
    ctx.event("url lookups")
    asked = [x[1] for x in log]
    if got != want or asked != expect:
        ctx.violation("url-answer", f"{where}: {url}: answered {got} by asking {asked}; by the configuration it is {want} by asking {expect}", **replay)


def write_config(root, level):
    f = root / "etc" / "pkm" / "repositories.toml"
    f.parent.mkdir(parents=True, exist_ok=True)
    f.write_text(level.toml())


def scenario(ctx, r, number, envs, server, recording, log, work):
    from pkm.api.environments.environment import Environment
    from pkm.api.environments.environments_zoo import EnvironmentsZoo
    from pkm.api.pkm import pkm
    from pkm.api.projects.project import Project
    from pkm.api.projects.project_group import ProjectGroup
    from pkm.utils.properties import clear_cached_properties
    base = work / f"t{number}"
    maker = Maker(ctx, r, server, recording, base)
    root = maker.level("global")
    root.mode = "context"
    write_config(pkm.home, root)
    clear_cached_properties(pkm)
    pkm.repository_loader
    in_zoo = r.random() < .5
    env_path = envs[in_zoo]
    levels = {"env": maker.level("env", few=True), "project": maker.level("project"), "group": maker.level("group", few=True), "zoo": maker.level("zoo", few=True)}
    for k, p in (("env", env_path), ("zoo", envs[True].parent)):
        shutil.rmtree(p / "etc" / "pkm" / "repositories.toml", ignore_errors=True)
        (p / "etc" / "pkm" / "repositories.toml").unlink(missing_ok=True)
        if r.random() < .85:
            write_config(p, levels[k])
        else:
            levels[k] = Level(k)
    grouped = r.random() < .6
    group_dir = base / "group"
    project_dir = group_dir / "prj"
    project_dir.mkdir(parents=True)
    sibling = None
    (project_dir / "pyproject.toml").write_text('[project]\nname = "The_Project"\nversion = "4.4"\n')
    (project_dir / "etc/pkm").mkdir(parents=True)
    (project_dir / "etc/pkm/environments.toml").write_text(f'[attached-env]\npath = "{env_path}"\n')
    if r.random() < .9:
        write_config(project_dir, levels["project"])
    else:
        levels["project"] = Level("project")
    if grouped:
        sibling = r.choice(NAMES)
        (group_dir / "sib").mkdir()
        (group_dir / "sib" / "pyproject.toml").write_text(f'[project]\nname = "{sibling}"\nversion = "5.5"\n')
        (group_dir / "pyproject-group.toml").write_text('name = "grp"\nchildren = ["prj", "sib"]\n')
        if r.random() < .7:
            write_config(group_dir, levels["group"])
        else:
            levels["group"] = Level("group")
    replay = dict(configs={k: v.toml() for k, v in [("global", root), *levels.items()]}, repos={x.name + ":" + l.name: (x.kind, {a: b for a, b in x.packages.items()}) for l in [root, *levels.values()] for x in l.repos},
                  in_zoo=in_zoo, grouped=grouped, sibling=sibling)

    def lvl(level):
        return lambda nexts, name, spec, e: look(level, nexts, name, spec, e, root if level is not root else None)

    def projects(known):
        def f(nexts, name, spec, e):
            if norm(name) in known:
                return [known[norm(name)]]
            return nexts[0](nexts[1:], name, spec, e) if nexts else []
        return f

    zoo_part = [("zoo", levels["zoo"])] if in_zoo else []
    chains = {
        "global": [lvl(root)],
        "environment": [lvl(levels["env"]), *[lvl(x) for _, x in zoo_part], lvl(root)],
        "project": [projects({"the-project": "4.4"}), lvl(levels["project"]),
                    *([projects({norm(sibling): "5.5", "the-project": "4.4"}), lvl(levels["group"])] if grouped else []),
                    lvl(levels["env"]), *[lvl(x) for _, x in zoo_part], lvl(root)],
    }
    flat = {"global": [root], "environment": [levels["env"], *[x for _, x in zoo_part], root],
            "project": [levels["project"], *([levels["group"]] if grouped else []), levels["env"], *[x for _, x in zoo_part], root]}
    if in_zoo:
        chains["zoo"], flat["zoo"] = [lvl(levels["zoo"]), lvl(root)], [levels["zoo"], root]
    if grouped:
        chains["group"], flat["group"] = [projects({norm(sibling): "5.5", "the-project": "4.4"}), lvl(levels["group"]), lvl(root)], [levels["group"], root]

    # a project that inherits nothing or only the global configuration has no context after it
    def chain_of(where):
        c = list(chains[where])
        own = {"project": levels["project"], "environment": levels["env"], "zoo": levels["zoo"], "group": levels["group"]}.get(where)
        if own is not None and own.mode != "context":
            heads = 2 if where in ("project", "group") else 1
            c = c[:heads]
        return c

    def holder(where):
        if where == "global":
            return pkm
        if where == "environment":
            return Environment(env_path)
        if where == "zoo":
            return EnvironmentsZoo.load(envs[True].parent)
        if where == "group":
            return ProjectGroup.load(group_dir)
        return Project.load(project_dir)

    env = Environment(env_path)
    for where in chains:
        if sum(ctx._vkeys.values()) > 10:
            return
        ctx.event(f"contexts: {where}")
        h = holder(where)
        try:
            repository = h.attached_repository
        except Exception as ex:
            ctx.violation("attach-crash", f"{where}: {short_tb(ex)}", **replay)
            continue
        c = chain_of(where)

        def model(name, spec, e):
            return c[0](c[1:], name, spec, e)
        queries = [(spelled(r, n), r.choice(SPECS)) for n in r.sample(NAMES, 4)] + [("unknown-one", "")]
        if where == "project":
            queries.append((spelled(r, "The_Project"), r.choice(["", ">=1"])))
        if sibling and where in ("project", "group"):
            queries.append((spelled(r, sibling), r.choice(["", ">=1"])))
        for name, spec in queries:
            check_query(ctx, where, repository, env, name, spec, model, log, server, replay)
        for _ in range(2):
            check_url(ctx, where, repository, env, flat[where], log, r, replay, root)
    # the configuration changed through the management
    where = r.choice([w for w in chains if w != "global"])
    level = {"environment": levels["env"], "zoo": levels["zoo"], "group": levels["group"], "project": levels["project"]}[where]
    h = holder(where)
    man = h.repository_management
    for _ in range(r.randint(1, 4)):
        x = r.random()
        try:
            if x < .4:
                rep = maker.repo(r.choice([f"added{maker.count}", *[q.name for q in level.repos]]), bind_only=r.random() < .3)
                man.add_repository(rep.name, rep.kind, dict(rep.args), rep.bind_only)
                at = next((i for i, q in enumerate(level.repos) if q.name == rep.name), None)
                if at is None:
                    level.repos.append(rep)
                else:
                    level.repos[at] = rep
            elif x < .6 and level.repos:
                gone = r.choice(level.repos).name
                man.remove_repository(gone)
                level.repos = [q for q in level.repos if q.name != gone]
                level.bindings = {k: b for k, b in level.bindings.items() if b != gone}
            else:
                ns = [spelled(r, n) for n in r.sample(NAMES, r.randint(1, 2))]
                c = [q for q in level.repos if q.non_url]
                to = r.choice(c).name if c and r.random() < .7 else None
                man.register_bindings(ns, to)
                level.bindings = {k: b for k, b in level.bindings.items() if norm(k) not in {norm(n) for n in ns}}
                if to:
                    level.bindings.update({n: to for n in ns})
        except Exception as ex:
            return ctx.violation("change-crash", f"{where}: {short_tb(ex)}", **replay)
        ctx.event("configuration changes")
        replay = {**replay, "changed": (where, level.toml())}
        c = chain_of(where)

        def model(name, spec, e):
            return c[0](c[1:], name, spec, e)
        for repository, label in ((h.attached_repository, "changed"), (holder(where).attached_repository, "reloaded")):
            for n in r.sample(NAMES, 2):
                check_query(ctx, f"{where} {label}", repository, env, spelled(r, n), r.choice(SPECS), model, log, server, replay)


def run(ctx):
    from pkm.api.environments.environment import Environment
    from pkm.api.environments.environments_zoo import EnvironmentsZoo
    ctx.rule = ("for every context: answer and questions of a lookup equal those of a model that walks the configuration files (bindings, order, bind-only, inheritance), "
                "each repository answering with its compatible versions that satisfy the requirement by packaging, newest first, pre-releases as documented")
    ctx.required_events = ["lookups", "recorded questions", "index requests", "url lookups", "configuration changes", "answered by simple", "answered by pypi", "answered by file-system", "answered by vmon", "contexts: zoo", "contexts: group"]
    ctx.min_evaluations = 300
    work = ctx.scratch / "work" / "r04"
    zoo_dir = ctx.scratch / "work" / "zoo"
    zoo_dir.mkdir(parents=True)
    (zoo_dir / "env-zoo.toml").write_text("[package-sharing]\nenabled = false\n")
    EnvironmentsZoo.load(zoo_dir)
    alone = make_env(ctx, "alone")
    member = make_env(ctx, "zoo/member")
    ext = make_env(ctx, "ext")
    site = ext.site_packages.purelib_path
    di = site / "vmon_ext-1.0.dist-info"
    di.mkdir()
    (di / "METADATA").write_text(metadata_text("vmon-ext", "1.0"))
    (di / "INSTALLER").write_text("pkm")
    (di / "RECORD").write_text("")
    (di / "entry_points.txt").write_text("[pkm-repositories]\nvmon = vmon_recording:extension\n")
    Environment.current = classmethod(lambda cls, site="user": Environment(ext.path))        # pkm itself runs there
    log = []
    recording = recording_extension(log)
    server = Server()
    more = ctx.budget(18, 400)
    i = 0
    while more() and sum(ctx._vkeys.values()) < 8:
        r = ctx.sub_rng("scenario", i)
        server.redirects = r.random() < .7
        server.indexes.clear()
        scenario(ctx, r, i, {False: alone.path, True: member.path}, server, recording, log, work)
        shutil.rmtree(work / f"t{i}", ignore_errors=True)
        i += 1
    server.stop()
