"""C03: edits of project, group and repository configuration files, each file read by tomllib after every step and compared with a data model."""
import copy
import json
import os
import re
import shutil
import tomllib
from pathlib import Path

from packaging.requirements import Requirement
from packaging.specifiers import SpecifierSet
from packaging.version import Version as PV

from vmon.core import outcome, short_tb
from vmon.props.c02 import req_key
from vmon.props.d02 import norm

RULE = "a case is one edit of one file content; distinct by content and edit"
DEFAULTS = {  # what may be added to a project file, with the meaning its absence has
    ("project", "dependencies"): [[]], ("project", "optional-dependencies"): [{}], ("project", "scripts"): [{}], ("project", "gui-scripts"): [{}], ("project", "entry-points"): [{}],
    ("build-system",): [{"requires": ["setuptools", "wheel", "pip"], "build-backend": "setuptools.build_meta:__legacy__"}],
    ("build-system", "build-backend"): ["setuptools.build_meta:__legacy__"],
    ("tool", "pkm", "distribution"): [{"type": "lib"}], ("tool",): [{"pkm": {"distribution": {"type": "lib"}}}, {"pkm": {"project": {}, "distribution": {"type": "lib"}}}],
    ("tool", "pkm"): [{"distribution": {"type": "lib"}}, {"project": {}, "distribution": {"type": "lib"}}], ("tool", "pkm", "project"): [{}],
}
GROUP_DEFAULTS = {("children",): [[]]}
REPO_DEFAULTS = {("inheritance",): ["context"], ("repos",): [{}], ("package-bindings",): [{}]}
DEPS = ["foo", "bar >=1.0, <2.0", "Zope.Interface[test,docs] ~=2.1", "baz ==1.2.*; python_version >= '3.8'", "my_pkg !=1.5, >=1", "url-dep @ https://example.com/u-1.0.tar.gz",
        "q >3; os_name == 'nt' or sys_platform == 'linux'", "x[a] >=1!2.0", "A-b_c.d <4", "w >=1.0a1"]


def q(s):
    return json.dumps(s, ensure_ascii=False)


class Doc:
    """a text built line by line with numbered comments, remembering which key each comment belongs to"""

    def __init__(self, rng):
        self.rng, self.lines, self.n, self.comments = rng, [], 0, []

    def note(self, anchor):
        self.n += 1
        c = f"note{self.n}n"
        self.comments.append((c, anchor))
        return f"# {c}" + self.rng.choice(["", " é = [x]", ' "q"'])

    def before(self, anchor):
        if self.rng.random() < .25:
            self.lines.append(self.note(anchor))
        if self.rng.random() < .15:
            self.lines.append("")

    def set(self, path, key, text):
        self.before(path + (key,))
        k = key if re.fullmatch(r"[A-Za-z0-9_-]+", key) else q(key)
        self.lines.append(f"{k}{self.rng.choice([' = ', ' = ', '=', '  =  '])}{text}" + (f"  {self.note(path + (key,))}" if self.rng.random() < .25 else ""))

    def table(self, *path):
        self.before(path)
        self.lines.append("[" + ".".join(p if re.fullmatch(r"[A-Za-z0-9_-]+", p) else q(p) for p in path) + "]" + (f" {self.note(path)}" if self.rng.random() < .2 else ""))

    def strings(self, items):
        r = self.rng
        if r.random() < .5 or not items:
            return "[" + ", ".join(map(q, items)) + "]"
        return "[\n" + ",\n".join("    " + q(i) for i in items) + r.choice([",\n]", "\n]"])

    def text(self):
        if self.rng.random() < .3:
            self.lines.append(self.note(None))
        return "\n".join(self.lines) + self.rng.choice(["\n", "\n", ""])


def project_file(rng):
    d = Doc(rng)
    P = ("project",)
    some = lambda p: rng.random() < p
    if some(.3):
        d.lines.append(d.note(None))

    def project():
        d.table("project")
        body = [lambda: d.set(P, "name", q(rng.choice(["foo", "My-Prj", "a.b_c"]))), lambda: d.set(P, "version", q(rng.choice(["1.2.3", "0.0.9", "10.20.30", "1.0.0a1", "1!2.3.4.dev5"])))]
        if some(.6):
            body.append(lambda: d.set(P, "description", q(rng.choice(["a tool", "ünï \"x\"", "", "tab\there"]))))
        if some(.5):
            body.append(lambda: d.set(P, "authors", rng.choice(['[{name = "Ä B", email = "a@b.c"}]', '[{email = "only@x.y"}, {name = "O\'Neil, J. (Jim)"}]', '[{ name = "bennyl" }]', "[]", '[{name = "Q \\"x\\" \\\\ y"}]'])))
        if some(.4):
            body.append(lambda: d.set(P, "maintainers", rng.choice(['[{name = "日本", email = "j@x.y"}, {email = "e@x.y"}]', '[{name = "M; N"}]'])))
        if some(.4):
            body.append(lambda: d.set(P, "keywords", d.strings(["a", "b c", "é"])))
        if some(.4):
            body.append(lambda: d.set(P, "classifiers", d.strings(["Programming Language :: Python :: 3"])))
        if some(.5):
            body.append(lambda: d.set(P, "requires-python", q(rng.choice([">=3.8", ">=3.8, !=3.9.*, <4", "~=3.8", "==3.*", ">=3.6,!=3.7.1"]))))
        if some(.6):
            body.append(lambda: d.set(P, "readme", rng.choice(['"README.md"', '{file = "R.txt", content-type = "text/x-rst"}', '{text = "hello", content-type = "text/plain"}', '{file = "docs/x.md"}'])))
        if some(.5):
            body.append(lambda: d.set(P, "license", rng.choice(['{text = "MIT"}', '{file = "LICENSE"}'])))
        if some(.3):
            body.append(lambda: d.set(P, "dynamic", d.strings(["gui-scripts"])))
        if some(.3):
            body.append(lambda: d.set(P, "import-names", d.strings(["unknown_to_pkm"])))
        if some(.8):
            body.append(lambda: d.set(P, "dependencies", d.strings(rng.sample(DEPS, rng.randrange(5)))))
        if some(.2):
            body.append(lambda: d.set(P, "optional-dependencies", "{ test = " + "[" + ", ".join(map(q, rng.sample(DEPS, 2))) + "] }"))
            opt = False
        else:
            opt = some(.5)
        if some(.3):
            body.append(lambda: d.set(P, "urls", '{Home = "http://x.io", "Bug Tracker" = "http://x.io/b?q=1#x"}'))
        rng.shuffle(body)
        for b in body:
            b()
        if opt:
            d.table("project", "optional-dependencies")
            for g in rng.sample(["test", "docs", "a.b"], rng.choice([1, 2])):
                d.set(P + ("optional-dependencies",), g, d.strings(rng.sample(DEPS, rng.randrange(1, 4))))
        if some(.5):
            d.table("project", "scripts")
            d.set(P + ("scripts",), "run-it", q("a.b:c"))
            d.set(P + ("scripts",), "x.y", q("m:f [e]"))
        if some(.3):
            d.table("project", "gui-scripts")
            d.set(P + ("gui-scripts",), "gui", q("a:g"))
        if some(.4):
            d.table("project", "entry-points", rng.choice(["pytest11", "my.group"]))
            d.set(P + ("entry-points", "g"), "n", q("mod:obj.attr"))

    def build():
        d.table("build-system")
        d.set(("build-system",), "requires", d.strings(rng.choice([["pkm >=0.4"], ["setuptools >=40", "wheel"], []])))
        if some(.8):
            d.set(("build-system",), "build-backend", q(rng.choice(["pkm.api.buildsys", "setuptools.build_meta"])))
        if some(.2):
            d.set(("build-system",), "backend-path", '["."]')
        if some(.2):
            d.set(("build-system",), "unknown", "{a = [1, 2]}")

    def pkm():
        if some(.6):
            d.table("tool", "pkm", "project")
            if some(.6):
                d.set(("tool", "pkm", "project"), "packages", '["src/a", "b"]')
            if some(.3):
                d.set(("tool", "pkm", "project"), "future-option", "1979-05-27T07:32:00Z")
        if some(.4):
            d.table("tool", "pkm", "distribution")
            d.set(("tool", "pkm", "distribution"), "type", q(rng.choice(["lib", "cnt-app", "none"])))
        if some(.3):
            d.table("tool", "pkm", "application")
            d.set(("tool", "pkm", "application"), "containerized", "true")
            d.set(("tool", "pkm", "application"), "dependencies", d.strings(rng.sample(DEPS, 2)))
            if some(.5):
                d.table("tool", "pkm", "application", "dependency-overwrites")
                d.set(("tool", "pkm", "application", "dependency-overwrites"), "foo", q("foo >2"))
        if some(.4):
            d.table("tool", "pkm", "templates")
            d.set(("tool", "pkm", "templates"), "z", "0x1F")

    def other():
        d.table("tool", "black")
        d.set(("tool", "black"), "line-length", "100")
        d.set(("tool", "black"), "regex", "'''\n\\d+\n'''")
        if some(.5):
            for i in range(2):
                d.lines.append("[[tool.mypy.overrides]]")
                d.set(("tool", "mypy"), "module", q(f"m{i}"))
                d.set(("tool", "mypy"), "ratio", rng.choice(["1.5", "inf", "1e3"]))

    parts = [project, pkm] + [p for p in (build, other) if some(.7)]
    rng.shuffle(parts)
    for p in parts:
        p()
    return d


def meaning(path, v):
    """values that may be written another way are compared by what they denote"""
    if isinstance(v, dict):
        return {k: meaning(path + (k,), x) for k, x in v.items()}
    if isinstance(v, list):
        return [meaning(path + (i,), x) for i, x in enumerate(v)]
    if isinstance(v, str):
        keys = [p for p in path if isinstance(p, str)]
        if keys[:1] == ["project"] and keys[1:2] in (["dependencies"], ["optional-dependencies"]) or keys == ["build-system", "requires"] or keys[-1:] == ["dependencies"] or "dependency-overwrites" in keys:
            try:
                return req_key(v)
            except Exception:  # noqa
                return ("text", v)
        if keys == ["project", "requires-python"]:
            s = SpecifierSet(v)
            return tuple(s.contains(x) for x in ("2.7", "3.0", "3.6", "3.7.0", "3.7.1", "3.7.2", "3.8", "3.9.5", "3.10", "3.12.3", "4.0"))
        if keys == ["project", "version"]:
            return PV(v)
        if keys == ["project", "name"]:
            return norm(v)
        if len(keys) == 3 and keys[:2] in (["project", "scripts"], ["project", "gui-scripts"]) or keys[:2] == ["project", "entry-points"]:
            return v.replace(" ", "")
    return (type(v).__name__, v)


def diff(path, got, want, defaults):
    """first difference that is not a documented default, or None"""
    if isinstance(got, dict) and isinstance(want, dict):
        for k in want:
            if k not in got:
                if want[k] in ({}, []) and k in ("dependencies", "optional-dependencies", "children", "repos", "package-bindings"):
                    continue
                return path + (k,), "missing", want[k]
            if (r := diff(path + (k,), got[k], want[k], defaults)):
                return r
        for k in got:
            if k not in want and got[k] not in defaults.get(path + (k,), ()):
                return path + (k,), got[k], "absent"
        return None
    return None if meaning(path, got) == meaning(path, want) else (path, got, want)


def run(ctx):
    rng = ctx.rng
    ctx.rule = RULE
    ctx.assumptions = ["requirements, python ranges, versions and the project name may be written another way with the same meaning", "settings of documented defaults may be added",
                       "comments inside an edited array or next to a removed entry may go with it"]
    ctx.required_events = ["project edits", "group edits", "repository edits", "version bumps", "reloads", "undone", "comments kept", "bindings", "dependency edits"]
    os.environ["HOME"] = str(Path("home").absolute())
    from pkm.api.environments.environment import Environment
    from vmon.world import make_env
    own = make_env(ctx)
    Environment.current = classmethod(lambda cls, site="user": own)        # pkm itself runs there
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.packages.package_metadata import PackageMetadata  # noqa
    from pkm.api.projects.project import Project
    from pkm.api.projects.project_group import ProjectGroup
    from pkm.api.projects.pyproject_configuration import PyProjectConfiguration
    from pkm.api.repositories.repositories_configuration import RepositoriesConfiguration, RepositoryInstanceConfig
    from pkm.api.repositories.repository_management import ProjectRepositoryManagement
    from pkm.api.versions.version import Version

    root = Path("prjs").absolute()
    n = [0]

    def judge(tag, file, model, defaults, comments, gone, hist):
        text = file.read_text(encoding="utf-8")
        try:
            data = tomllib.loads(text)
        except tomllib.TOMLDecodeError as e:
            ctx.violation(f"{tag}:invalid", f"the saved file is not TOML: {e}\n{text}", history=hist)
            return False
        if d := diff((), data, model, defaults):
            ctx.violation(f"{tag}:{'.'.join(map(str, d[0][:3]))}", f"after {hist[1:]} the file has {d[1]!r} at {d[0]}, expected {d[2]!r}\n{hist[0]}\n--- became\n{text}", history=hist)
            return False
        for c, anchor in comments:
            if anchor is not None and any(anchor[:len(g)] == g for g in gone):
                continue
            ctx.event("comments kept")
            if c not in text:
                ctx.violation(f"{tag}:comment", f"after {hist[1:]} the comment {c} at {anchor} is gone\n{hist[0]}\n--- became\n{text}", history=hist)
                return False
        return True

    # ------------------------------------------------------------------ projects
    def project_history():
        n[0] += 1
        d = root / f"p{n[0]}"
        (d / "src").mkdir(parents=True)
        doc = project_file(rng)
        text = doc.text()
        file = d / "pyproject.toml"
        file.write_text(text, encoding="utf-8")
        model = tomllib.loads(text)
        hist, gone = [text], set()
        st, prj = outcome(Project.load, d)
        if st == "err":
            ctx.violation("project:load", f"a valid project cannot be loaded: {short_tb(prj)}\n{text}", text=text)
            return
        original = copy.deepcopy(model)
        for _ in range(rng.choice([1, 2, 4])):
            if rng.random() < .4:
                ctx.event("reloads")
                prj = Project.load(d) if rng.random() < .5 else (prj.config.reload(), prj)[1]
            cfg = prj.config.project
            op = rng.choice(["bump", "add", "remove", "replace", "optional", "save"])
            hist.append(op)
            ctx.event("project edits")
            if op == "bump":
                part = rng.choice(["major", "minor", "patch"])
                old = PV(model["project"]["version"])
                st, r = outcome(prj.bump_version, part)
                if st == "err":
                    ctx.violation("project:crash", f"bump_version({part}) fails: {short_tb(r)}\n{file.read_text()}", history=hist)
                    return
                rel = list(old.release)
                i = ["major", "minor", "patch"].index(part)
                rel = rel[:i] + [rel[i] + 1] + [0] * (2 - i)
                new = (f"{old.epoch}!" if old.epoch else "") + ".".join(map(str, rel))
                ctx.event("version bumps")
                ctx.check(str(r) == new and prj.config.project.version == Version.parse(new), "project:bump", f"bumping the {part} of {old} gives {r}, expected {new}")
                model["project"]["version"] = new
            else:
                deps = model["project"].setdefault("dependencies", [])
                target = cfg.dependencies
                gp = ("project", "dependencies")
                if op == "optional":
                    og = model["project"].setdefault("optional-dependencies", {})
                    name = rng.choice([*og, "new-group"])
                    deps = og.setdefault(name, [])
                    target = cfg.optional_dependencies.setdefault(name, [])
                    gp = ("project", "optional-dependencies")
                before = list(deps)
                if op in ("add", "optional", "replace"):
                    t = rng.choice(DEPS)
                    deps[:] = [x for x in deps if norm(Requirement(x).name) != norm(Requirement(t).name)]
                    deps.append(t)
                    k = Dependency.parse(t)
                    if op == "replace":
                        cfg.dependencies = [x for x in cfg.dependencies if x.package_name_key != k.package_name_key] + [k]
                    else:
                        target[:] = [x for x in target if x.package_name_key != k.package_name_key] + [k]
                    hist[-1] = (op, gp, t)
                elif op == "remove" and deps:
                    i = rng.randrange(len(deps))
                    hist[-1] = (op, deps[i])
                    del deps[i]
                    del target[i]
                if op != "save":
                    ctx.event("dependency edits")
                    if deps != before:
                        gone.add(gp)
                st, r = outcome(prj.config.save)
                if st == "err":
                    ctx.violation("project:crash", f"saving after {hist[1:]} fails: {short_tb(r)}\n{text}", history=hist)
                    return
            ctx.evaluated(repr(hist), sample={"edits": hist[1:]})
            if not judge("project", file, model, DEFAULTS, doc.comments, gone, hist):
                return
            st, back = outcome(PyProjectConfiguration.load_effective, file)
            if st == "err":
                ctx.violation("project:reload", f"the saved project cannot be loaded: {short_tb(back)}\n{file.read_text()}", history=hist)
                return
            a, b = back.project, cfg
            for f in ("name", "version", "description", "authors", "maintainers", "keywords", "classifiers", "urls", "dynamic", "readme", "license"):
                ctx.check(getattr(a, f) == getattr(b, f), f"project:reload:{f}", f"{f} is {getattr(a, f)!r} after a reload, {getattr(b, f)!r} before", history=hist)
            ctx.check([req_key(str(x)) for x in a.dependencies] == [req_key(x) for x in model["project"].get("dependencies", [])], "project:reload:dependencies", f"reloaded dependencies {a.dependencies}", history=hist)
            ctx.check(back.pkm_project == prj.config.pkm_project and back.build_system.build_backend == prj.config.build_system.build_backend and back.pkm_distribution == prj.config.pkm_distribution,
                      "project:reload:tool", "tool settings change on reload", history=hist)
        # undo
        prj = Project.load(d)
        prj.config.project.version = Version.parse(original["project"]["version"])
        prj.config.project.dependencies = [Dependency.parse(x) for x in original["project"].get("dependencies", [])]
        prj.config.project.optional_dependencies = {g: [Dependency.parse(x) for x in v] for g, v in original["project"].get("optional-dependencies", {}).items()}
        hist.append("undo")
        st, r = outcome(prj.config.save)
        if st == "err":
            ctx.violation("project:crash", f"undoing {hist[1:]} fails: {short_tb(r)}\n{text}", history=hist)
            return
        ctx.event("undone")
        judge("project:undo", file, original, DEFAULTS, doc.comments, gone, hist)
        shutil.rmtree(d)

    # ------------------------------------------------------------------ groups
    def group_history():
        n[0] += 1
        d = root / f"g{n[0]}"
        kids = {}
        for k in rng.sample(["one", "Two.x", "sub/three", "sp ace", "é", "grp", "other/three", "sub/one"], rng.randrange(1, 7)):
            (d / k).mkdir(parents=True)
            if k == "grp":
                (d / k / "pyproject-group.toml").write_text(f'name = "the-group"\nchildren = []\n')
                kids[k] = "the-group"
            else:
                name = "pkg-" + "".join(c for c in k.lower().replace("é", "e") if c.isalpha())
                (d / k / "pyproject.toml").write_text(f'[project]\nname = {q(name)}\nversion = "1.0.0"\n')
                kids[k] = name
        doc = Doc(rng)
        doc.before(None)
        if rng.random() < .5:
            doc.set((), "name", q("my group"))
        cur = rng.sample(list(kids), rng.randrange(len(kids) + 1))
        if rng.random() < .2:
            cur.append("missing-dir")
        if cur or rng.random() < .7:
            doc.set((), "children", doc.strings(cur))
        if rng.random() < .4:
            doc.set((), "extra", "[1, {a = 2}]")
        if rng.random() < .5:
            doc.table("tool", "x")
            doc.set(("tool", "x"), "y", "1.5")
        text = doc.text()
        file = d / "pyproject-group.toml"
        file.write_text(text, encoding="utf-8")
        model = tomllib.loads(text)
        cur = list(model.get("children", []))
        rest = {k: v for k, v in model.items() if k != "children"}
        hist, gone = [text], set()
        group = ProjectGroup.load(d)
        for _ in range(rng.choice([1, 2, 3])):
            if rng.random() < .5:
                ctx.event("reloads")
                group = ProjectGroup.load(d)
            op = rng.choice(["add", "add path", "remove path", "remove name"])
            hist.append(op)
            if op.startswith("add"):
                free = [k for k in kids if k not in cur and not (op == "add" and k == "grp")]
                if not free:
                    continue
                k = rng.choice(free)
                hist[-1] = (op, k)
                st, r = outcome(group.add, Project.load(d / k) if op == "add" else (d / k))
                cur.append(k)
            else:
                have = [k for k in cur if k in kids]
                if not have:
                    continue
                k = rng.choice(have)
                hist[-1] = (op, k)
                if op == "remove name":
                    group = ProjectGroup.load(d)
                st, r = outcome(group.remove, d / k if op == "remove path" else rng.choice([kids[k], kids[k].upper(), kids[k].replace("-", "_")]))
                cur.remove(k)
            gone.add(("children",))
            ctx.event("group edits")
            ctx.evaluated(repr(hist), sample={"edits": hist[1:]})
            if st == "err":
                ctx.violation("group:crash", f"{hist[1:]} fails: {short_tb(r)}\n{text}", history=hist)
                return
            data = tomllib.loads(file.read_text(encoding="utf-8"))
            where = [os.path.realpath(d / c) for c in data.get("children", [])]
            ctx.check(where == [os.path.realpath(d / c) for c in cur], "group:children", f"after {hist[1:]} the children are {data.get('children')}, expected {cur}", history=hist)
            model = {**rest, **({"children": data["children"]} if "children" in data else {})}
            if not judge("group", file, model, GROUP_DEFAULTS, doc.comments, gone, hist):
                return
            st, r = outcome(lambda: [os.path.realpath(c.path) for c in ProjectGroup.load(d).children])
            if st == "err":
                ctx.violation("group:reload", f"the children of the saved group cannot be loaded: {short_tb(r)}", history=hist)
                return
            ctx.check(r == [os.path.realpath(d / c) for c in cur if c in kids], "group:reload", f"the reloaded group has children {r}, expected {cur}", history=hist)
            for k in kids:
                if k != "grp":
                    g = Project.load(d / k).group
                    ctx.check((g is not None and os.path.realpath(g.path) == os.path.realpath(d)) == (k in cur), "group:member", f"project {k} is in group {g and g.path} after {hist[1:]}", history=hist)
        shutil.rmtree(d)

    # ------------------------------------------------------------------ repositories
    def repository_history():
        n[0] += 1
        d = root / f"r{n[0]}"
        (d / "etc/pkm").mkdir(parents=True)
        (d / "store").mkdir()
        (d / "pyproject.toml").write_text('[project]\nname = "x"\nversion = "1.0.0"\n')
        file = d / "etc/pkm/repositories.toml"
        doc = Doc(rng)
        text = ""
        repo_text = lambda p: {"type": rng.choice(["simple", "file-system"])}
        if rng.random() < .8:
            if rng.random() < .5:
                doc.set((), "inheritance", q(rng.choice(["context", "none", "global"])))
            if rng.random() < .3:
                doc.set((), "extra", "1")
            for r in rng.sample(["a", "b.c", "my repo", "d"], rng.randrange(4)):
                doc.table("repos", r)
                if rng.random() < .5:
                    doc.set(("repos", r), "type", q("simple"))
                    doc.set(("repos", r), "url", q(f"http://localhost:1/{rng.randrange(3)}"))
                else:
                    doc.set(("repos", r), "type", q("file-system"))
                    doc.set(("repos", r), "path", q(str(d / "store")))
                if rng.random() < .4:
                    doc.set(("repos", r), "bind-only", rng.choice(["true", "false"]))
            if rng.random() < .6:
                doc.table("package-bindings")
                for p in rng.sample(["foo", "Bar-x", "z.y"], rng.randrange(1, 4)):
                    doc.set(("package-bindings",), p, rng.choice([q("a"), '{type = "simple", url = "http://localhost:2/simple"}']))
            text = doc.text()
            file.write_text(text, encoding="utf-8")
        model = tomllib.loads(text)
        original = copy.deepcopy(model)
        hist, gone = [text], set()
        prj = Project.load(d)

        def manager():
            return ProjectRepositoryManagement(prj)

        st, man = outcome(manager)
        if st == "err":
            ctx.violation("repositories:load", f"a valid configuration cannot be loaded: {short_tb(man)}\n{text}", text=text)
            return
        for _ in range(rng.choice([1, 2, 4])):
            if rng.random() < .4:
                ctx.event("reloads")
                man = manager()
            op = rng.choice(["add", "remove", "bind", "bind inline", "unbind"])
            repos, binds = model.setdefault("repos", {}), model.setdefault("package-bindings", {})
            if op == "add":
                name = rng.choice(["new", "b.c", "new 2"])
                typ, args = rng.choice([("simple", {"url": "http://localhost:3/s"}), ("file-system", {"path": str(d / "store")})])
                only = rng.random() < .5
                hist.append((op, name, typ, only))
                st, r = outcome(man.add_repository, name, typ, dict(args), only)
                repos[name] = {"type": typ, "bind-only": only, **args}
                gone.add(("repos", name))
            elif op == "remove":
                name = rng.choice([*repos, "unknown"])
                hist.append((op, name))
                st, r = outcome(man.remove_repository, name)
                if name in repos:
                    gone.add(("repos", name))
                repos.pop(name, None)
                gone |= {("package-bindings", k) for k, v in binds.items() if v == name}
                model["package-bindings"] = {k: v for k, v in binds.items() if v != name}
            else:
                names = rng.sample(["foo", "Foo", "bar_x", "new.pkg", "Z-y"], rng.choice([1, 2]))
                if len({norm(x) for x in names}) < len(names):
                    names = names[:1]
                ctx.event("bindings")
                to = None if op == "unbind" else "a" if op == "bind" else {"type": "simple", "bind-only": True, "url": "http://localhost:4/s"}
                hist.append((op, names))
                st, r = outcome(man.register_bindings, names, RepositoryInstanceConfig("simple", True, {"url": "http://localhost:4/s"}) if op == "bind inline" else to)
                keys = {norm(x) for x in names}
                gone |= {("package-bindings", k) for k in binds if norm(k) in keys}
                binds = {k: v for k, v in binds.items() if norm(k) not in keys}
                if to:
                    binds.update({x: to for x in names})
                model["package-bindings"] = binds
            ctx.event("repository edits")
            ctx.evaluated(repr(hist), sample={"edits": hist[1:]})
            if st == "err":
                ctx.violation("repositories:crash", f"{hist[1:]} fails: {short_tb(r)}\n{text}", history=hist)
                return
            got = tomllib.loads(file.read_text(encoding="utf-8"))
            if not judge("repositories", file, _plain(model), {**REPO_DEFAULTS, **{("repos", k, "bind-only"): [False] for k in model["repos"]}}, doc.comments, gone, hist):
                return
            if rng.random() < .5:
                outcome(lambda: man._loader.load("x", man.configuration, man._loader.global_repo))  # using the configuration must not change it
            st, man2 = outcome(manager)
            if st == "err":
                ctx.violation("repositories:reload", f"the saved configuration cannot be loaded: {short_tb(man2)}", history=hist)
                return
            c1 = {k: (v.type, bool(v.bind_only), v.args) for k, v in man2.defined_repositories()}
            want = {k: (v["type"], v.get("bind-only", False), {a: x for a, x in v.items() if a not in ("type", "bind-only")}) for k, v in model["repos"].items()}
            ctx.check(c1 == want, "repositories:reloaded", f"reloaded repositories {c1}, expected {want}", history=hist)
            ctx.check(dict(man2.configuration.package_bindings) == model["package-bindings"], "repositories:bindings", f"reloaded bindings {man2.configuration.package_bindings}, expected {model['package-bindings']}", history=hist)
        shutil.rmtree(d)

    more = ctx.budget(10, 240)
    while more():
        project_history()
        project_history()
        group_history()
        repository_history()


def _plain(v):
    return {k: _plain(x) for k, x in v.items()} if isinstance(v, dict) else v
