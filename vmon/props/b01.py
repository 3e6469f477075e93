"""B01: generated projects are built by pkm (library calls and build-backend hooks); the archives are re-read by readers of the standard
library and of packaging, compared with the project, built again from the source distribution, and installed by pip and by pkm."""
import configparser
import contextlib
import csv
import email.parser
import email.policy
import email.utils
import hashlib
import io
import json
import os
import subprocess
import sys
import tarfile
import tomllib
import warnings
import zipfile
from pathlib import Path

from packaging.metadata import Metadata
from packaging.requirements import Requirement
from packaging.specifiers import SpecifierSet
from packaging.utils import canonicalize_name, parse_sdist_filename, parse_wheel_filename
from packaging.version import Version as PV

from vmon.core import outcome, short_tb
from vmon.world import b64, make_env, reset_tree, snapshot, tree_diff

NAMES = ["alpha", "My-Proj", "zope.thing", "under_score", "A.B-c_D", "x1", "UPPER"]
VERSIONS = ["1.0", "0.1.0", "2.3.1", "1.0a1", "1.0.post2", "1!2.0", "3.0+local.1", "4.0.dev1", "1.0rc1", "2.0.post1.dev2", "1.2.3.4"]
PYTHONS = [None, ">=3.8", ">=3.8, <4", "==3.12.*", "~=3.8", ">=3.6, !=3.7.*", ">2.7", "<4", "!=3.11.2", ">=3.8.2,<3.13|", ">=3"]
REQS = ["dep-a", "Dep.B >=1.0", "dep_c[x,y] ~=2.1", "dep-d ==1.*; python_version < '3.9'", "dep-e; sys_platform == 'win32' or os_name == 'posix'",
        "dep-f @ https://host/dep_f-1.0.zip", "dep-g !=1.5,<3,>=1; python_version >= '3.8' and implementation_name == 'cpython'", "dep-h (>=1.0)", "dep-i >=1.0a1"]
EXTRAS = ["test", "docs", "Big_Extra", "x2"]
ENVS = [{"python_version": v, "python_full_version": v + ".1", "sys_platform": p, "os_name": o, "platform_system": s, "implementation_name": i, "platform_machine": "x86_64",
         "platform_python_implementation": "CPython", "platform_release": "1", "platform_version": "1", "implementation_version": v + ".1"}
        for v in ("3.7", "3.8", "3.12") for p, o, s in (("linux", "posix", "Linux"), ("win32", "nt", "Windows")) for i in ("cpython", "pypy")]
TEXTS = ["Plain text.", "# Title\n\nSome *text*.\n", "Grüße — ünïcode\n\n  indented\n\ttab\n", "From me: to you\nHeader-Like: yes\n\nbody\n", "one\n\n\ntwo\n", "ends without newline"]
LICENSES = ["MIT", "Apache License\n\n   Version 2.0\n\nTerms:\n  1. be nice\n", "Copyright © someone\n|pipe\n"]
PEOPLE = [{"name": "Ann Author"}, {"email": "only@mail.org"}, {"name": "Bob B.", "email": "bob@mail.org"}, {"name": "Çelik, Ünal", "email": "c@mail.org"}, {"name": 'Q "quoted" R', "email": "q@mail.org"}, {"name": "Zoë Plain"}]
FINALS = ["0.9", "1.0", "1.0.post1", "1.1", "1.5", "1.5.1", "2.0", "2.1", "2.1.7", "2.2", "3.0", "3.1"]
CLASSIFIERS = ["Programming Language :: Python :: 3", "License :: OSI Approved :: MIT License", "Topic :: Utilities"]


def toml_value(v):
    if isinstance(v, str):
        return json.dumps(v, ensure_ascii=False)
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, list):
        return "[" + ", ".join(toml_value(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {toml_value(x)}" for k, x in v.items()) + " }"
    return str(v)


class Proj:
    """a generated project: its configuration (as data) and its package files"""

    def __init__(self, r, root):
        self.root, self.rng = root, r
        p = self.project = {"name": r.choice(NAMES), "version": r.choice(VERSIONS)}
        self.files = {}                     # path in the archive of the wheel -> content
        self.exec = set()
        self.side = {}                      # other files of the project
        if r.random() < .7:
            p["description"] = r.choice(["A thing", "Ünïcode summary: with colon", "x" * 90])
        x = r.random()
        self.readme = None
        if x < .75:
            self.readme = r.choice(TEXTS)
            name = r.choice(["README.md", "README.rst", "readme.txt", "docs/README.md", "README"])
            kind = {".md": "text/markdown", ".rst": "text/x-rst"}.get(Path(name).suffix, "text/plain")
            if x < .3:
                p["readme"], self.side[name] = name, self.readme.encode()
            elif x < .55:
                p["readme"], self.side[name] = {"file": name}, self.readme.encode()
                if r.random() < .5:
                    kind = r.choice(["text/markdown", "text/x-rst", "text/plain"])
                    p["readme"]["content-type"] = kind
            else:
                kind = r.choice(["text/markdown", "text/plain"])
                p["readme"] = {"text": self.readme, "content-type": kind}
            self.kind = kind
        x = r.random()
        self.license = None
        if x < .6:
            self.license = r.choice(LICENSES)
            if x < .35:
                name = r.choice(["LICENSE", "LICENSE.txt", "legal/license.txt"])
                p["license"], self.side[name] = {"file": name}, self.license.encode()
            else:
                p["license"] = {"text": self.license}
        if r.random() < .6:
            p["authors"] = r.sample(PEOPLE, r.randint(1, 3))
        if r.random() < .3:
            p["maintainers"] = r.sample(PEOPLE, r.randint(1, 2))
        if r.random() < .5:
            p["keywords"] = r.sample(["one", "two words", "drei", "ünï"], r.randint(1, 3))
        if r.random() < .5:
            p["classifiers"] = r.sample(CLASSIFIERS, r.randint(1, 3))
        if r.random() < .5:
            p["urls"] = dict(r.sample([("homepage", "https://example.org/a?b=c&d"), ("Bug Tracker", "https://example.org/bugs"), ("docs", "http://example.org/#x, y")], r.randint(1, 3)))
        py = r.choice(PYTHONS)
        if py:
            p["requires-python"] = py.rstrip("|")
        if r.random() < .7:
            p["dependencies"] = r.sample(REQS, r.randint(0, 4))
        if r.random() < .5:
            p["optional-dependencies"] = {e: r.sample(REQS, r.randint(0, 3)) for e in r.sample(EXTRAS, r.randint(1, 3))}
        # sources
        self.layout = r.choice(["src", "src", "listed", "nested", "spread"])
        base = {"src": "src/", "listed": "", "nested": r.choice(["lib/", "code/py/", "src/"]), "spread": ""}[self.layout]
        tops = r.sample(["pa", "pb", "ünï", "p_c"], r.choice([1, 1, 2, 3]) if self.layout != "spread" else r.choice([2, 3]))
        self.bases = {n: base if self.layout != "spread" else r.choice(["lib/", "code/py/", "src/", ""]) for n in tops}
        self.packages = [b + n for n, b in self.bases.items()]
        for top in self.bases:
            self.files[f"{top}/__init__.py"] = f"TOKEN = {top!r}\n\n\ndef main():\n    print(TOKEN)\n\n\nclass K:\n    @staticmethod\n    def go():\n        print(TOKEN, 'go')\n".encode()
            for _ in range(r.randint(0, 6)):
                f = r.choice(["mod{i}.py", "sub/__init__.py", "sub/deep/data{i}.bin", "with space {i}.txt", "com,ma{i}.txt", 'quo"te{i}.txt', "ünï{i}.txt", ".hidden{i}", "RECORD", "METADATA",
                              "run{i}.sh", "noext{i}", "old.py{i}", "a.b.c{i}.py", "tests/test_{i}.py", "build/x{i}.py", "data.dist-info/x{i}"]).replace("{i}", str(r.randint(0, 9)))
                body = r.choice([b"", b"x = 1\n", b"\r\nline\r\n", r.randbytes(50), r.randbytes(70_000)])
                if f.endswith(".py"):
                    body = f"X = {r.randint(0, 99)}\n".encode()
                self.files[f"{top}/{f}"] = body
                if f.startswith("run"):
                    self.exec.add(f"{top}/{f}")
        self.top = list(self.bases)
        scripts = {}
        if r.random() < .5:
            scripts[r.choice(["run-it", "tool.x", "my_tool"])] = f"{self.top[0]}:main"
        if r.random() < .3:
            scripts["go-deep"] = f"{self.top[0]}:K.go"
        if scripts:
            p["scripts"] = scripts
        if r.random() < .25:
            p["gui-scripts"] = {"win-it": f"{self.top[0]}:main"}
        if r.random() < .35:
            p["entry-points"] = {g: {n: f"{self.top[0]}:K" for n in r.sample(["one", "Two.x", "three-y"], r.randint(1, 2))} for g in r.sample(["my.group", "pytest11", "x-y_z"], r.randint(1, 2))}
        self.tool = {"other": {"key": [1, 2], "text": "x"}} if r.random() < .5 else {}

    def write(self):
        own = {self.bases[k.split("/")[0]] + k: k for k in self.files}
        for n, b in {**{n: self.files[k] for n, k in own.items()}, **self.side}.items():
            f = self.root / n
            f.parent.mkdir(parents=True, exist_ok=True)
            f.write_bytes(b)
            if own.get(n) in self.exec:
                f.chmod(0o755)
            if self.rng.random() < .1:
                os.utime(f, (0, 0) if self.rng.random() < .4 else (10 ** 9, 10 ** 9))
        for pk in self.packages:                            # what earlier runs of an interpreter leave
            if self.rng.random() < .5:
                c = self.root / pk / "__pycache__"
                c.mkdir(exist_ok=True)
                (c / "__init__.cpython-38.pyc").write_bytes(b"old")
        if self.rng.random() < .5:
            (self.root / "tests").mkdir(exist_ok=True)
            (self.root / "tests" / "test_x.py").write_text("assert 1\n")
        lines = ["[project]"]
        tables = []
        for k, v in self.project.items():
            if isinstance(v, dict) and (k in ("scripts", "gui-scripts", "urls", "optional-dependencies") or (k == "readme" and self.rng.random() < .5)) and self.rng.random() < .8:
                tables.append(f"[project.{k}]\n" + "".join(f"{json.dumps(a, ensure_ascii=False)} = {toml_value(b)}\n" for a, b in v.items()))
            elif k == "entry-points":
                tables.extend(f"[project.entry-points.{json.dumps(g)}]\n" + "".join(f"{json.dumps(a)} = {toml_value(b)}\n" for a, b in v2.items()) for g, v2 in v.items())
            else:
                lines.append(f"{k} = {toml_value(v)}")
        tables.append('[build-system]\nrequires = ["pkm"]\nbuild-backend = "pkm.api.buildsys"\n')
        if self.layout != "src":
            tables.append(f"[tool.pkm.project]\npackages = {toml_value(self.packages)}\n")
        if self.tool:
            tables.append("[tool.other]\nkey = [1, 2]\ntext = \"x\"\n")
        self.rng.shuffle(tables)
        (self.root / "pyproject.toml").write_text("\n".join([*lines, "", *tables]), encoding="utf-8")

    def requires(self):
        """[(requirement, extra or None)]"""
        out = [(Requirement(t), None) for t in self.project.get("dependencies", [])]
        for e, ts in self.project.get("optional-dependencies", {}).items():
            out += [(Requirement(t), e) for t in ts]
        return out

    def points(self):
        out = {k: dict(v) for k, v in self.project.get("entry-points", {}).items()}
        if "scripts" in self.project:
            out["console_scripts"] = self.project["scripts"]
        if "gui-scripts" in self.project:
            out["gui_scripts"] = self.project["gui-scripts"]
        return out


def unfold(text):
    first, *more = text.split("\n")
    return "\n".join([first, *(m[8:] if m.startswith(" " * 8) or m.startswith(" " * 7 + "|") else m.strip() for m in more)])


def judge_metadata(say, proj, raw, what):
    msg = email.parser.BytesParser(policy=email.policy.compat32).parsebytes(raw)
    p = proj.project
    one = lambda k: str(email.header.make_header(email.header.decode_header(msg[k]))) if msg[k] is not None else None
    text = raw.decode("utf-8")
    msg = email.parser.Parser(policy=email.policy.compat32).parsestr(text)
    one, many = msg.get, lambda k: msg.get_all(k) or []
    try:
        Metadata.from_email(raw, validate=True)
    except Exception as e:  # an ExceptionGroup
        say("metadata-invalid", f"{what}: packaging refuses the metadata: {e} {getattr(e, 'exceptions', '')}"[:600])
    eq = lambda key, got, want: got == want or say("metadata-" + key, f"{what}: {key} is {got!r}, the project says {want!r}")
    eq("name", canonicalize_name(one("Name") or ""), canonicalize_name(p["name"]))
    eq("version", PV(one("Version")), PV(p["version"]))
    eq("summary", one("Summary"), p.get("description"))
    eq("keywords", sorted((one("Keywords") or "").split(",")) if p.get("keywords") else one("Keywords") or None, sorted(p["keywords"]) if p.get("keywords") else None)
    eq("classifiers", many("Classifier"), p.get("classifiers", []))
    eq("urls", sorted(tuple(x.split(", ", 1)) for x in many("Project-URL")), sorted(p.get("urls", {}).items()))
    eq("extras", sorted(canonicalize_name(x) for x in many("Provides-Extra")), sorted(canonicalize_name(x) for x in p.get("optional-dependencies", {})))
    for field, key in (("Author", "authors"), ("Maintainer", "maintainers")):
        people = p.get(key, [])
        eq(key, sorted(email.utils.getaddresses([one(field + "-email") or ""])) if one(field + "-email") else [], sorted((c.get("name", ""), c["email"]) for c in people if "email" in c))
        eq(key, one(field), ", ".join(c["name"] for c in people if "email" not in c) or None)
    want = SpecifierSet(p.get("requires-python", ""))
    got = SpecifierSet(one("Requires-Python") or "")
    odd = [v for v in ("2.6", "2.7", "2.7.18", "3.0", "3.6", "3.7", "3.7.9", "3.8", "3.8.2", "3.11", "3.11.2", "3.11.3", "3.12", "3.12.7", "3.13", "3.13.0", "4.0", "4.1") if (v in want) != (v in got)]
    if odd:
        say("metadata-python", f"{what}: Requires-Python {one('Requires-Python')!r} for {p.get('requires-python')!r} differs for {odd}")
    if proj.readme is not None:
        eq("readme", msg.get_payload().strip("\n"), proj.readme.strip("\n"))
        eq("readme-type", (one("Description-Content-Type") or "").split(";")[0], proj.kind)
    if proj.license is not None:
        eq("license", unfold(one("License") or "").rstrip("\n").splitlines(), proj.license.rstrip("\n").splitlines())
    got = [Requirement(t) for t in many("Requires-Dist")]
    fit = lambda a, b: [a.specifier.contains(v, prereleases=True) for v in FINALS + ([] if '*' in f'{a} {b}' else ['1.0a1', '1.0a2', '2.0b1', '3.0.dev1'])]
    same = lambda a, b: canonicalize_name(a.name) == canonicalize_name(b.name) and (a.specifier == b.specifier or fit(a, b) == fit(b, a)) and a.extras == b.extras and a.url == b.url
    holds = lambda q, env, e: q.marker is None or q.marker.evaluate({**env, "extra": e})
    for q, extra in proj.requires():
        cases = [(env, e) for env in ENVS for e in ("", *EXTRAS)]
        def wanted(env, e):
            return any(same(w, q) and (we is None or canonicalize_name(we) == canonicalize_name(e)) and holds(w, env, "") for w, we in proj.requires())
        bad = [(env["python_version"], env["sys_platform"], e) for env, e in cases if any(same(g, q) and holds(g, env, e) for g in got) != wanted(env, e)]
        if bad:
            say("metadata-requires", f"{what}: {q} ({'extra ' + extra if extra else 'always'}) is not what the metadata requires, e.g., for {bad[0]}: {many('Requires-Dist')}")
            break
    for g in got:
        if not any(same(g, q) for q, _ in proj.requires()):
            say("metadata-requires", f"{what}: the project does not declare {g}")
    return msg


def read_points(raw):
    c = configparser.ConfigParser(delimiters=("=",), interpolation=None)
    c.optionxform = str
    c.read_string(raw.decode("utf-8"))
    return {s: {k: v.replace(" ", "") for k, v in c[s].items()} for s in c.sections() if c[s]}


def judge_wheel(say, proj, path, what):
    p = proj.project
    name, version, _, tags = parse_wheel_filename(path.name)
    if (name, version) != (canonicalize_name(p["name"]), PV(p["version"])):
        say("wheel-name", f"{what}: the file name {path.name} stands for {name} {version}")
    with zipfile.ZipFile(path) as z:
        infos = [i for i in z.infolist() if not i.is_dir()]
        members = {i.filename: z.read(i) for i in infos}
        if len(members) != len(infos):
            say("wheel-twice", f"{what}: members occur twice")
        modes = {i.filename: i.external_attr >> 16 for i in infos}
    infodirs = {n.split("/")[0] for n in members if n.split("/")[0].endswith(".dist-info")}
    if len(infodirs) != 1:
        say("wheel-dist-info", f"{what}: dist-info folders {infodirs}")
        return members, None
    di = infodirs.pop()
    n, _, v = di[:-len(".dist-info")].partition("-")
    if (canonicalize_name(n), v) != (canonicalize_name(p["name"]), path.name.split("-")[1]):
        say("wheel-dist-info", f"{what}: dist-info folder {di} in {path.name}")
    content = {k: v for k, v in members.items() if not k.startswith(di + "/")}
    if content != proj.files:
        missing, extra = sorted(set(proj.files) - set(content)), sorted(set(content) - set(proj.files))
        say("wheel-files", f"{what}: missing {missing[:4]}, not of the packages {extra[:4]}, altered {[k for k in content if k in proj.files and content[k] != proj.files[k]][:4]}")
    lost = [k for k in proj.exec & set(modes) if not modes[k] & 0o100]
    if lost:
        say("wheel-modes", f"{what}: no longer executable: {lost}")
    rows = [x for x in csv.reader(io.StringIO(members.get(f"{di}/RECORD", b"").decode("utf-8"))) if x]
    listed = {}
    for x in rows:
        if len(x) != 3 or x[0] in listed:
            say("wheel-record", f"{what}: bad or repeated row {x}")
        listed[x[0]] = x
    if set(listed) != set(members):
        say("wheel-record", f"{what}: RECORD lacks {sorted(set(members) - set(listed))[:4]}, lists absent {sorted(set(listed) - set(members))[:4]}")
    for k, x in listed.items():
        if k in members and k != f"{di}/RECORD":
            algo, _, dig = x[1].partition("=")
            if algo != "sha256" or b64(hashlib.sha256(members[k]).digest()) != dig or x[2] != str(len(members[k])):
                say("wheel-record", f"{what}: {x} does not describe the file ({len(members[k])} bytes)")
    wheel = email.parser.Parser().parsestr(members.get(f"{di}/WHEEL", b"").decode())
    if wheel["Wheel-Version"] != "1.0" or wheel["Root-Is-Purelib"] != "true" or {str(t) for t in tags} != {str(t) for x in wheel.get_all("Tag") or [] for t in __import__("packaging.tags", fromlist=["x"]).parse_tag(x)}:
        say("wheel-wheel", f"{what}: WHEEL says {wheel.items()}, the file name {path.name}")
    judge_metadata(say, proj, members.get(f"{di}/METADATA", b""), what)
    points = read_points(members.get(f"{di}/entry_points.txt", b""))
    if points != proj.points():
        say("wheel-entry-points", f"{what}: entry points {points}, the project declares {proj.points()}")
    if proj.license is not None and not any(k.startswith(f"{di}/") and v.decode("utf-8", "replace").strip() == proj.license.strip() for k, v in members.items()):
        say("wheel-license", f"{what}: the license text is in none of {[k for k in members if k.startswith(di)]}")
    return members, di


def judge_sdist(say, proj, path, where):
    p = proj.project
    name, version = parse_sdist_filename(path.name)
    if (name, version) != (canonicalize_name(p["name"]), PV(p["version"])):
        say("sdist-name", f"the file name {path.name} stands for {name} {version}")
    with tarfile.open(path) as t:
        names = [m.name for m in t.getmembers() if m.isfile()]
        tops = {n.split("/")[0] for n in names}
        if tops != {path.name[:-len(".tar.gz")]}:
            say("sdist-top", f"{path.name} holds {tops}")
        t.extractall(where, filter="data")
    top = where / path.name[:-len(".tar.gz")]
    files = {n.split("/", 1)[1]: (where / n).read_bytes() for n in names}
    if "PKG-INFO" not in files or "pyproject.toml" not in files:
        say("sdist-files", f"no PKG-INFO or no pyproject.toml in {sorted(files)[:8]}")
        return top
    judge_metadata(say, proj, files["PKG-INFO"], "PKG-INFO")
    data, was = tomllib.loads(files["pyproject.toml"].decode("utf-8")), tomllib.loads((proj.root / "pyproject.toml").read_text(encoding="utf-8"))
    if data.get("build-system") != was["build-system"] or data.get("tool", {}).get("other") != was.get("tool", {}).get("other"):
        say("sdist-pyproject", f"build system or tools of the sdist differ: {data}")
    for k, body in proj.files.items():
        if not any(n == k or n.endswith("/" + k) for n in files if files[n] == body):
            say("sdist-files", f"the package file {k} is not in the source distribution: {sorted(files)[:12]}")
            break
    allowed = {"PKG-INFO", "pyproject.toml", *proj.side}
    odd = [n for n in files if n not in allowed and not any(n == k or n.endswith("/" + k) for k in proj.files)]
    if odd:
        say("sdist-files", f"the source distribution holds files that are not of the project's packages: {odd[:4]}")
    return top


HOOKS = """
import importlib, json, os, sys
b = importlib.import_module("pkm.api.buildsys")
out = sys.argv[1]
r = {}
for n, f in (("wheel", lambda d: b.build_wheel(d)), ("sdist", lambda d: b.build_sdist(d)), ("meta", lambda d: b.prepare_metadata_for_build_wheel(d)), ("editable", lambda d: b.build_editable(d))):
    d = os.path.join(out, n); os.makedirs(d)
    r[n] = [b.get_requires_for_build_wheel(), f(d)]
open(os.path.join(out, "result.json"), "w").write(json.dumps(r))
"""


def run(ctx):
    from pkm.api.environments.environment import Environment
    from pkm.api.packages.package import PackageDescriptor
    from pkm.api.distributions.wheel_distribution import WheelDistribution
    from pkm.api.projects.project import Project
    from pkm.api.versions.version import Version
    warnings.simplefilter("ignore")
    ctx.rule = ("wheel = package files of the project + dist-info; RECORD true for every member; metadata and entry points equal the configuration field by field (readers: email, configparser, packaging); "
                "wheel(sdist(project)) = wheel(project) outside RECORD; sources untouched; pip and pkm install it and what was declared works")
    ctx.required_events = ["wheels", "sdists", "wheels from sdists", "metadata only", "editable", "hooks", "installed by pip", "installed by pkm", "scripts run", "builds refused"]
    env = make_env(ctx)
    Environment.current = classmethod(lambda cls: env)      # the interpreter of this check, which must stay as it is
    root = Path(env.path)
    base = snapshot(root)
    work = Path(ctx.scratch) / "work"
    py = str(root / "bin" / "python")
    more = ctx.budget(24, 450)
    i = 0
    while more() and sum(ctx._vkeys.values()) < 12:
        r = ctx.sub_rng("project", i)
        i += 1
        proj = Proj(r, work / f"p{i}" / "prj")
        proj.root.mkdir(parents=True)
        proj.write()
        conf = (proj.root / "pyproject.toml").read_text(encoding="utf-8")
        src = {k: v for k, v in snapshot(proj.root).items() if not k.startswith("etc")}

        def say(key, msg):
            ctx.violation(key, msg, pyproject=conf, files=sorted(proj.files)[:30], layout=proj.layout)

        def unchanged(step):
            d = tree_diff(src, {k: v for k, v in snapshot(proj.root).items() if not k.startswith("etc")})
            if d:
                say("sources-changed", f"{step} changed the project: {d}")

        out = work / f"p{i}" / "out"
        os.chdir(r.choice([work, proj.root, "/"]))
        refused = False
        if r.random() < .08:                                # a listed package that does not exist
            refused = True
            victim = proj.root / proj.packages[0]
            if proj.layout == "src":
                refused = False
            else:
                victim.rename(victim.with_name("moved_away"))
                how, e = outcome(lambda: Project.load(proj.root).build_wheel(out))
                how2, e2 = outcome(lambda: Project.load(proj.root).build_sdist(out))
                ctx.event("builds refused")
                ctx.check(how != "ok" and how2 != "ok" and not list(out.glob("*")), "missing-package", f"a project without its listed package {proj.packages[0]} was built: {e} {e2}", pyproject=conf)
                victim.with_name("moved_away").rename(victim)
        made = {}
        for kind, build in (("wheel", lambda: Project.load(proj.root).build_wheel(out)), ("sdist", lambda: Project.load(proj.root).build_sdist(out))):
            how, made[kind] = outcome(build)
            ctx.evaluated((kind, i), sample={"pyproject": conf[:400], "layout": proj.layout} if i % 20 == 1 else None)
            if how != "ok":
                say(f"{kind}-crash", f"building: {short_tb(made[kind])}")
                made[kind] = None
        unchanged("building")
        if not made["wheel"]:
            continue
        ctx.event("wheels")
        members, di = judge_wheel(say, proj, made["wheel"], "wheel")
        if made["sdist"]:
            ctx.event("sdists")
            top = judge_sdist(say, proj, made["sdist"], work / f"p{i}" / "sd")
            how, again = outcome(lambda: Project.load(top).build_wheel(work / f"p{i}" / "out2"))
            if how != "ok":
                say("sdist-build", f"building a wheel from the source distribution: {short_tb(again)}")
            else:
                ctx.event("wheels from sdists")
                with zipfile.ZipFile(again) as z:
                    m2 = {n: z.read(n) for n in z.namelist() if not n.endswith("/")}
                bad = sorted(k for k in set(members) | set(m2) if members.get(k) != m2.get(k) and not k.endswith(".dist-info/RECORD"))
                if bad or again.name != made["wheel"].name:
                    say("sdist-wheel", f"the wheel built from the source distribution ({again.name}) differs in {bad[:5]}: {str(m2.get(bad[0]) if bad else '')[:300]} / {str(members.get(bad[0]) if bad else '')[:300]}")
        x = r.random()
        if x < .5:
            how, meta = outcome(lambda: Project.load(proj.root).build_wheel(work / f"p{i}" / "meta", only_meta=True))
            ctx.event("metadata only")
            if how != "ok":
                say("meta-crash", f"building the metadata only: {short_tb(meta)}")
            elif di:
                got = {f"{meta.name}/{f.name}": f.read_bytes() for f in meta.iterdir()}
                want = {k: v for k, v in members.items() if k.startswith(di + "/") and not k.endswith("/RECORD")}
                if {k: v for k, v in got.items() if not k.endswith("/RECORD")} != want:
                    say("meta", f"metadata built alone {sorted(got)} differs from the wheel's {sorted(want)}")
        if i % 4 == 2:
            hooks = work / f"p{i}" / "hooks"
            hooks.mkdir()
            q = subprocess.run([sys.executable, "-c", HOOKS, str(hooks)], cwd=proj.root, capture_output=True, text=True)
            ctx.event("hooks")
            if q.returncode:
                say("hooks-crash", f"the build backend hooks fail: {q.stderr[-600:]}")
            else:
                res = json.loads((hooks / "result.json").read_text())
                m3, _ = judge_wheel(say, proj, hooks / "wheel" / res["wheel"][1], "wheel of the hook")
                with tarfile.open(hooks / "sdist" / res["sdist"][1]) as t1, tarfile.open(made["sdist"]) as t2:
                    if sorted(t1.getnames()) != sorted(t2.getnames()):
                        say("hooks", f"the hook's source distribution holds other files: {sorted(set(t1.getnames()) ^ set(t2.getnames()))[:5]}")
                if not (hooks / "meta" / res["meta"][1] / "METADATA").exists() or (hooks / "meta" / res["meta"][1] / "METADATA").read_bytes() != members.get(f"{di}/METADATA"):
                    say("hooks", f"metadata of the hook differs: {res}")
            unchanged("the hooks")
        # install
        if SpecifierSet(proj.project.get("requires-python", "")).contains(".".join(map(str, sys.version_info[:3]))):
            how_to = ["pkm", "editable", "pip"][i % 3]
            reset_tree(root, base)
            e = Environment(root)
            desc = PackageDescriptor(proj.project["name"], Version.parse(proj.project["version"]))
            if how_to == "pip":
                q = subprocess.run([sys.executable, "-m", "pip", "--disable-pip-version-check", "--python", py, "install", "--no-index", "--no-deps", "--no-compile", "-q", str(made["wheel"])], capture_output=True, text=True)
                ctx.event("installed by pip")
                if q.returncode:
                    say("pip", f"pip refuses the wheel: {q.stderr[-500:]}")
                    continue
            else:
                wheel = made["wheel"]
                if how_to == "editable":
                    how, wheel = outcome(lambda: Project.load(proj.root).build_wheel(work / f"p{i}" / "edit", editable=True))
                    ctx.event("editable")
                    if how != "ok":
                        say("editable-crash", f"building an editable wheel: {short_tb(wheel)}")
                        continue
                how, res = outcome(lambda: WheelDistribution(desc, wheel).install_to(e.installation_target))
                ctx.event("installed by pkm")
                if how != "ok":
                    say("install", f"installing the {how_to} wheel {wheel.name}: {short_tb(res)}")
                    continue
            code = ("import importlib, importlib.metadata as im, json, sys\nd = im.distribution(sys.argv[1])\n"
                    "print(json.dumps([d.version, {n: [importlib.import_module(n).TOKEN, importlib.import_module(n).__file__] for n in sys.argv[2:]}, sorted([p.group, p.name, p.value] for p in d.entry_points)]))")
            q = subprocess.run([py, "-B", "-X", "utf8", "-c", code, proj.project["name"], *proj.top], cwd=work, capture_output=True, text=True)
            if q.returncode:
                say("import", f"after installing ({how_to}): {q.stderr[-400:]}")
                continue
            version, mods, points = json.loads(q.stdout)
            want = sorted([g, n, v] for g, vs in proj.points().items() for n, v in vs.items())
            if PV(version) != PV(proj.project["version"]) or {k: v[0] for k, v in mods.items()} != {n: n for n in proj.top} or [[a, b, c.replace(" ", "")] for a, b, c in points] != want:
                say("import", f"after installing ({how_to}): {version} {mods} {points}, expected {want}")
            if how_to == "editable" and any(os.path.realpath(v[1]) != os.path.realpath(proj.root / (proj.bases[k] + k) / "__init__.py") for k, v in mods.items()):
                say("editable", f"the editable install does not lead to the project: {mods}")
            for s, ref in {**proj.project.get("scripts", {}), **proj.project.get("gui-scripts", {})}.items():
                q = subprocess.run([str(root / "bin" / s)], cwd=work, capture_output=True, text=True, env={**os.environ, "PYTHONUTF8": "1", "PYTHONDONTWRITEBYTECODE": "1"}) if (root / "bin" / s).exists() else None
                ctx.event("scripts run")
                if q is None or q.returncode or not q.stdout.startswith(proj.top[0]):
                    say("script", f"script {s} = {ref} installed by {how_to}: {q and q.stderr[-300:]}")
            unchanged(f"installing ({how_to})")
        os.chdir(work)
        import shutil
        shutil.rmtree(work / f"p{i}", ignore_errors=True)
