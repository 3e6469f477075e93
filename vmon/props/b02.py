"""B02: source distributions (and source projects) with generated PEP 517 backends; what the backends saw and what got installed against a model."""
import base64
import contextlib
import io
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tarfile
import tempfile
import time
import threading
import zipfile

from vmon.core import OutOfTime, short_tb
from vmon.world import dist_dir, make_env, metadata_text, wheel_files, write_wheel

# the generic backend: everything it does is told by the spec.json of the source tree, which it finds relative to its working directory
BACKEND = r'''
import base64, hashlib, importlib, json, os, sys, types, zipfile
from importlib import metadata as md


def _spec():
    with open("spec.json", encoding="utf-8") as f:
        return json.load(f)


def _begin(hook, args):
    spec = _spec()
    site = [p for p in sys.path if p.startswith(sys.prefix + os.sep)]
    seen = {d.metadata["Name"]: d.version for d in md.distributions(path=site)}
    line = json.dumps({"who": spec["id"], "hook": hook, "args": [str(a) for a in args], "cwd": os.getcwd(), "prefix": sys.prefix, "path": sys.path, "seen": seen, "via": VIA}) + "\n"
    fd = os.open(spec["log"], os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
    os.write(fd, line.encode())
    os.close(fd)
    if spec["noise"]:
        for i in range(spec["noise"]):
            print("noise on stdout %d \u00e9\u4e2d" % i if sys.stdout.encoding.lower().startswith("utf") else "noise", flush=i % 50 == 0)
            if i % 40 == 0:
                os.write(2, b"\xff\xfe not utf-8 \x80\n")
                os.write(1, b"caf\xe9 \r progress\n")
    how = spec["fail"].get(hook)
    if how == "raise":
        raise ValueError("the backend refuses")
    if how == "exit":
        sys.exit(3)
    if how == "base":
        raise BaseException("the backend refuses")
    if how and how.startswith("flag:") and os.path.exists(how[5:]):
        raise RuntimeError("not now")
    return spec


def _requires(hook):
    def it(config_settings=None):
        return _begin(hook, ())["dynamic"]
    return it


def _info(spec):
    d = spec["dist"] + ".dist-info/"
    out = {d + "METADATA": spec["metadata"].encode(), d + "WHEEL": b"Wheel-Version: 1.0\nGenerator: vmon\nRoot-Is-Purelib: true\nTag: py3-none-any\n"}
    if spec["entry_points"]:
        out[d + "entry_points.txt"] = spec["entry_points"].encode()
    return out


def prepare_metadata_for_build_wheel(metadata_directory, config_settings=None):
    spec = _begin("prepare_metadata_for_build_wheel", (metadata_directory, config_settings))
    for k, v in _info(spec).items():
        p = os.path.join(metadata_directory, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(v)
    return spec["dist"] + ".dist-info"


def _wheel(hook, directory, members, spec):
    built = {"token": spec["token"], "needs": {m: importlib.import_module(m).TOKEN for m in spec["imports"]}}
    members[spec["module"] + "/built.json"] = json.dumps(built, sort_keys=True).encode()
    members.update(_info(spec))
    rec = spec["dist"] + ".dist-info/RECORD"
    rows = ["%s,sha256=%s,%d\n" % (k, base64.urlsafe_b64encode(hashlib.sha256(v).digest()).rstrip(b"=").decode(), len(v)) for k, v in members.items()]
    members[rec] = ("".join(rows) + rec + ",,\n").encode()
    name = spec["dist"] + "-py3-none-any.whl"
    os.makedirs("build_leftovers", exist_ok=True)
    with zipfile.ZipFile(os.path.join(directory, name), "w") as z:
        for k, v in members.items():
            z.writestr(k, v)
    return name


def build_wheel(wheel_directory, config_settings=None, metadata_directory=None):
    spec = _begin("build_wheel", (wheel_directory, config_settings, metadata_directory))
    members = {}
    for base, dirs, files in os.walk("src"):
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as fd:
                members[os.path.relpath(p, "src").replace(os.sep, "/")] = fd.read()
    return _wheel("build_wheel", wheel_directory, members, spec)


def build_editable(wheel_directory, config_settings=None, metadata_directory=None):
    spec = _begin("build_editable", (wheel_directory, config_settings, metadata_directory))
    return _wheel("build_editable", wheel_directory, {spec["module"] + "_link.pth": os.path.abspath("src").encode()}, spec)


def build_sdist(sdist_directory, config_settings=None):
    import tarfile
    spec = _begin("build_sdist", (sdist_directory, config_settings))
    name = spec["dist"] + ".tar.gz"
    with tarfile.open(os.path.join(sdist_directory, name), "w:gz") as t:
        for f in spec["sources"]:
            t.add(f, spec["dist"] + "/" + f)
    return name


get_requires_for_build_wheel = _requires("get_requires_for_build_wheel")
get_requires_for_build_sdist = _requires("get_requires_for_build_sdist")
get_requires_for_build_editable = _requires("get_requires_for_build_editable")
'''
ALL = ["get_requires_for_build_wheel", "get_requires_for_build_sdist", "get_requires_for_build_editable", "prepare_metadata_for_build_wheel", "build_wheel", "build_sdist", "build_editable"]


def backend_source(hooks, place, via):
    """the backend offering `hooks` at `place` ('' = the module itself, or a dotted object path)"""
    out = f"VIA = {via!r}\n" + BACKEND
    if not place:
        return out + "".join(f"del {h}\n" for h in ALL if h not in hooks)
    out += f"_offered = types.SimpleNamespace(**{{h: globals()[h] for h in {sorted(hooks)!r}}})\n"
    parts = place.split(".")
    value = "_offered"
    for p in reversed(parts[1:]):
        value = f"types.SimpleNamespace({p}={value})"
    return out + f"{parts[0]} = {value}\n" + "".join(f"del {h}\n" for h in ALL)


class Dist:
    """one distribution: a version of a package, as a wheel or as a source distribution"""

    def __init__(self, name, version, kind):
        self.name, self.version, self.kind = name, version, kind
        self.deps, self.static, self.dynamic, self.fail, self.hooks = [], [], [], {}, set(ALL)
        self.style, self.noise, self.token, self.files, self.entry_points = "root", 0, "", {}, ""
        self.module = "m_" + name.lower().replace("-", "_").replace(".", "_")
        self.file = None

    id = property(lambda self: f"{self.name} {self.version} {self.token}")
    dist = property(lambda self: dist_dir(self.name, self.version))
    key = property(lambda self: self.name.lower().replace("_", "-").replace(".", "-"))

    def metadata(self):
        return metadata_text(self.name, self.version, [d for d, _ in self.deps], more=f"Summary: {self.token}\n")

    def payload(self):
        return {f"{self.module}/__init__.py": f"TOKEN = {self.token!r}\n".encode(), **self.files}

    def spec(self, log):
        return {"id": self.id, "log": str(log), "noise": self.noise, "fail": self.fail, "dynamic": [d for d, _ in self.dynamic], "dist": self.dist, "metadata": self.metadata(),
                "entry_points": self.entry_points, "token": self.token, "module": self.module, "imports": [p.module for _, p in self.static + self.dynamic if p.key not in ("setuptools", "vmon-backend")]}

    def tree(self, log):
        """{path: bytes} of the source tree"""
        out = {"src/" + k: v for k, v in self.payload().items()}
        requires = [d for d, _ in self.static]
        be, path = None, None
        place = {"object": "api", "nested": "hooks.pep517.api"}.get(self.style, "")
        if self.style in ("root", "object"):
            be, path, where = "local_backend", ["."], "local_backend.py"
        elif self.style == "folder":
            be, path, where = "local_backend", ["_empty", "_build"], "_build/local_backend.py"
            out["_empty/README"] = b"nothing"
        elif self.style in ("dotted", "nested"):
            be, path, where = "tools.backend.main", ["build tools"], "build tools/tools/backend/main.py"
            out["build tools/tools/__init__.py"] = out["build tools/tools/backend/__init__.py"] = b""
        if path:
            out[where] = backend_source(self.hooks, place, self.id).encode()
        toml = ""
        if path:
            toml = f"[build-system]\nrequires = {json.dumps(requires)}\nbuild-backend = {json.dumps(be + (':' + place if place else ''))}\nbackend-path = {json.dumps(path)}\n"
        elif self.style == "external":
            toml = f"[build-system]\nrequires = {json.dumps(requires)}\nbuild-backend = \"vmon_backend.api\"\n"
        elif self.style == "external-object":
            toml = f"[build-system]\nrequires = {json.dumps(requires)}\nbuild-backend = \"vmon_backend.api:offer.it\"\n"
        elif self.style == "legacy-toml":
            toml = "[tool.black]\nline-length = 100\n"
        elif self.style == "default-backend":
            toml = f"[build-system]\nrequires = {json.dumps(requires)}\n"
        if toml and self.project:
            toml += self.project
        if toml:
            out["pyproject.toml"] = toml.encode()
        else:
            out["setup.py"] = b"raise SystemExit('the setup script is the business of the backend')\n"
        out["PKG-INFO"] = self.metadata().encode()
        spec = self.spec(log)
        spec["sources"] = sorted({p.split("/")[0] for p in out} | {"spec.json"})
        out["spec.json"] = json.dumps(spec).encode()
        return out

    project = ""

    def write(self, folder, log, r, top=None, ext=".tar.gz"):
        folder = pathlib.Path(folder)
        if self.kind == "wheel":
            self.file = write_wheel(folder, self.name, self.version, wheel_files(self.name, self.version, self.payload(), [d for d, _ in self.deps], more_meta=f"Summary: {self.token}\n"))
            return self.file
        top = top or (self.dist if r.random() < .6 else f"{self.name}-{self.version}")
        self.file = folder / (top + ext)
        tree = self.tree(log)
        if ext == ".zip":
            with zipfile.ZipFile(self.file, "w") as z:
                for k, v in tree.items():
                    z.writestr(f"{top}/{k}", v)
            return self.file
        with tarfile.open(self.file, "w:bz2" if ext == ".tar.bz2" else "w:gz", format=r.choice([tarfile.PAX_FORMAT, tarfile.GNU_FORMAT])) as t:
            if r.random() < .5:
                d = tarfile.TarInfo(top)
                d.type, d.mode = tarfile.DIRTYPE, 0o755
                t.addfile(d)
            for k in r.sample(sorted(tree), len(tree)):
                i = tarfile.TarInfo(f"{top}/{k}")
                i.size, i.mode = len(tree[k]), 0o644
                t.addfile(i, io.BytesIO(tree[k]))
        return self.file

    def installed(self):
        """{path in site-packages: bytes} expected of an installation"""
        out = dict(self.payload())
        if self.kind == "sdist":
            needs = {p.module: p.token for _, p in self.static + self.dynamic if p.key not in ("setuptools", "vmon-backend")}
            out[f"{self.module}/built.json"] = json.dumps({"token": self.token, "needs": needs}, sort_keys=True).encode()
        out[f"{self.dist}.dist-info/METADATA"] = self.metadata().encode()
        if self.entry_points:
            out[f"{self.dist}.dist-info/entry_points.txt"] = self.entry_points.encode()
        return out


def closure(roots):
    out, todo = {}, list(roots)
    while todo:
        p = todo.pop()
        if p.key not in out:
            out[p.key] = p
            todo += [q for _, q in p.deps]
    return out


def requirements(p):
    return [q for _, q in p.static + p.dynamic]


def metadata_ok(p):
    """can the metadata of the source distribution be computed"""
    if p.kind == "wheel":
        return True
    if any(h in p.fail for h in ("get_requires_for_build_wheel",)) or not all(installable(q) for q in requirements(p)):
        return False
    h = "prepare_metadata_for_build_wheel"
    return h not in p.fail if h in p.hooks else wheel_ok(p)


def wheel_ok(p):
    return p.kind == "wheel" or ("get_requires_for_build_wheel" not in p.fail and "build_wheel" not in p.fail and "build_wheel" in p.hooks and all(installable(q) for q in requirements(p)))


def installable(p):
    return all(metadata_ok(q) and wheel_ok(q) for q in closure([p]).values())


def read_log(log):
    try:
        return [json.loads(x) for x in log.read_text().splitlines()]
    except FileNotFoundError:
        return []


def site_files(site, base=()):
    out = {}
    for root, dirs, files in os.walk(site):
        dirs[:] = [d for d in dirs if d != "__pycache__"]
        for f in files:
            p = os.path.join(root, f)
            rel = os.path.relpath(p, site)
            if rel in base or (".dist-info" in rel and os.path.basename(rel) not in ("METADATA", "entry_points.txt")):
                continue
            with open(p, "rb") as fd:
                out[rel] = fd.read()
    return out


def differences(want, got):
    return [f"{k}: expected {want.get(k, b'nothing')[:120]!r}, found {got.get(k, b'nothing')[:120]!r}" for k in sorted(set(want) | set(got)) if want.get(k) != got.get(k)][:4]


STYLES = ["root", "object", "folder", "dotted", "nested", "external", "external-object", "legacy", "legacy-toml", "default-backend"]


class World:
    def __init__(self, r, k, log, folder, backends):
        self.r, self.k, self.log, self.dists = r, k, log, []
        n = r.randint(3, 6)
        for i in range(n):
            name = f"{r.choice(['Pkg', 'lib', 'tool.kit', 'some-thing', 'under_score', 'X'])}{r.choice(['', '-', '_', '.'])}w{k}n{i}"
            p = Dist(name, r.choice(["1.0", "0.3.1", "2.0.post1", "1.0rc1", "3.0.dev4", "1!2.0"]) if r.random() < .8 else "1.0+local.1", "wheel" if r.random() < .2 and i < n - 1 else "sdist")
            p.token = f"t{r.randrange(10**9)}"
            for _ in range(r.randint(0, 3)):
                p.files[f"{p.module}/" + r.choice(["data.bin", "sub/deep/mod.py", "sub/__init__.py", "r\u00e9sum\u00e9.txt", "with space.txt"])] = r.randbytes(r.randint(0, 300))
            if p.files.get(f"{p.module}/sub/__init__.py"):
                p.files[f"{p.module}/sub/__init__.py"] = b"x = 1\n"
            if r.random() < .3 and p.kind == "sdist":
                p.entry_points = f"[vmon.group]\nit = {p.module}:TOKEN\n"
            before = list(self.dists)
            p.deps = [(self.spell(q), q) for q in r.sample(before, min(len(before), r.choice([0, 0, 1, 1, 2])))]
            if p.kind == "sdist":
                self.make_source(p, before, backends)
            self.dists.append(p)
        self.folder = folder
        for p in self.dists:
            p.write(folder, log, r)

    def spell(self, q):
        r = self.r
        name = r.choice([q.name, q.name, q.name.lower(), q.name.upper()])
        how = r.random()
        spec = "" if how < .4 else f"=={q.version}" if how < .7 else f">={q.version.split('+')[0]}"
        return name + r.choice(["", " "]) + spec

    def make_source(self, p, before, backends):
        r = self.r
        p.style = r.choice(STYLES)
        free = [q for q in before if all(q is not d for _, d in p.deps)] if r.random() < .5 else before
        static = r.sample(free, min(len(free), r.choice([0, 0, 1, 2])))
        p.static = [(self.spell(q), q) for q in static]
        if p.style.startswith("external"):
            q = r.choice(backends["vmon-backend"])
            p.static.append((f"vmon.Backend=={q.version}", q))
        elif p.style == "default-backend":
            q = backends["setuptools"][0]
            p.static.append(("setuptools>=40", q))
        elif p.style.startswith("legacy"):
            p.static = [(q.name, q) for q in backends["legacy"]]
        if p.style in STYLES[:5]:
            p.hooks = {h for h in ALL if h == "build_wheel" or r.random() < .6}
        if "get_requires_for_build_wheel" in p.hooks:
            rest = [q for q in before if all(q.key != s.key for _, s in p.static)]
            # a requirement that is found out by the backend must not ask for a different content of what is there
            p.dynamic = [(self.spell(q), q) for q in r.sample(rest, min(len(rest), r.choice([0, 1, 1])))]
        p.noise = r.choice([0, 0, 3, 3000])
        if r.random() < .12:
            p.fail = {r.choice(["get_requires_for_build_wheel", "prepare_metadata_for_build_wheel", "build_wheel"]): r.choice(["raise", "exit", "base"])}
            p.fail = {h: v for h, v in p.fail.items() if h in p.hooks}
        if r.random() < .5 and p.style not in ("legacy", "legacy-toml"):
            how = r.choice(["static", "dynamic version", "dynamic all"])
            deps = json.dumps([d for d, _ in p.deps])
            if how == "static":
                p.project = f"\n[project]\nname = {json.dumps(p.name)}\nversion = {json.dumps(p.version)}\ndependencies = {deps}\n"
            elif how == "dynamic version":
                p.project = f"\n[project]\nname = {json.dumps(p.name)}\ndynamic = [\"version\"]\ndependencies = {deps}\n"
            else:
                p.project = f"\n[project]\nname = {json.dumps(p.name)}\ndynamic = [\"version\", \"dependencies\", \"readme\"]\n"

    def shown(self, p=None):
        return [f"{q.name} {q.version} {q.kind} {q.style} deps {[d for d, _ in q.deps]} static {[d for d, _ in q.static]} dynamic {[d for d, _ in q.dynamic]} hooks-missing {sorted(set(ALL) - q.hooks)} fail {q.fail} project {q.project!r}" for q in self.dists]


def make_backends(folder, log):
    """backends that are packages by themselves: two versions of one, and what a source tree without a declaration is built with"""
    out = {"vmon-backend": [], "setuptools": [], "legacy": []}
    for v in ("1.0", "2.0"):
        p = Dist("vmon.backend", v, "wheel")
        p.token = f"be{v}"
        body = backend_source(set(ALL), "", f"vmon.backend {v}") + "offer = types.SimpleNamespace(it=sys.modules[__name__])\n"
        p.payload = lambda body=body: {"vmon_backend/__init__.py": b"", "vmon_backend/api.py": body.encode()}
        p.write(folder, log, None)
        out["vmon-backend"].append(p)
    p = Dist("setuptools", "68.0", "wheel")
    body = backend_source(set(ALL), "", "setuptools") + "__legacy__ = sys.modules[__name__]\n"
    p.payload = lambda: {"setuptools/__init__.py": b"", "setuptools/build_meta.py": body.encode()}
    p.write(folder, log, None)
    out["setuptools"].append(p)
    out["legacy"].append(p)
    for n in ("wheel", "pip"):
        q = Dist(n, "1.0", "wheel")
        q.payload = lambda q=q: {f"{q.name}/__init__.py": b""}
        q.module = q.name
        q.write(folder, log, None)
    return out


def judge_log(say, ctx, events, dists, env_root):
    """what the backends saw"""
    by_id = {p.id: p for p in dists}
    count = {}
    for e in events:
        p = by_id.get(e["who"])
        if p is None:
            say("ran", f"a backend of another source tree was called: {e['who']}")
            continue
        ctx.event("hook calls")
        ctx.event(f"hook {e['hook']}")
        count[(p.id, e["hook"])] = count.get((p.id, e["hook"]), 0) + 1
        via = p.id if p.style in STYLES[:5] else next((f"vmon.backend {q.version}" for _, q in p.static if q.key == "vmon-backend"), "setuptools")
        if e["via"] != via:
            say("backend", f"{p.id} ({p.style}) was built by {e['via']}, it declares {via}")
        if e["prefix"].startswith(str(env_root)) or e["prefix"] in (sys.prefix, sys.base_prefix):
            say("isolated", f"{p.id}: {e['hook']} ran in {e['prefix']}")
        inside = [x for x in e["path"] if x.startswith(str(env_root) + os.sep)]
        if inside:
            say("isolated", f"{p.id}: {e['hook']} could import from the environment that is installed to: {inside}")
        need = closure([q for _, q in p.static] + ([q for _, q in p.dynamic] if not e["hook"].startswith("get_requires") else []))
        if p.style.startswith("legacy"):
            seen = {k: v for k, v in e["seen"].items() if k not in ("wheel", "pip")}
        else:
            seen = e["seen"]
        want, got = {q.name.lower(): q.version for q in need.values()}, {k.lower(): v for k, v in seen.items()}
        if want != got:
            say("requirements", f"{p.id}: {e['hook']} ran with {got}, its build requirements are {want}")
        if [a for a in e["args"][1:] if a != "None"]:
            say("arguments", f"{p.id}: {e['hook']}{tuple(e['args'])}")
    return count


def attempt(env, names, ctx, seconds=120):
    """installs with a watchdog"""
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.pkm import pkm
    box = {}

    def go():
        try:
            env.install([Dependency.parse(n) for n in names], pkm.repositories.main)
            box["end"] = None
        except BaseException as e:
            box["end"] = e
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(seconds)
    if t.is_alive():
        ctx.violation("endless", f"installing {names} did not end within {seconds} s ({pkm.config.concurrency_mode})")
        raise OutOfTime()          # the pools of this process are of no further use
    return box["end"]


def leftovers():
    return set(os.listdir(tempfile.gettempdir()))


def run(ctx):
    import warnings
    warnings.simplefilter("ignore")
    from pkm.api.pkm import pkm
    ctx.rule = ("random worlds of source distributions with generated PEP 517 backends: what each hook call saw (environment, requirements, arguments, working directory) and what got installed equals the model; "
                "each distribution is built once, failures leave nothing behind, concurrent builds agree, cycles are reported")
    ctx.required_events = ["installed", "failures as expected", "hook build_wheel", "hook prepare_metadata_for_build_wheel", "hook get_requires_for_build_wheel", "metadata by wheel", "from the cache", "new content", "recovered",
                           "cycles reported", "same time", "many builds", "nested builds", "source projects", "sdists by backends", "editable by backends"]
    work = pathlib.Path(ctx.scratch) / "work"
    index, log = work / "index", work / "hooks.log"
    index.mkdir(parents=True)
    r0 = ctx.sub_rng("worlds")
    backends = make_backends(index, log)
    worlds = [World(ctx.sub_rng("world", k), k, log, index, backends) for k in range(ctx.pick(7, 60))]
    special = Special(ctx, log, index)
    home = pathlib.Path(pkm.home)
    (home / "etc/pkm").mkdir(parents=True, exist_ok=True)
    (home / "etc/pkm/repositories.toml").write_text(f"[repos.local]\ntype = \"file-system\"\npath = {json.dumps(str(index))}\n")
    # what runs the check does not count as an environment: its interpreter is not ours to write to
    from pkm.api.environments.environment import Environment
    here = make_env(ctx, "here")
    Environment.current = classmethod(lambda cls, *a, **k: here)
    pkm.config.concurrency_mode = "none"
    special.run()
    go_on = ctx.budget(20, 420)
    for w in worlds:
        if not go_on():
            break
        one_world(ctx, w, log, r0)


def one_world(ctx, w, log, r0):
    from pkm.api.pkm import pkm
    r = w.r
    pkm.config.concurrency_mode = r.choice(["none", "none", "thread"])
    env = make_env(ctx, f"env{w.k}")
    site = pathlib.Path(env.site_packages.purelib_path)
    base = set(site_files(site))
    order = r.sample(w.dists, len(w.dists))
    have = {}
    shown = w.shown()

    def say(key, msg):
        ctx.violation(key, msg, world=shown, asked=[p.name for p in order], mode=pkm.config.concurrency_mode)
    built = {}
    for p in order[:r.randint(2, 4)]:
        if log.exists():
            log.unlink()
        need = closure([p])
        ok = installable(p)
        tmp = leftovers()
        end = attempt(env, [p.name + f"=={p.version}"], ctx)
        new = sorted(leftovers() - tmp)
        if new:
            say("leftovers", f"temporary files left after installing {p.id}: {new[:4]}")
        count = judge_log(say, ctx, read_log(log), w.dists, env.path)
        ctx.evaluated(key=("world", w.k, p.name), sample=f"{p.id} {p.style}")
        ctx.distinct("styles", (p.style, tuple(sorted(set(ALL) - p.hooks)), bool(p.dynamic), bool(p.static), bool(p.fail)))
        if any(q.kind == "sdist" for x in need.values() for q in requirements(x)):
            ctx.event("nested builds")
        for (who, hook), n in count.items():
            built[(who, hook)] = built.get((who, hook), 0) + n
            q = next(x for x in w.dists if x.id == who)
            if hook in ("build_wheel", "prepare_metadata_for_build_wheel") and not q.fail and built[(who, hook)] > 1:
                say("once", f"{who}: {hook} ran {built[(who, hook)]} times for the same distribution")
        if not ok:
            if end is None:
                say("failed", f"{p.id} cannot be built, but its installation succeeded")
            else:
                ctx.event("failures as expected")
                if not isinstance(end, Exception):
                    say("error", f"installing {p.id} ended with {end!r}")
            if not all(metadata_ok(x) for x in need.values()):
                got = site_files(site, base)
                if bad := differences(expected(have), got):
                    say("failed-changes", f"{p.id} cannot be resolved, but the environment changed: {bad}")
            else:
                # some of what was asked may be there already; the environment is not looked at any further
                return
            continue
        if end is not None:
            say("install", f"installing {p.id}: {short_tb(end)}")
            return
        ctx.event("installed")
        have.update(need)
        for q in need.values():
            if q.kind == "sdist" and "prepare_metadata_for_build_wheel" not in q.hooks:
                ctx.event("metadata by wheel")
        if bad := differences(expected(have), site_files(site, base)):
            say("content", f"after installing {p.id}: {bad}")
            return
    # a second environment gets the same, and nothing is built again
    if have and r.random() < .7:
        log.unlink(missing_ok=True)
        other = make_env(ctx, f"again{w.k}")
        end = attempt(other, [p.name for p in have.values()], ctx)
        calls = [(e["who"], e["hook"]) for e in read_log(log)]
        bad = differences(expected(have), site_files(other.site_packages.purelib_path, base)) if end is None else [short_tb(end)]
        if bad:
            say("again", f"installing the same into another environment: {bad}")
        if calls:
            say("once", f"installing the same into another environment runs {calls[:5]}")
        ctx.event("from the cache")
        shutil.rmtree(other.path, ignore_errors=True)
    shutil.rmtree(env.path, ignore_errors=True)


def expected(have):
    out = {}
    for p in have.values():
        out.update(p.installed())
    return out


class Special:
    """fixed shapes, filled at random: cycles, changed contents, failures that pass, builds at the same time, many builds in a pool, source projects"""

    def __init__(self, ctx, log, index):
        self.ctx, self.log, self.index = ctx, log, index
        self.work = pathlib.Path(ctx.scratch) / "work"
        self.r = ctx.sub_rng("special")
        # cycles: of builds (never), of runtime dependencies (fine)
        size = self.r.randint(1, 3)
        ring = [self.source(f"ring{i}", where=False) for i in range(size)]
        for p, q in zip(ring, ring[1:] + ring[:1]):
            (p.static if self.r.random() < .6 or "get_requires_for_build_wheel" not in p.hooks else p.dynamic).append((q.name, q))
        self.ring_user = self.source("ring-user", deps=[ring[0]])
        self.circle = [self.source(f"circle{i}", where=False) for i in range(3)]
        for p, q in zip(self.circle, self.circle[1:] + self.circle[:1]):
            p.deps = [(q.name, q)]
        shared = self.source("shared-need")
        sides = [self.source(f"side{i}", static=[shared], where=False) for i in range(2)]
        sides[0].hooks, sides[1].hooks = set(ALL), set(ALL) - {"prepare_metadata_for_build_wheel"}
        found = self.source("found-by-backend")
        for p in sides:
            p.dynamic = [(found.name, found)]
            p.write(index, log, self.r)
        self.diamond_parts = [shared, found, *sides]
        self.diamond = self.source("diamond", static=sides, deps=[sides[0]])
        # a newer version that cannot be built makes room for an older one
        self.older = self.source("falls-back", "1.0")
        self.source("falls-back", "2.0", fail={self.r.choice(["get_requires_for_build_wheel", "prepare_metadata_for_build_wheel"]): "raise"}, hooks=set(ALL))
        self.fall_user = self.source("falls-user", deps=[self.older])
        for p in [*ring, *self.circle]:
            p.write(index, log, self.r)
        # more packages at the same time than the pool has workers, all with requirements that have to be built
        n = 5
        need = [self.source(f"need{i}") for i in range(2)]
        self.need = need[0]
        self.many_parts = [self.source(f"part{i}", static=self.r.sample(need, self.r.randint(1, 2)), style="root") for i in range(n)]
        self.many_user = self.source("many-user", deps=self.many_parts)

    def source(self, name, version="1.0", static=(), deps=(), style=None, where=None, **more):
        p = Dist(name, version, "sdist")
        p.token = f"t{self.r.randrange(10**9)}"
        p.style = style or self.r.choice(STYLES[:5])
        p.static, p.deps = [(q.name, q) for q in static], [(q.name, q) for q in deps]
        for k, v in more.items():
            setattr(p, k, v)
        if where is not False:
            p.write(where or self.index, self.log, self.r)
        return p

    def run(self):
        from pkm.api.pkm import pkm
        for f in (self.cycles, self.contents, self.recovery, self.same_time, self.many, self.projects):
            pkm.config.concurrency_mode = "none"
            f()

    def fresh(self, name):
        env = make_env(self.ctx, name)
        site = pathlib.Path(env.site_packages.purelib_path)
        return env, site, set(site_files(site))

    def installs(self, env, site, base, names, want, key, shown=None, mode="none"):
        from pkm.api.pkm import pkm
        pkm.config.concurrency_mode = mode
        end = attempt(env, names, self.ctx, 60)
        self.ctx.evaluated(key=(key, tuple(names), mode), sample=key)
        bad = differences(expected(want), site_files(site, base)) if end is None else [short_tb(end)]
        return self.ctx.check(not bad, key, f"installing {names} ({mode}): {bad}", shown=shown)

    def cycles(self):
        ctx = self.ctx
        env, site, base = self.fresh("cycles")
        for name in ("ring0", "ring-user") if not ctx.quick else (self.r.choice(["ring0", "ring-user"]),):
            end = attempt(env, [name], ctx, 60)
            if end is None or not isinstance(end, Exception):
                ctx.violation("cycle", f"installing {name}, that needs itself to be built: {end!r}")
            else:
                ctx.event("cycles reported")
            bad = differences({}, site_files(site, base))
            ctx.check(not bad, "cycle", f"the environment changed with {name}, that cannot be built: {bad}")
        for root in (self.circle[0], self.diamond):
            env, site, base = self.fresh("no-cycle-" + root.name)
            self.log.unlink(missing_ok=True)
            self.installs(env, site, base, [root.name], closure([root]), "no-cycle", root.name)
            judge_log(lambda key, msg: ctx.violation(key, msg), ctx, read_log(self.log), [*self.circle, self.diamond, *self.diamond_parts], env.path)
            ctx.event("nested builds")
        env, site, base = self.fresh("falls")
        self.installs(env, site, base, ["falls-user"], closure([self.fall_user]), "older")

    def contents(self):
        """the same name and version with another content; other kinds of archives"""
        from pkm.api.distributions.distribution import Distribution
        ctx, r = self.ctx, self.r
        last = None
        for i in range(ctx.pick(4, 12)):
            env, site, base = self.fresh(f"contents{i}")
            folder = self.work / f"c{i}"
            folder.mkdir()
            if last is not None and i % 4 == 3:
                p = last            # the same content again, under another file
                path = shutil.copy(p.file, folder / p.file.name)
            else:
                p = self.source("changing", "1.0", where=False)
                p.files[f"{p.module}/data.bin"] = r.randbytes(50)
                p.hooks = set(ALL) - ({"prepare_metadata_for_build_wheel"} if i == 0 else set())
                path = p.write(folder, self.log, r, ext=r.choice([".tar.gz", ".tar.gz", ".zip", ".tar.bz2"]) if i > 1 else ".tar.gz")
            how = r.choice(["install", "install", "metadata first"]) if i else "metadata first"
            try:
                package = Distribution.package_from(pathlib.Path(path))
                if how == "metadata first":
                    deps = package.dependencies(env.installation_target)
                    ctx.check([str(d) for d in deps] == [], "metadata", f"dependencies of {p.id}: {deps}")
                    if "prepare_metadata_for_build_wheel" not in p.hooks:
                        ctx.event("metadata by wheel")
                package.install_to(env.installation_target)
                bad = differences(p.installed(), site_files(site, base))
            except Exception as e:
                bad = [short_tb(e)]
            ctx.evaluated(key=("contents", i), sample=p.id)
            ctx.check(not bad, "new-content", f"installing {p.id} from {pathlib.Path(path).name} ({how}): {bad}", style=p.style, hooks=sorted(p.hooks))
            ctx.event("new content")
            last = p
            shutil.rmtree(env.path, ignore_errors=True)

    def recovery(self):
        """a failure of the backend leaves nothing behind that a later attempt would take for the distribution"""
        from pkm.api.distributions.distribution import Distribution
        ctx, r = self.ctx, self.r
        flag = self.work / "not-now"
        for i in range(ctx.pick(3, 10)):
            hook = ["build_wheel", "prepare_metadata_for_build_wheel", "get_requires_for_build_wheel"][i % 3]
            p = self.source(f"recovers{i}", where=False, fail={hook: f"flag:{flag}"})
            if i % 2 and hook == "build_wheel":
                p.hooks = set(ALL) - {"prepare_metadata_for_build_wheel"}
            folder = self.work / f"r{i}"
            folder.mkdir()
            path = p.write(folder, self.log, r)
            env, site, base = self.fresh(f"recovery{i}")
            flag.write_text("")
            ends = []
            for step in range(r.randint(1, 2)):
                try:
                    package = Distribution.package_from(path)
                    package.dependencies(env.installation_target)
                    package.install_to(env.installation_target)
                    ends.append("ok")
                except Exception as e:
                    ends.append(type(e).__name__)
                bad = differences({}, site_files(site, base))
                ctx.check(ends[-1] != "ok" and not bad, "failed", f"the backend of {p.id} fails at {hook}: {ends}, {bad}")
            flag.unlink()
            try:
                package = Distribution.package_from(path)
                package.dependencies(env.installation_target)
                package.install_to(env.installation_target)
                bad = differences(p.installed(), site_files(site, base))
            except Exception as e:
                bad = [short_tb(e)]
            ctx.evaluated(key=("recovery", i), sample=p.id)
            ctx.check(not bad, "recovery", f"{p.id} after a failure at {hook} ({ends}): {bad}", style=p.style)
            ctx.event("recovered")
            shutil.rmtree(env.path, ignore_errors=True)

    def same_time(self):
        """several installations of the same distribution at the same time, in threads and in processes, with nothing cached"""
        from pkm.api.distributions.distribution import Distribution
        from pkm.api.pkm import pkm
        ctx, r = self.ctx, self.r
        for i in range(ctx.pick(4, 24)):
            need = self.source(f"same-need{i}", where=False)
            p = self.source(f"same{i}", where=False, hooks=set(ALL) - ({"prepare_metadata_for_build_wheel"} if r.random() < .4 else set()))
            folder = self.work / f"s{i}"
            folder.mkdir()
            path = p.write(folder, self.log, r)
            n = 5
            envs = [self.fresh(f"same{i}-{j}") for j in range(n)]
            gate = threading.Barrier(n)
            processes = i % 4 == 3
            home = self.work / f"home{i}"
            homes = home, pathlib.Path(pkm.home)
            before = [cached(h) for h in homes]
            first = [r.random() < .5 for _ in range(n)]

            def one(j):
                env, site, base = envs[j]
                try:
                    gate.wait()
                    if processes:
                        done = subprocess.run([sys.executable, "-c", INSTALL, str(path), str(env.path), str(int(first[j]))], capture_output=True, text=True, timeout=120, cwd=self.work, env={**os.environ, "PKM_HOME": str(home)})
                        if done.returncode:
                            return [(done.stderr or done.stdout)[-600:]]
                    else:
                        package = Distribution.package_from(path)
                        if first[j]:
                            package.dependencies(env.installation_target)
                        package.install_to(env.installation_target)
                    return differences(p.installed(), site_files(site, base))
                except Exception as e:
                    return [short_tb(e)]
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(n) as pool, slow_files(pathlib.Path(pkm.home), ctx.sub_rng("slow", i)):
                bad = [b for b in pool.map(one, range(n)) if b]
            ctx.evaluated(key=("same", i), sample=p.id)
            ctx.event("same time", n)
            ctx.check(not bad, "same-time", f"{len(bad)} of {n} installations of {p.id} at the same time ({'processes' if processes else 'threads'}) failed: {bad[:2]}")
            # one complete wheel is kept, in the data directory that is in use
            after = [cached(h) - b for h, b in zip(homes, before)]
            ctx.check(bool(bad) or [len(x) for x in after] == ([1, 0] if processes else [0, 1]), "same-time-cache", f"wheels kept after building {p.id} ({'processes' if processes else 'threads'}): {after}")
            for env, _, _ in envs:
                shutil.rmtree(env.path, ignore_errors=True)

    def many(self):
        ctx = self.ctx
        from concurrent.futures import ThreadPoolExecutor
        from pkm.api.pkm import pkm
        pkm.threads = ThreadPoolExecutor(3)         # a machine with few processors
        env, site, base = self.fresh("many")
        self.installs(env, site, base, ["many-user"], closure([self.many_user]), "many", mode="thread")
        ctx.event("many builds", len(self.many_parts))

    def projects(self):
        """source trees that are built by pkm on behalf of another backend"""
        from pkm.api.pkm import pkm
        from pkm.api.packages.package_installation_info import StoreMode
        from pkm.api.projects.project import Project
        ctx, r = self.ctx, self.r
        need = self.need
        for i in range(ctx.pick(4, 16)):
            root = self.work / f"project{i}"
            p = self.source(f"proj{i}.x", where=False)
            p.static = [(need.name, need)] if r.random() < .7 else []
            p.deps = [(d.name, d) for d in r.sample(self.many_parts, 1)]
            p.hooks = set(ALL) - {h for h in ("prepare_metadata_for_build_wheel", "get_requires_for_build_wheel", "get_requires_for_build_sdist", "get_requires_for_build_editable") if r.random() < .5}
            dynamic = r.choice([["version"], ["dependencies"], ["version", "dependencies"], []])
            p.project = f"\n[project]\nname = {json.dumps(p.name)}\n" + (f"version = {json.dumps(p.version)}\n" if "version" not in dynamic else "") + f"dynamic = {json.dumps(dynamic)}\n" \
                + (f"dependencies = {json.dumps([d for d, _ in p.deps])}\n" if "dependencies" not in dynamic else "")
            if "version" in dynamic:
                continue_with = [x for x in dynamic if x != "version"]       # the version of a source tree has to be declared
                p.project = p.project.replace(json.dumps(dynamic), json.dumps(continue_with)).replace("\ndynamic", f"\nversion = {json.dumps(p.version)}\ndynamic")
            for k, v in p.tree(self.log).items():
                f = root / k
                f.parent.mkdir(parents=True, exist_ok=True)
                f.write_bytes(v)
            shown = dict(project=p.project, style=p.style, hooks=sorted(p.hooks), static=[d for d, _ in p.static])
            env, site, base = self.fresh(f"penv{i}")
            out = self.work / f"out{i}"
            self.log.unlink(missing_ok=True)

            def load():
                project = Project.load(root)
                project.attached_environment = env
                return project
            try:
                w = load().build_wheel(out, target_env=env)
                with zipfile.ZipFile(w) as z:
                    got = {n: z.read(n) for n in z.namelist() if ".dist-info" not in n or os.path.basename(n) in ("METADATA", "entry_points.txt")}
                bad = differences(p.installed(), got)
                ctx.check(w.parent == out and not bad, "project-wheel", f"the wheel {w} of the project {p.id}: {bad}", **shown)
                s = load().build_sdist(out)
                with tarfile.open(s) as t:
                    inner = {m.name.split("/", 1)[1]: t.extractfile(m).read() for m in t.getmembers() if m.isfile()}
                tree = p.tree(self.log)
                ctx.check(s.parent == out and {k: inner.get(k) for k in tree} == tree, "project-sdist", f"the sdist {s} of {p.id} misses {[k for k in tree if inner.get(k) != tree[k]][:5]}", **shown)
                ctx.event("sdists by backends")
                deps = sorted(str(d) for d in load().dependencies(env.installation_target))
                ctx.check([d.split()[0] for d in deps] == sorted(d for d, _ in p.deps), "project-metadata", f"dependencies of the project {p.id}: {deps}, declared {[d for d, _ in p.deps]}", **shown)
                judge_log(lambda key, msg: ctx.violation(key, msg, **shown), ctx, read_log(self.log), [p, need], env.path)
                mode = r.choice([StoreMode.COPY, StoreMode.EDITABLE])
                if mode == StoreMode.EDITABLE:
                    load().install_to(env.installation_target, store_mode=mode)
                    text = subprocess.run([env.interpreter_path, "-c", f"import {p.module} as m; print(m.TOKEN, m.__file__)"], capture_output=True, text=True, cwd="/").stdout.split()
                    ctx.check(text[:1] == [p.token] and text[1].startswith(str(root)), "project-editable", f"the editable installation of {p.id} gives {text}", **shown)
                    ctx.event("editable by backends")
                else:
                    load().install_to(env.installation_target, store_mode=mode)
                    bad = differences(p.installed(), site_files(site, base))
                    ctx.check(not bad, "project-install", f"installing the project {p.id}: {bad}", **shown)
            except Exception as e:
                ctx.violation("project", f"building the project {p.id}: {short_tb(e)}", **shown)
            ctx.evaluated(key=("project", i), sample=p.id)
            ctx.event("source projects")
            shutil.rmtree(env.path, ignore_errors=True)


@contextlib.contextmanager
def slow_files(home, r):
    """what happens to files of the data directory takes its time, so that others come in between"""
    rmtree, copyfile, lock = shutil.rmtree, shutil.copyfile, threading.Lock()

    def pause(p, most):
        if str(p).startswith(str(home)):
            with lock:
                t = r.random() * most
            time.sleep(t)
            return True

    def slow_rmtree(path, *a, **k):
        pause(path, 1.0)
        return rmtree(path, *a, **k)

    def slow_copy(src, dst, *a, **k):
        if str(dst).startswith(str(home)):
            data = pathlib.Path(src).read_bytes()
            with open(dst, "wb") as f:
                f.write(data[:len(data) // 2])
                f.flush()
                pause(dst, .6)
                f.write(data[len(data) // 2:])
            return dst
        return copyfile(src, dst, *a, **k)
    shutil.rmtree, shutil.copyfile = slow_rmtree, slow_copy
    try:
        yield
    finally:
        shutil.rmtree, shutil.copyfile = rmtree, copyfile


def cached(home):
    return {str(x.relative_to(home)) for x in home.rglob("*.whl")}


INSTALL = """
import sys, pathlib, warnings
warnings.simplefilter("ignore")
from pkm.api.environments.environment import Environment
from pkm.api.distributions.distribution import Distribution
env = Environment(pathlib.Path(sys.argv[2]))
Environment.current = classmethod(lambda cls, *a, **k: env)
package = Distribution.package_from(pathlib.Path(sys.argv[1]))
if sys.argv[3] == "1":
    package.dependencies(env.installation_target)
package.install_to(env.installation_target)
"""
