"""R05: packages given by reference (a url, a file, a project folder, a git repository) instead of by version. Everything that is published says where
it comes from (a token in its module), so what an environment has in the end tells which reference was followed, and to which state of it."""
import hashlib
import http.server
import io
import json
import os
import random
import shutil
import subprocess
import sys
import tarfile
import threading
import urllib.parse
from pathlib import Path

from vmon.core import short_tb
from vmon.world import make_env, snapshot, tree_diff, wheel_files, write_wheel

NAMES = ["aa", "b-b", "c_c", "D.d"]
BACKEND = r'''
import base64, hashlib, json, os, zipfile
spec = json.load(open("spec.json"))
stem = spec["module"] + "-" + spec["version"]
def files(meta_only):
    out = {stem + ".dist-info/METADATA": "Metadata-Version: 2.1\nName: %s\nVersion: %s\n%s" % (spec["name"], spec["version"], "".join("Requires-Dist: %s\n" % d for d in spec["deps"])),
           stem + ".dist-info/WHEEL": "Wheel-Version: 1.0\nGenerator: x\nRoot-Is-Purelib: true\nTag: py3-none-any\n"}
    if not meta_only:
        out[spec["module"] + ".py"] = "V = %r\n" % spec["token"]
    return out
def prepare_metadata_for_build_wheel(folder, config_settings=None):
    for n, c in files(True).items():
        os.makedirs(os.path.dirname(os.path.join(folder, n)), exist_ok=True)
        open(os.path.join(folder, n), "w").write(c)
    return stem + ".dist-info"
def build_wheel(folder, config_settings=None, metadata_directory=None):
    name = stem + "-py3-none-any.whl"
    rows = []
    with zipfile.ZipFile(os.path.join(folder, name), "w") as z:
        for n, c in files(False).items():
            z.writestr(n, c)
            rows.append("%s,sha256=%s,%d" % (n, base64.urlsafe_b64encode(hashlib.sha256(c.encode()).digest()).rstrip(b"=").decode(), len(c)))
        z.writestr(stem + ".dist-info/RECORD", "\n".join(rows + [stem + ".dist-info/RECORD,,"]) + "\n")
    return name
'''


def key(name):
    return name.lower().replace("_", "-").replace(".", "-")


def module(name):
    return key(name).replace("-", "_")


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"

    def log_message(self, *a):
        pass

    def do_GET(self):
        s = self.server.owner
        path = self.path.split("?")[0] if self.path.startswith("/git/") else self.path
        fault = s.faults.get(path)
        s.asked += 1
        data = s.files.get(path)
        if path.startswith("/git/"):
            f = s.folder / urllib.parse.unquote(path).strip("/")
            data = f.read_bytes() if f.is_file() and ".." not in path else None
        status = 404 if data is None else 200
        if fault in (404, 500):
            status, data = fault, b"nothing to see"
        data = data or b""
        etag = '"' + hashlib.md5(data).hexdigest() + '"'
        if status == 200 and self.headers.get("If-None-Match") == etag and fault != "cut":
            status, data = 304, b""
        self.send_response(status)
        self.send_header("Content-Length", str(len(data)))
        if status in (200, 304):
            self.send_header("ETag", etag)
        self.end_headers()
        if fault == "cut" and status == 200:
            data = data[:len(data) // 2]
            self.close_connection = True
        self.wfile.write(data)


class Server:
    def __init__(self, folder):
        self.folder, self.files, self.faults, self.asked = folder, {}, {}, 0
        folder.mkdir(parents=True, exist_ok=True)
        self.http = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
        self.http.daemon_threads = True
        self.http.owner = self
        threading.Thread(target=self.http.serve_forever, daemon=True).start()
        self.url = f"http://127.0.0.1:{self.http.server_address[1]}"


def git(cwd, *args):
    p = subprocess.run(["git", "-c", "user.name=a", "-c", "user.email=a@b", "-c", "init.defaultBranch=main", "-c", "commit.gpgsign=false", *args], cwd=cwd, capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError(f"git {args} fails: {p.stderr[-300:]}")
    return p.stdout.strip()


def project_files(name, version, token, deps, style):
    """the files of a source tree of a package"""
    if style == "backend":
        return {"pyproject.toml": f'[project]\nname = "{name}"\nversion = "{version}"\ndependencies = {json.dumps(deps)}\n[build-system]\nrequires = []\nbuild-backend = "be"\nbackend-path = ["."]\n', "be.py": BACKEND,
                "spec.json": json.dumps({"name": name, "module": module(name), "version": version, "token": token, "deps": deps})}
    return {"pyproject.toml": f'[project]\nname = "{name}"\nversion = "{version}"\ndependencies = {json.dumps(deps)}\n[build-system]\nrequires = ["pkm"]\nbuild-backend = "pkm.api.buildsys"\n',
            f"src/{module(name)}/__init__.py": f"V = {token!r}\n"}


def write_tree(folder, files):
    if folder.exists():
        for p in folder.iterdir():
            if p.name != ".git":
                shutil.rmtree(p) if p.is_dir() else p.unlink()
    for n, c in files.items():
        (folder / n).parent.mkdir(parents=True, exist_ok=True)
        (folder / n).write_text(c)


def wheel_bytes(folder, name, version, token, deps):
    folder.mkdir(parents=True, exist_ok=True)
    made = write_wheel(folder, name, version, wheel_files(name, version, {f"{module(name)}.py": f"V = {token!r}\n".encode()}, requires=deps))
    made = Path(made) if made else next(folder.glob("*.whl"))
    data = made.read_bytes()
    made.unlink()
    return made.name, data


def sdist_bytes(name, version, token, deps):
    out = io.BytesIO()
    top = f"{module(name)}-{version}"
    with tarfile.open(fileobj=out, mode="w:gz") as t:
        for n, c in {**project_files(name, version, token, deps, "backend"), "PKG-INFO": f"Metadata-Version: 2.1\nName: {name}\nVersion: {version}\n"}.items():
            i = tarfile.TarInfo(f"{top}/{n}")
            i.size = len(c)
            t.addfile(i, io.BytesIO(c.encode()))
    return f"{top}.tar.gz", out.getvalue()


class Source:
    """one place a package is published at: its reference never changes, what it has there does"""
    def __init__(self, world, r, name, kind, number):
        self.world, self.r, self.name, self.kind, self.number = world, r, name, kind, number
        self.serial, self.deps, self.fragment = 0, [], ""
        self.fixed = False
        self.publish()

    def token_of(self):
        return f"{self.kind}-{self.number}-{self.serial}"

    def pick_version(self):
        return self.r.choice(["0.5", "1.0", "1.5", "2.0", "3.0.1", "1.0+l.1"] if "wheel" in self.kind else ["0.5", "1.0", "2.0", "3.0.1"])


class HttpSource(Source):
    def __init__(self, world, r, name, kind, number):
        self.server = r.choice(world.servers)
        super().__init__(world, r, name, kind, number)
        prefix = "url+" if r.random() < .15 else ""
        frag = r.choice(["", "", "#egg=x", "sha"]) if kind == "http-wheel" else r.choice(["", "sha"])
        self.fixed = frag == "sha"
        if frag == "sha":
            algo = r.choice(["sha256", "sha256", "md5", "sha512"])
            frag = f"#{algo}=" + hashlib.new(algo, self.data).hexdigest()
        self.reference = f"{prefix}{self.server.url}{self.path}{frag}"

    def publish(self):
        self.serial += 1
        if self.serial == 1:
            self.version = self.pick_version()
        self.token = self.token_of()
        make = sdist_bytes if self.kind == "http-sdist" else lambda *a: wheel_bytes(self.world.folder / "made", *a)
        file, self.data = make(self.name, self.version, self.token, self.deps)
        if self.serial == 1:
            query = self.r.choice(["", "", "", f"?download={self.number}"])
            folder = self.r.choice([f"/{self.number}", "/same", "/deep/er"]) if self.world.once(("path", self.server.url, file)) else f"/{self.number}"
            quoted = urllib.parse.quote(file, safe="+" if self.r.random() < .5 else "")
            self.path = f"/{self.world.label}{folder}/{quoted}{query}"
            if self.path in self.server.files:
                self.path = f"/{self.world.label}/{self.number}{folder}/{quoted}{query}"
        self.server.files[self.path] = self.data


class FileSource(Source):
    def __init__(self, world, r, name, kind, number):
        self.style = r.choice(["backend", "pkm"])
        super().__init__(world, r, name, kind, number)
        path = str(self.path)
        self.reference = "file://" + (urllib.parse.quote(path) if " " in path or r.random() < .3 else path)

    def publish(self):
        self.serial += 1
        if self.serial == 1:
            self.version = self.pick_version()
            self.folder = self.world.folder / "files" / self.r.choice([str(self.number), f"a b {self.number}", f"x%20y-{self.number}" if False else f"p-{self.number}"])
            self.folder.mkdir(parents=True)
        self.token = self.token_of()
        if self.kind == "file-project":
            self.path = self.folder
            write_tree(self.folder, project_files(self.name, self.version, self.token, self.deps, self.style))
            return
        file, data = sdist_bytes(self.name, self.version, self.token, self.deps) if self.kind == "file-sdist" else wheel_bytes(self.world.folder / "made", self.name, self.version, self.token, self.deps)
        self.path = self.folder / file
        self.path.write_bytes(data)


class Repository:
    """a git repository: branches with a history, tags, served over the loopback, by path, and by a stand-in for ssh"""
    def __init__(self, world, r, number, names):
        self.world, self.names, self.number = world, names, number
        self.group = len(names) > 1
        self.style = {n: r.choice(["backend", "pkm"]) for n in names}
        self.serial = 0
        self.server = r.choice(world.servers)
        self.work = world.folder / "git-work" / str(number)
        self.work.mkdir(parents=True)
        name = r.choice(["same.git", f"r{number}.git", f"r{number}"])
        rel = f"git/{world.label}/{name}" if world.once(("git", self.server.url, name)) else f"git/{world.label}/{number}/{name}"
        self.bare = self.server.folder / rel
        self.http = f"git+{self.server.url}/{rel}"
        self.deps = {n: [] for n in names}
        self.heads, self.tags = {}, {}
        git(self.work, "init")
        self.commit("main", first=True)
        self.bare.parent.mkdir(parents=True, exist_ok=True)
        git(self.work, "clone", "--bare", str(self.work), str(self.bare))
        git(self.bare, "update-server-info")

    def commit(self, branch, first=False):
        if not first:
            if branch in self.heads:
                git(self.work, "checkout", branch)
            else:
                git(self.work, "checkout", "-b", branch, "main")
        self.serial += 1
        tokens = {n: f"git-{self.number}-{branch}-{self.serial}" for n in self.names}
        version = f"1.{self.serial}"
        files = {}
        for n in self.names:
            prefix = f"{module(n)}_project/" if self.group else ""
            files.update({prefix + k: v for k, v in project_files(n, version, tokens[n], self.deps[n], self.style[n]).items()})
        if self.group:
            files["pyproject-group.toml"] = 'name = "g"\nchildren = ' + json.dumps([f"{module(n)}_project" for n in self.names]) + "\n"
        write_tree(self.work, files)
        git(self.work, "add", "-A")
        git(self.work, "commit", "-m", f"c{self.serial}")
        self.heads[branch] = (tokens, version, git(self.work, "rev-parse", "HEAD"))
        if not first:
            self.push()

    def tag(self, name, branch):
        git(self.work, "tag", name, branch)
        self.tags[name] = self.heads[branch]
        self.push()

    def push(self):
        git(self.work, "push", "--all", str(self.bare))
        git(self.work, "push", "--tags", str(self.bare))
        git(self.bare, "update-server-info")


class GitSource:
    def __init__(self, repo, r, name, number):
        self.repo, self.name, self.number, self.kind = repo, name, number, "git"
        self.ref_kind = r.choice(["default", "branch", "tag", "commit"])
        branch = r.choice(list(repo.heads))
        self.pinned = None
        ref = ""
        if self.ref_kind == "default":
            branch = "main"
        elif self.ref_kind == "branch":
            ref = "@" + branch
        elif self.ref_kind == "tag":
            tag = f"v{number}" if r.random() < .7 else f"rel/{number}"
            repo.tag(tag, branch)
            ref, self.pinned = "@" + tag, repo.heads[branch]
        else:
            self.pinned = repo.heads[branch]
            ref = "@" + (self.pinned[2] if r.random() < .6 else self.pinned[2][:10])
        self.branch = branch
        via = r.choice([repo.http, repo.http, f"git+file://{repo.bare}", f"git+ssh://git@localhost{repo.bare}", f"git+ssh://someone@localhost:2222{repo.bare}"])
        self.reference = via + ref
        self.fixed = self.pinned is not None

    @property
    def deps(self):
        return self.repo.deps[self.name]

    @property
    def state(self):
        return self.pinned or self.repo.heads[self.branch]

    @property
    def token(self):
        return self.state[0][self.name]

    @property
    def version(self):
        return self.state[1]

    def publish(self):
        self.repo.commit(self.branch)


class World:
    def __init__(self, ctx, r, label, servers, folder, index):
        self.r, self.label, self.servers, self.folder, self.index = r, label, servers, folder, index
        self.seen = set()
        self.sources = {key(n): [] for n in NAMES}
        number = 0
        for n in NAMES:
            for _ in range(r.randint(1, 3)):
                kind = r.choice(["http-wheel", "http-wheel", "http-sdist", "file-wheel", "file-sdist", "file-project", "file-project"])
                number += 1
                self.sources[key(n)].append((HttpSource if kind.startswith("http") else FileSource)(self, r, n, kind, number))
        repos = []
        for i in range(r.randint(1, 2)):
            repo = Repository(self, r, i, r.sample(NAMES, r.choice([1, 1, 2])))
            for b in r.sample(["dev", "feat/x", "1.x"], r.randint(0, 2)):
                repo.commit(b)
            repos.append(repo)
            for n in repo.names:
                for _ in range(r.randint(1, 2)):
                    number += 1
                    self.sources[key(n)].append(GitSource(repo, r, n, number))
        # what the references require: names only, or references to what is published elsewhere
        for k, ss in self.sources.items():
            for s in ss:
                if s.kind != "git" and not s.fixed and r.random() < .45:
                    later = [n for n in NAMES if key(n) > k]
                    for n in r.sample(later, min(len(later), r.randint(0, 2))):
                        t = r.choice(self.sources[key(n)])
                        s.deps.append(n if r.random() < .5 else f"{n} @ {t.reference}")
                    if s.deps:
                        s.publish()
        self.by_reference = {(k, s.reference): s for k, ss in self.sources.items() for s in ss}

    def once(self, what):
        if what in self.seen:
            return False
        self.seen.add(what)
        return True


def split(requirement):
    """(key, reference or None, exact version or None)"""
    requirement = requirement.split(" ; ")[0]
    if " @ " in requirement:
        n, ref = requirement.split(" @ ", 1)
        return key(n.split("[")[0]), ref.strip(), None
    if "==" in requirement:
        n, v = requirement.split("==")
        return key(n), None, v
    return key(requirement), None, None


class Model:
    """what an environment has: {key: (token, version, reference or None)} and what was requested"""
    def __init__(self):
        self.has, self.requests = {}, {}

    def deps_of(self, world, k, token):
        return self.known.get((k, token), [])


def closure(world, requests, model=None):
    """{key: (set of references, set of versions)} of everything the requests need, and the dependencies of what will be there"""
    needs, pending, done = {}, list(requests.values()), set()
    while pending:
        req = pending.pop()
        if req in done:
            continue
        done.add(req)
        k, ref, version = split(req)
        refs, versions = needs.setdefault(k, (set(), set()))
        if ref:
            refs.add(ref)
            pending.extend(world.by_reference[k, ref].deps)
        elif version:
            versions.add(version)
        if model and k in model.has and not ref and not version:
            pending.extend(model.has[k][3])
    return needs


def observe(root):
    from pkm.api.environments.environment import Environment
    env = Environment(root)
    out, problems = {}, []
    site = env.site_packages.purelib_path
    for p in env.site_packages.installed_packages():
        m = module(p.name)
        plain, package = site / f"{m}.py", site / m / "__init__.py"
        links = [Path(x) / m / "__init__.py" for f in site.glob("*.pth") for x in f.read_text().splitlines() if x.startswith("/")]
        found = [f for f in [plain, package, *links] if f.exists()]
        if len(found) != 1:
            problems.append(f"{p.name}: {len(found)} modules: {[str(f)[-60:] for f in found]}")
            continue
        scope = {}
        exec(found[0].read_text(), scope)
        out[key(p.name)] = (scope["V"], str(p.version), str(p.user_request) if p.user_request else None, found[0] in links)
    infos = [p.name for p in site.glob("*.dist-info")]
    if len(infos) != len(out) + len(problems):
        problems.append(f"records {infos} of {sorted(out)}")
    left = {p.stem if p.suffix == ".py" else p.name for p in site.iterdir() if p.suffix != ".dist-info" and p.name != "__pycache__" and p.suffix != ".pth"} - {module(k) for k in out}
    if left:
        problems.append(f"left behind: {sorted(left)}")
    return out, problems


def site_state(root):
    from pkm.api.environments.environment import Environment
    return snapshot(Environment(root).site_packages.purelib_path, skip=lambda rel: "__pycache__" in rel)


def history(ctx, r, label, servers, folder, index, roots):
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.environments.environment import Environment
    from pkm.api.pkm import pkm
    world = World(ctx, r, label, servers, folder, index)
    models = {root: Model() for root in roots}
    for root in roots:
        site = Environment(root).site_packages.purelib_path
        for p in site.iterdir():
            shutil.rmtree(p) if p.is_dir() else p.unlink()
    log = [f"{s.reference} = {s.token} {s.version} requires {s.deps}" for ss in world.sources.values() for s in ss]
    for step in range(r.randint(5, 11)):
        others = {root: observe(root)[0] for root in roots}
        if r.random() < .22:
            options = [s for ss in world.sources.values() for s in ss if not s.fixed]
            s = r.choice(options)
            s.publish()
            log.append(f"publish {s.reference} -> {s.token}")
            ctx.event("published anew")
            for root in roots:        # a project folder may be installed as a link, anything else must stay as installed
                now, problems = observe(root)
                for k in others[root]:
                    if not others[root][k][3] and now.get(k) != others[root][k]:
                        return ctx.check(False, "ref:shared", f"publishing {s.reference} changed {k} of an environment from {others[root][k]} to {now.get(k)}", log=log)
                    if k in models[root].has and others[root][k][3]:
                        t, v, ref, deps = models[root].has[k]
                        models[root].has[k] = (now[k][0], v, ref, deps)
            continue
        root = r.choice(roots)
        model = models[root]
        if not attempt(ctx, r, world, model, root, log, Dependency, Environment, pkm):
            return False
        for other in roots:
            if other != root and observe(other)[0] != others[other]:
                return ctx.check(False, "ref:shared", f"an installation changed another environment from {others[other]} to {observe(other)[0]}", log=log)
    return True


def attempt(ctx, r, world, model, root, log, Dependency, Environment, pkm):
    requests, spelled, bad = {}, [], None
    names = r.sample(NAMES, r.choice([1, 1, 2, 3]))
    for n in names:
        k = key(n)
        shown = r.choice([n, n, k, module(n), n.upper()])
        what = r.random()
        if what < .72:
            s = r.choice(world.sources[k])
            extra = "[x]" if r.random() < .1 else ""
            marker = r.choice(["", "", "", " ; python_version > '3'"] + [" ; python_version < '3'"] * (k not in model.has))
            req = f"{shown}{extra} @ {s.reference}{marker}"
            if "< '3'" in marker:
                spelled.append(req)
                continue
            ctx.event(f"requested: {s.kind}")
        elif what < .82:
            req = f"{shown}=={r.choice(['1.0', '2.0'])}"
        else:
            req = shown
        requests[k] = req
        spelled.append(req)
    faulty = r.random()
    undo = lambda: None
    if requests and faulty < .28:
        k = r.choice(list(requests))
        k_, ref, _ = split(requests[k])
        if ref:
            s = world.by_reference[k, ref]
            others = [t for kk, ss in world.sources.items() if kk != k for t in ss if (k, t.reference) not in world.by_reference and not (t.kind == "git" and s.name in t.repo.names)]
            bad = r.choice({"git": ["missing ref", "other package", "unreachable"], "http": ["status", "cut", "hash", "other package", "other package"]}.get(s.kind.split("-")[0], ["missing", "other package", "damaged"]))
            new = None
            if bad == "other package":
                if not others:
                    return True
                new = r.choice(others).reference
                if s.kind == "git" and r.random() < .5:
                    new = next((t.reference for t in others if t.kind == "git"), new)
            elif bad == "missing ref":
                new = ref.split(".git@")[0].rsplit("@", 1)[0] + "@no-such-thing" if s.ref_kind != "default" else ref + "@no-such-thing"
            elif bad == "unreachable":
                new = f"git+file://{world.folder}/nowhere.git"
            elif bad == "missing":
                new = f"file://{world.folder}/nowhere/{module(s.name)}-1.0-py3-none-any.whl"
            elif bad == "hash":
                new = ref.split("#")[0] + "#sha256=" + hashlib.sha256(b"something else").hexdigest()
            elif bad in ("status", "cut"):
                if model.requests.get(k) and split(model.requests[k])[1] == ref:
                    bad = None      # what is there came from this reference: nothing has to be asked for
                else:
                    s.server.faults[s.path] = r.choice([404, 500]) if bad == "status" else "cut"
                    undo = lambda: s.server.faults.pop(s.path, None)
            elif bad == "damaged":
                if model.requests.get(k) and split(model.requests[k])[1] == ref or s.kind == "file-project":
                    bad = None
                else:
                    data = s.path.read_bytes()
                    s.path.write_bytes(data[:len(data) // 2])
                    undo = lambda: s.path.write_bytes(data)
            if new:
                requests[k] = requests[k].replace(ref, new)
                spelled = [x.replace(ref, new) if split(x)[:2] == (k, ref) else x for x in spelled]
    if not requests and not spelled:
        return True
    before = site_state(root)
    was, _ = observe(root)
    label = f"install {spelled}" + (f" ({bad})" if bad else "")
    log.append(label + f" in {root.name}")
    env = Environment(root)
    modes = r.choice(["none", "thread"])
    update = not bad and r.random() < .2
    if update:
        label += " (update)"
        ctx.event("updates")
    failure = None
    try:
        if spelled:
            pkm.config.concurrency_mode = modes
            env.install([Dependency.parse(x) for x in spelled], updates=list(requests) if update else None)
    except Exception as e:
        failure = e
    finally:
        undo()
    now, problems = observe(root)
    if problems:
        return ctx.check(False, "ref:files", f"{label}: {problems}", log=log)
    ctx.evaluated(" ".join(sorted(world.by_reference[split(q)[:2]].kind if split(q)[:2] in world.by_reference else "version" if split(q)[2] else "name" for q in requests.values())) + f" {bad} on {len(was)}", label)
    if failure is not None and (bad or type(failure).__name__ == "UnsolvableProblemException"):
        diff = tree_diff(before, site_state(root))
        if not ctx.check(not diff, "ref:atomic", f"{label}: fails ({type(failure).__name__}) but changed {diff}", log=log):
            return False
    if bad:
        if ctx.check(failure is not None, f"ref:accepted {bad}", f"{label}: accepted, the environment has {now}", log=log):
            ctx.event(f"refused: {bad}")
            return True
        return False
    # what all the requests need together
    wanted = {**model.requests, **requests}
    needs = closure(world, wanted, model)
    new_needs = closure(world, requests)
    single = all(len(refs) + len(versions) <= 1 for refs, versions in needs.values())
    hopeless = any(len(refs) > 1 or len(versions) > 1 for refs, versions in new_needs.values())
    if failure is not None:
        if single:
            log.append(f"needs {needs} requests {wanted} has {model.has}")
        ctx.event("refused: conflict" if not single else "refused: ?")
        return ctx.check(not single, "ref:refused", f"{label}: refused by {short_tb(failure)} {str(failure)[:200]}; the environment has {was}", log=log)
    if not ctx.check(not hopeless, "ref:conflict", f"{label}: accepted, although its references exclude each other; the environment has {now}", log=log):
        return False
    known = dict(model.has)
    model.has = {}
    for k, (token, version, request, linked) in now.items():
        old = known.get(k)
        if old and old[0] == token:
            model.has[k] = old
            continue
        fits = [s for s in world.sources[k] if s.token == token]
        if fits:
            s = fits[0]
            if not ctx.check(version == s.version, "ref:version", f"{label}: {k} of {s.reference} is version {s.version}, recorded as {version}", log=log):
                return False
            model.has[k] = (token, version, {s.reference for s in fits}, list(s.deps))
            ctx.event(f"installed: {s.kind}")
            ctx.distinct("sources", f"{s.kind} {getattr(s, 'ref_kind', '')} {s.reference.split(':')[0]} linked={linked}")
        elif ctx.check(token == f"index-{version}", "ref:index", f"{label}: {k} is of no reference as it is now, nor of the index: {token!r} {version}", log=log):
            model.has[k] = (token, version, set(), [])
        else:
            return False
    pending, done = list(wanted.values()), set()
    while pending:        # whatever is needed is there, from where it has to be
        req = pending.pop()
        if req in done:
            continue
        done.add(req)
        k, ref, version = split(req)
        if not ctx.check(k in now, "ref:missing", f"{label}: {req} is needed, the environment has {now}", log=log):
            return False
        token, has_version, refs, deps = model.has[k]
        pending.extend(deps)
        if ref:
            s = world.by_reference[k, ref]
            if not ctx.check(token == s.token or ref in refs and k in known and known[k][0] == token and not (update and k in requests), "ref:other", f"{label}: {req} is {s.token!r}, but {token!r} {has_version} is there", log=log):
                return False
            if token == s.token:
                model.has[k] = (token, has_version, refs | {ref}, deps)
        if version and not ctx.check(has_version.split("+")[0] == version, "ref:index", f"{label}: {req}: {token!r} {has_version} is there", log=log):
            return False
    for k, req in requests.items():
        if not ctx.check(k in now, "ref:missing", f"{label}: {k} is not there: {now}", log=log):
            return False
        _, ref, version = split(req)
        told = now[k][2] or ""
        if not ctx.check((ref or "") in told and (version is None or f"=={version}" in told.replace(" ", "")), "ref:request", f"{label}: the request {req!r} is remembered as {told!r}", log=log):
            return False
    model.requests = wanted
    ctx.event("installations")
    return True


KILLED = r'''
import sys, json
from pathlib import Path
from pkm.api.environments.environment import Environment
from pkm.api.dependencies.dependency import Dependency
Environment(Path(sys.argv[1])).install([Dependency.parse(sys.argv[2])])
'''


def killed(ctx, r, label, servers, folder, index, roots):
    """the process is killed around a step of git: what it left must never be taken for what was asked for"""
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.environments.environment import Environment
    world = World(ctx, r, label, servers, folder, index)
    repo = Repository(world, r, 99, ["aa"])
    repo.commit("dev")
    repo.tag("v1", "dev")
    repo.commit("main")
    ref = r.choice(["@dev", "@v1", "@dev", ""])
    reference = repo.http + ref
    bin_ = folder / "bin"
    bin_.mkdir()
    real = shutil.which("git")
    step, when = r.choice(["clone", "checkout"]), r.choice(["before", "after"])
    if not ref:
        step = "clone"
    body = {"before": f'if [ "$1" = {step} ]; then kill -KILL $PPID; exit 1; fi\nexec {real} "$@"', "after": f'{real} "$@"; c=$?; if [ "$1" = {step} ]; then kill -KILL $PPID; fi; exit $c'}[when]
    (bin_ / "git").write_text(f"#!/bin/bash\n{body}\n")
    (bin_ / "git").chmod(0o755)
    root = roots[0]
    site = Environment(root).site_packages.purelib_path
    for p in site.iterdir():
        shutil.rmtree(p) if p.is_dir() else p.unlink()
    p = subprocess.run([sys.executable, "-c", KILLED, str(root), f"aa @ {reference}"], capture_output=True, text=True, env={**os.environ, "PATH": f"{bin_}:{os.environ['PATH']}", "PYTHONPATH": os.pathsep.join(sys.path)}, timeout=120)
    ctx.event("killed while fetching" if p.returncode == -9 else "not killed")
    try:
        Environment(root).install([Dependency.parse(f"aa @ {reference}")])
    except Exception as e:
        return ctx.check(False, "ref:killed", f"killed {when} {step} of {reference}: the next attempt fails: {short_tb(e)}")
    now, problems = observe(root)
    token = repo.heads["main" if not ref else "dev"][0]["aa"]
    return ctx.check(not problems and now.get("aa", ("",))[0] == token, "ref:killed", f"killed {when} {step} of {reference}: then {token} was asked for but {now} is there {problems}")


def run(ctx):
    ctx.rule = ("histories of installations by reference (wheels and source distributions by url and file, project folders, git by branch, tag, commit over three transports, groups), mixed with versions of an index, republished "
                "contents, references that cannot be followed; what the environments have is read from the files and compared with what the references had")
    ctx.required_events = ["installations", "published anew", "installed: http-wheel", "installed: http-sdist", "installed: file-wheel", "installed: file-sdist", "installed: file-project", "installed: git",
                           "refused: other package", "killed while fetching"]
    work = Path(ctx.scratch) / "work"
    work.mkdir(exist_ok=True)
    index = work / "index"
    index.mkdir()
    for n in NAMES:
        for v in ("1.0", "2.0"):
            write_wheel(index, n, v, wheel_files(n, v, {f"{module(n)}.py": f"V = 'index-{v}'\n".encode()}))
    home = Path(os.environ["XDG_DATA_HOME"]) / "pkm"
    (home / "etc/pkm").mkdir(parents=True, exist_ok=True)
    (home / "etc/pkm/repositories.toml").write_text(f"[repos.local]\ntype = \"file-system\"\npath = {json.dumps(str(index))}\n")
    ssh = work / "ssh"
    ssh.write_text("#!/bin/bash\n# a stand-in: runs what the other side would run\nwhile [[ \"$1\" == -* ]]; do shift 2; done\nshift\nexec bash -c \"$*\"\n")
    ssh.chmod(0o755)
    os.environ.update(GIT_SSH=str(ssh), GIT_SSH_VARIANT="ssh", GIT_CONFIG_NOSYSTEM="1", GIT_TERMINAL_PROMPT="0", GIT_CONFIG_COUNT="1", GIT_CONFIG_KEY_0="safe.directory", GIT_CONFIG_VALUE_0="*", GIT_CONFIG_GLOBAL="/dev/null")
    os.environ.pop("VIRTUAL_ENV", None)
    import pkm.api.pkm  # noqa
    from pkm.api.environments.environment import Environment
    roots = [make_env(ctx, n).path for n in ("first", "second")]
    Environment.current = classmethod(lambda cls, *a, **k: Environment(roots[0]))
    servers = [Server(work / "served1"), Server(work / "served2")]
    more = ctx.budget(40, 780)
    case = 0
    while more():
        r = ctx.sub_rng("case", case)
        folder = work / f"w{case}"
        folder.mkdir()
        (killed if case % 6 == 5 else history)(ctx, r, f"w{case}", servers, folder, index, roots)
        shutil.rmtree(folder, ignore_errors=True)
        for s in servers:
            s.files.clear()
            s.faults.clear()
            shutil.rmtree(s.folder / "git", ignore_errors=True)
        case += 1
    ctx.event("requests to the servers", sum(s.asked for s in servers))
