"""Real environments and distributions for the installation checks (everything lives under the scratch directory)."""
import base64
import csv
import hashlib
import io
import os
import pathlib
import zipfile


def make_env(ctx, name="env"):
    """a real virtual environment made by pkm itself from the interpreter running the check"""
    import sys
    from pkm.api.environments.environment_builder import EnvironmentBuilder
    root = pathlib.Path(ctx.scratch) / "work" / name
    env = EnvironmentBuilder.create(root, pathlib.Path(sys.executable))
    env.installation_target, env.interpreter_version, env.markers  # noqa: pkm stores what it learns about an interpreter in the environment
    return env


def b64(digest):
    return base64.urlsafe_b64encode(digest).rstrip(b"=").decode()


def record_line(name, data, algo="sha256"):
    return [name, f"{algo}={b64(hashlib.new(algo, data).digest())}", str(len(data))]


def csv_text(rows):
    out = io.StringIO()
    csv.writer(out, lineterminator="\n").writerows(rows)
    return out.getvalue()


def dist_dir(name, version):
    return f"{name.replace('-', '_').replace('.', '_')}-{version}"


def metadata_text(name, version, requires=(), extras=(), more=""):
    out = f"Metadata-Version: 2.1\nName: {name}\nVersion: {version}\n"
    out += "".join(f"Requires-Dist: {r}\n" for r in requires)
    out += "".join(f"Provides-Extra: {e}\n" for e in extras)
    return out + more


def wheel_files(name, version, files, requires=(), extras=(), entry_points=None, purelib=True, tag="py3-none-any", more_meta="", extra_info=None):
    """{archive name: bytes} of a valid wheel (without RECORD)"""
    di = dist_dir(name, version) + ".dist-info"
    out = dict(files)
    out[f"{di}/METADATA"] = metadata_text(name, version, requires, extras, more_meta).encode()
    out[f"{di}/WHEEL"] = f"Wheel-Version: 1.0\nGenerator: vmon\nRoot-Is-Purelib: {'true' if purelib else 'false'}\nTag: {tag}\n".encode()
    if entry_points:
        text = ""
        for group, eps in entry_points.items():
            text += f"[{group}]\n" + "".join(f"{k} = {v}\n" for k, v in eps.items()) + "\n"
        out[f"{di}/entry_points.txt"] = text.encode()
    for k, v in (extra_info or {}).items():
        out[f"{di}/{k}"] = v
    return out


def write_wheel(directory, name, version, members, tag="py3-none-any", record=None, order=None):
    """zip with RECORD; `record`: rows override. returns the path"""
    di = dist_dir(name, version) + ".dist-info"
    rows = [record_line(k, v) for k, v in members.items()] + [[f"{di}/RECORD", "", ""]] if record is None else record
    directory = pathlib.Path(directory)
    directory.mkdir(parents=True, exist_ok=True)
    path = directory / f"{dist_dir(name, version)}-{tag}.whl"
    with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED) as z:
        for k in (order or members):
            z.writestr(k, members[k])
        if rows != "absent":
            z.writestr(f"{di}/RECORD", csv_text(rows))
    return path


def snapshot(root, skip=lambda rel: False):
    """{relative path: ('d',) | ('l', target) | ('f', digest, exec bit)} of a tree"""
    out = {}
    root = str(root)
    for base, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(base, n)
            rel = os.path.relpath(p, root)
            if skip(rel):
                continue
            if os.path.islink(p):
                out[rel] = ("l", os.readlink(p))
            elif os.path.isdir(p):
                out[rel] = ("d",)
            else:
                with open(p, "rb") as f:
                    out[rel] = ("f", hashlib.sha256(f.read()).hexdigest(), bool(os.stat(p).st_mode & 0o111))
        dirs[:] = [d for d in dirs if not os.path.islink(os.path.join(base, d)) and not skip(os.path.relpath(os.path.join(base, d), root))]
    return out


def tree_diff(a, b, cap=6):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append(f"{'+' if k not in a else '-' if k not in b else '~'} {k}")
    return out[:cap] + ([f"... {len(out)} differences"] if len(out) > cap else [])


def fake_installed(site, name, version, requires=(), requested=None):
    """a minimal installed package in a site directory"""
    di = pathlib.Path(site) / (dist_dir(name, version) + ".dist-info")
    di.mkdir(parents=True)
    (di / "METADATA").write_text(metadata_text(name, version, requires))
    (di / "INSTALLER").write_text("pkm")
    (di / "RECORD").write_text(csv_text([[f"{di.name}/METADATA", "", ""], [f"{di.name}/RECORD", "", ""]]))
    if requested is not None:
        (di / "REQUESTED").write_text(requested)
    return di


# ------------------------------------------------------------------------------------------------ wheel generator
INTERP_LINES = [b"#!python\n", b"#!pythonw\n", b"#!/bin/sh\n", b"", b"#!/usr/bin/env python\n", b"#!python3\n"]


class GenWheel:
    """a generated wheel: members (without RECORD), and where each of them has to be after the installation"""

    def __init__(self, name, version):
        self.name, self.version = name, version
        self.members, self.site, self.data, self.scripts, self.headers = {}, {}, {}, {}, {}
        self.entry_points = {}          # {group: {name: ref}}
        self.script_tokens = {}         # entry point script -> text it must print
        self.purelib, self.tag, self.algos = True, "py3-none-any", {}
        self.requires, self.extras, self.more_meta = [], [], ""

    @property
    def di(self):
        return dist_dir(self.name, self.version) + ".dist-info"

    @property
    def dd(self):
        return dist_dir(self.name, self.version) + ".data"

    def rows(self, rng=None):
        out = []
        for k, v in self.members.items():
            out.append(record_line(k, v, self.algos.get(k, "sha256")))
        out.append([f"{self.di}/RECORD", "", ""])
        return out

    def write(self, directory, **kw):
        return write_wheel(directory, self.name, self.version, self.members, tag=self.tag, **{"record": self.rows(), **kw})


DATA_NAMES = ["data.bin", "empty.txt", "with space.txt", "comma,name.txt", "quo'te.txt", "ünïcode.dat", "py.typed", "noext", ".hidden", "a.b.c.json", "mod.so", "x.pyi",
              "double\"q.txt", "tem%20plate.html", "UPPER.TXT", "RECORD", "METADATA.txt"]


def gen_wheel(rng, name, version, shared_ns=None, size=1.0):
    w = GenWheel(name, version)
    top = name.replace("-", "_").replace(".", "_").lower()
    src = {}

    def blob():
        k = rng.random()
        if k < .15:
            return b""
        if k < .3:
            return rng.randbytes(rng.randrange(1, 40000))
        if k < .4:
            return b"line1\r\nline2\rline3\n\x00\xff"
        return rng.randbytes(rng.randrange(1, 200))

    def module(i):
        tok = f"{name}-{version}-{i}-{rng.randrange(10**6)}"
        return tok, f"# {tok}\nTOKEN = {tok!r}\n\n\ndef main():\n    print({tok!r})\n\n\nclass C:\n    @staticmethod\n    def go():\n        print('C', {tok!r})\n".encode()

    mods = []
    for i in range(rng.randrange(1, 4)):
        path = rng.choice(["{t}.py", "{t}/__init__.py", "{t}/m{i}.py", "{t}/sub/__init__.py", "{t}/sub/deep/m{i}.py", "{t}_x{i}.py"]).format(t=top, i=i)
        if path == f"{top}.py" and any(p.startswith(top + "/") for p in src) or path.startswith(top + "/") and f"{top}.py" in src:
            path = f"{top}_y{i}.py"
        if path in src:
            continue
        tok, body = module(i)
        src[path] = body
        mods.append((path[:-3].replace("/", ".").removesuffix(".__init__"), tok))
    if shared_ns:
        tok, body = module("ns")
        src[f"{shared_ns}/{top}_part.py"] = body
        mods.append((f"{shared_ns}.{top}_part", tok))
    if rng.random() < .25:
        src[f"{top}_bad.py"] = b"def broken(:\n"
    for _ in range(int(rng.randrange(0, 6) * size)):
        d = rng.choice([f"{top}_data", f"{top}_data/sub", f"{top}_data/sub/x.dist-info.d", f"{top}_data/{name}-docs"])
        src[f"{d}/{rng.choice(DATA_NAMES)}"] = blob()
    if rng.random() < .1:
        src[f"{top}_link.pth"] = b"# nothing\n"
    w.site.update(src)
    w.members.update(src)
    # data schemes
    if rng.random() < .5:
        for scheme in rng.sample(["data", "scripts", "purelib", "platlib", "headers"], rng.randrange(1, 5)):
            for i in range(rng.randrange(1, 3)):
                if scheme == "data":
                    rel = rng.choice([f"share/{top}/", f"etc/{top}.d/", f"share/man/man1/{top}", f"var/{top}/a/b/"]) + f"f{i}.txt"
                    body = blob()
                    w.data[rel] = body
                elif scheme == "scripts":
                    rel = f"{top}-script{i}" + rng.choice(["", ".sh", ".py"])
                    body = rng.choice(INTERP_LINES) + b"print('script')\n" + (b"#\xff\r\n" if rng.random() < .3 else b"")
                    w.scripts[rel] = body
                elif scheme == "headers":
                    rel = rng.choice(["h{}.h", "inc/h{}.h"]).format(i)
                    body = blob()
                    w.headers[rel] = body
                else:
                    rel = f"{top}_{scheme}/" + rng.choice(["m{}.py", "d{}.bin"]).format(i)
                    body = b"X = 1\n" if rel.endswith(".py") else blob()
                    w.site[rel] = body
                w.members[f"{w.dd}/{scheme}/{rel}"] = body
    # entry points
    if rng.random() < .55:
        for i in range(rng.randrange(1, 4)):
            mod, tok = rng.choice(mods)
            obj, expected = rng.choice([("main", tok), ("C.go", "C " + tok)])
            group = rng.choice(["console_scripts", "console_scripts", "gui_scripts", "my.plugins"])
            ep = f"{top}-ep{i}" + rng.choice(["", ".x", "_Y"])
            w.entry_points.setdefault(group, {})[ep] = f"{mod}:{obj}" + rng.choice(["", "", " [extra1]"])
            if group != "my.plugins":
                w.script_tokens[ep] = expected
    w.purelib = rng.random() < .75
    if not w.purelib:
        w.tag = "cp312-cp312-linux_x86_64"
    elif rng.random() < .3:
        w.tag = "py2.py3-none-any"
    for _ in range(rng.randrange(0, 3)):
        w.requires.append(rng.choice(["dep-a >=1.0", "dep_b[x] ~=2.1; python_version > '3'", "Dep.C", "dd (>=1,<2); extra == 'test'"]))
    if rng.random() < .3:
        w.extras.append("test")
    if rng.random() < .5:
        w.more_meta = "Summary: a summary of %s\nAuthor-email: x@y.z\nRequires-Python: >=3.7\n\nThe description\nbody: text\n" % name
    extra_info = {}
    if rng.random() < .4:
        extra_info["LICENSE"] = b"MIT\n"
    if rng.random() < .2:
        extra_info["licenses/sub/COPYING"] = b"(C)\n"
    if rng.random() < .2:
        extra_info["top_level.txt"] = (top + "\n").encode()
    full = wheel_files(name, version, {}, w.requires, w.extras, w.entry_points, w.purelib, w.tag, w.more_meta, extra_info)
    for k, v in full.items():
        w.members[k] = v
        w.site[k] = v
    for k in w.members:
        if rng.random() < .1:
            w.algos[k] = rng.choice(["sha384", "sha512"])
    return w


def header_dir(w):
    """the directory (relative to the environment) that pip and pkm use for the headers of a wheel in a virtual environment"""
    import sys
    return "include/site/python%d.%d" % sys.version_info[:2]


def reset_tree(root, baseline):
    """bring a tree back to a baseline snapshot by removing what is not in it"""
    import shutil
    now = snapshot(root)
    for rel in sorted(now, key=len, reverse=True):
        if rel not in baseline:
            p = pathlib.Path(root) / rel
            if p.is_dir() and not p.is_symlink():
                shutil.rmtree(p, ignore_errors=True)
            else:
                p.unlink(missing_ok=True)
    return tree_diff(baseline, snapshot(root))
