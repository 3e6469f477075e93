"""E01: interpreters are found, environments are made from them. Interpreters that claim other versions are scripts which start the real one
with its version replaced; every start of anything that lies in the searched folders is logged by what was started."""
import json
import os
import shutil
import stat
import subprocess
import sys
from pathlib import Path

from packaging.specifiers import SpecifierSet
from packaging.version import Version as PV

from vmon.core import short_tb
from vmon.world import snapshot, tree_diff

REAL = Path("/usr/bin/python3").resolve()
VERSIONS = ["2.7.18", "3.8.0", "3.8.20", "3.9.1", "3.9.2", "3.10.14", "3.11.0", "3.11.9", "3.13.0rc1", "3.14.0a7", "3.13.1", "3.12.10"]
SPECS = [">=3.9", "<3.10", "==3.9.*", "~=3.9.0", ">=3.10,<3.12", "!=3.11.*", ">=3.99", "", "==3.9.1", ">=3,<4", "<3.13", "~=3.8"]
NAMES = ["python", "python", "python3", "python3.9", "python3.11", "python-3.10", "python3.13", "Python3"]
OTHERS = ["python-config", "python3.9-config", "ipython", "pythonw", "python3.sh", "mypython", "pip", "python_x", "python3.11m-config"]

SITE = r'''
import os, sys
v = os.environ.get("FAKE_PYTHON")
if v:
    import re
    m = re.match(r"(\d+)\.(\d+)\.(\d+)(?:(a|b|rc)(\d+))?", v)
    level = {None: "final", "a": "alpha", "b": "beta", "rc": "candidate"}[m.group(4)]
    class version_info(tuple):
        major, minor, micro, releaselevel, serial = (property(lambda s, i=i: s[i]) for i in range(5))
    sys.version_info = version_info((int(m.group(1)), int(m.group(2)), int(m.group(3)), level, int(m.group(5) or 0)))
    sys.implementation.version = sys.version_info
    sys.version = v + " (main, Aug 31 2025, 10:18:00) [GCC 13.3.0]"
'''
ASK = r'''
import json, os, platform, sys, sysconfig
print(json.dumps({"prefix": sys.prefix, "base": sys.base_prefix, "executable": sys.executable, "version": platform.python_version(), "info": list(sys.version_info)[:3],
    "path": sys.path, "paths": sysconfig.get_paths(), "venv": os.environ.get("VIRTUAL_ENV"), "PATH": os.environ.get("PATH"),
    "markers": {"os_name": os.name, "sys_platform": sys.platform, "platform_machine": platform.machine(), "platform_python_implementation": platform.python_implementation(),
      "platform_release": platform.release(), "platform_system": platform.system(), "platform_version": platform.version(), "python_version": ".".join(platform.python_version_tuple()[:2]),
      "python_full_version": platform.python_version(), "implementation_name": sys.implementation.name}}))
'''


def reset_tree(folder):
    if folder.exists():
        for base, dirs, _ in os.walk(folder):
            os.chmod(base, 0o755)
        shutil.rmtree(folder)


class Fakes:
    def __init__(self, ctx, folder):
        self.folder = folder
        shutil.rmtree(folder, ignore_errors=True)
        (folder / "site").mkdir(parents=True)
        (folder / "site" / "sitecustomize.py").write_text(SITE)
        self.log = folder / "started"
        self.log.write_text("")

    def started(self):
        return self.log.read_text().splitlines()

    def script(self, path, body, mode=0o755):
        path.parent.mkdir(parents=True, exist_ok=True)
        path.write_text(f"#!/bin/bash\necho \"$0\" >> '{self.log}'\n{body}\n")
        path.chmod(mode)
        return path

    def python(self, path, version, before=""):
        return self.script(path, f"export FAKE_PYTHON={version} PYTHONPATH='{self.folder}/site'\n{before}\nexec -a \"$0\" {REAL} \"$@\"")


def ask(python, cwd="/", env=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "PKM_", "VIRTUAL_"))}
    p = subprocess.run([str(python), "-c", ASK], capture_output=True, text=True, cwd=cwd, env={**e, **(env or {})})
    if p.returncode:
        raise RuntimeError(f"{python} fails: {p.stderr[-300:]}")
    return json.loads(p.stdout)


def landscape(ctx, r, fakes, folder):
    """a PATH and search paths with interpreters and whatever else may lie there -> (path entries, search paths, {executable: version}, other files)"""
    path, search, expected, others, shared = [], [], {}, set(), []
    for i in range(r.randint(1, 5)):
        d = folder / f"{r.choice(['bin', 'b in', 'bïn'])}{i}"
        kind = r.choice(["dir"] * 8 + ["missing", "file", "unreadable", "link", "empty", "relative"])
        if kind == "missing":
            path.append(str(d))
        elif kind == "file":
            d.parent.mkdir(parents=True, exist_ok=True)
            d.write_text("x")
            path.append(str(d))
        elif kind == "empty":
            path.append("")
        else:
            d.mkdir(parents=True)
            fill(ctx, r, fakes, d, expected if kind != "unreadable" or os.geteuid() == 0 else {}, others, shared, NAMES)
            if kind == "unreadable":
                d.chmod(0)
            if kind == "link":
                link = folder / f"link{i}"
                link.symlink_to(d)
                path += [str(link)] + [str(d)] * r.randint(0, 1)
            elif kind == "relative":
                path.append(os.path.relpath(d))
            else:
                path += [str(d)] * r.choice([1, 1, 2])
        ctx.event(f"entries of PATH: {kind}")
    for i in range(r.choice([0, 0, 1, 2])):
        d = folder / f"search{i}"
        kind = r.choice(["dir", "dir", "missing", "file", "home"])
        if kind == "file":
            d.write_text("x")
        elif kind == "dir":
            d.mkdir()
            for sub in r.sample(["", "3.9/bin", "envs/a/b/bin", "x y", "py"], r.randint(1, 3)):
                (d / sub).mkdir(parents=True, exist_ok=True)
                fill(ctx, r, fakes, d / sub, expected, others, shared, ["python"])
            if r.random() < .3:
                (d / "loop").symlink_to(d)
            if r.random() < .3:
                (d / "closed").mkdir()
                (d / "closed").chmod(0)
        if kind == "home":
            h = Path(os.environ["HOME"]) / f"pythons {folder.name} {i}"
            shutil.rmtree(h, ignore_errors=True)
            if r.random() < .5:
                fill(ctx, r, fakes, h, expected, others, shared, ["python"])
            search.append(f"~/{h.name}")
        else:
            search.append(str(d))
        ctx.event(f"search paths: {kind}")
    return path, search, expected, others


def fill(ctx, r, fakes, d, expected, others, shared, names):
    for name in sorted(set(r.sample(names, r.randint(0, min(3, len(names)))))) if len(names) > 1 else names:
        f = d / name
        kind = r.choice(["good"] * 6 + ["loud", "same", "same", "wrapper", "wrapper", "copy link", "fails", "silent", "killed", "one line", "garbage", "bytes", "no program", "no interpreter", "not executable",
                                        "directory", "dangling", "loop", "not python", "no path", "missing program"])
        ctx.event(f"candidates: {kind}")
        ctx.distinct("candidates", (kind, name))
        f.parent.mkdir(parents=True, exist_ok=True)
        if kind in ("good", "loud", "copy link"):
            v = r.choice(VERSIONS)
            if kind == "copy link":            # the interpreter lies elsewhere
                t = fakes.python(fakes.folder / "opt" / f"{len(list(fakes.folder.iterdir()))}-{r.random()}" / r.choice(["python3.9", "cpython"]), v)
                f.symlink_to(t)
            else:
                t = fakes.python(f, v, "echo warning >&2" if kind == "loud" else "")
            expected[str(t.resolve())] = v
            shared.append(t)
        elif kind == "same":
            f.symlink_to(r.choice(shared) if shared and r.random() < .7 else REAL)
        elif kind == "wrapper":                # as version managers have them: says that it is what it starts
            fakes.script(f, f"exec '{r.choice(shared) if shared and r.random() < .7 else REAL}' \"$@\"")
        elif kind == "fails":
            fakes.script(f, "echo 3.9.1; echo $0; exit 3")
        elif kind == "silent":
            fakes.script(f, "exit 0")
        elif kind == "killed":
            fakes.script(f, "kill -9 $$")
        elif kind == "one line":
            fakes.script(f, "echo 3.9.1")
        elif kind == "garbage":
            fakes.script(f, "for i in 1 2 3 4; do echo '<html>&'; done")
        elif kind == "bytes":
            fakes.script(f, "printf '\\xff\\xfe\\n\\x80\\n'")
        elif kind == "not python":
            fakes.script(f, "echo usage: $0; echo '  [options] file'")
        elif kind == "no path":
            fakes.script(f, "echo 3.9.1; echo")
        elif kind == "no program":
            f.write_bytes(b"\x7fELF\x00broken" * 3)
            f.chmod(0o755)
        elif kind == "no interpreter":
            f.write_text("#!/nonexistent/python\n")
            f.chmod(0o755)
        elif kind == "missing program":
            fakes.script(f, "exec /nonexistent/python \"$@\"")
        elif kind == "not executable":
            fakes.python(f, "3.9.1").chmod(0o644)
            others.add(str(f))
        elif kind == "directory":
            f.mkdir()
        elif kind == "dangling":
            f.symlink_to(d / "nothing")
        elif kind == "loop":
            f.symlink_to(f)
    if len(names) > 1:
        for name in r.sample(OTHERS, r.randint(0, 3)):
            if not (d / name).exists():
                fakes.python(d / name, "3.9.1")
                others.add(str(d / name))


def search(ctx, r, case, work):
    from pkm.api.environments.environment_builder import EnvironmentBuilder
    from pkm.api.environments.installed_pythons_locator import InstalledPythonsLocator
    from pkm.api.pkm import pkm
    from pkm.api.versions.version_specifiers import VersionSpecifier
    from pkm.utils.commons import NoSuchElementException
    folder = work / f"search {case}"
    reset_tree(folder)
    folder.mkdir(parents=True)
    fakes = Fakes(ctx, folder / "fakes")
    path, paths, expected, others = landscape(ctx, r, fakes, folder)
    real = str(Path(sys.executable).resolve())
    expected = {**expected, real: "%d.%d.%d" % sys.version_info[:3]}
    old = os.environ["PATH"]
    unset = r.random() < .08
    where = {"PATH": path, "search paths": paths, "interpreters": expected}
    if unset:
        expected = {real: expected[real]} if not paths else None
    try:
        if unset:
            del os.environ["PATH"]
        else:
            os.environ["PATH"] = os.pathsep.join(path)
        locator = InstalledPythonsLocator(paths) if r.random() < .8 or paths else InstalledPythonsLocator()
        try:
            found = locator.all_installed
        except Exception as e:
            return ctx.violation("search:crash", f"looking for interpreters fails: {short_tb(e)}", **where)
        finally:
            os.environ["PATH"] = old
        ctx.event("searches")
        ctx.evaluated((case, len(expected or ())), sample={k: repr(v)[:300] for k, v in where.items()})
        listed = [(str(it.interpreter), str(it.version)) for it in found]
        if expected is None:
            return
        if not ctx.check(len({p for p, _ in listed}) == len(listed), "search:twice", f"an interpreter is listed twice: {listed}", **where):
            return
        if not ctx.check(dict(listed) == expected, "search:wrong", f"installed are {expected}, listed {listed}", **where):
            return
        if not ctx.check([PV(v) for _, v in listed] == sorted((PV(v) for _, v in listed), reverse=True), "search:order", f"not the newest first: {listed}", **where):
            return
        ctx.check(not (odd := set(fakes.started()) & others), "search:started", f"programs that are no interpreters were started: {odd}", **where)
        ctx.event("programs started by a search", len(fakes.started()))
        ctx.distinct("sets of interpreters", tuple(sorted(v for _, v in listed)))
        for text in r.sample(SPECS, 5):
            spec = VersionSpecifier.parse(text) if text else VersionSpecifier.parse("*")
            want = sorted((p for p, v in expected.items() if PV(v) in SpecifierSet(text, prereleases=True)), key=lambda p: PV(expected[p]), reverse=True)
            if any(PV(expected[p]).is_prerelease for p in expected) and ("<" in text or "~" in text):
                want = None                    # whether a pre-release is before its release's bound: V03
            got = [str(it.interpreter) for it in locator.match(spec)]
            if want is not None:
                ctx.event("questions for a version")
                ctx.check(sorted(got) == sorted(want) and [PV(expected[p]) for p in got] == [PV(expected[p]) for p in want], "match:wrong", f"python {text!r} is fulfilled by {want}, listed {got}", **where)
        # the environment asked for
        text = r.choice(SPECS)
        spec = VersionSpecifier.parse(text or "*")
        best = [PV(v) for v in expected.values() if PV(v) in SpecifierSet(text, prereleases=True)]
        if any(PV(v).is_prerelease for v in expected.values()) and ("<" in text or "~" in text):
            return
        target = folder / "made" / "env"
        pkm.installed_pythons = locator
        try:
            env = EnvironmentBuilder.create_matching(target, spec)
        except NoSuchElementException:
            ctx.check(not best, "create:none", f"no interpreter for {text!r} though {best} are installed", **where)
            ctx.check(not target.exists(), "create:left", f"the folder of an environment that cannot be made exists")
            ctx.event("no interpreter for an environment")
            return
        except Exception as e:
            return ctx.violation("create:crash", f"an environment with python {text!r}: {short_tb(e)}", **where)
        if not ctx.check(bool(best), "create:wrong", f"an environment for {text!r} was made from {env.interpreter_path}", **where):
            return
        told = ask(target / "bin" / "python")
        ctx.check(PV(told["version"]) == max(best), "create:wrong", f"an environment for {text!r} has python {told['version']}, not {max(best)}", **where)
        ctx.event("environments made for a version")
    finally:
        os.environ["PATH"] = old
        for p in folder.rglob("closed"):
            p.chmod(0o755)
        for p in folder.iterdir():
            if p.is_dir():
                p.chmod(0o755)


def examine(ctx, env, root, version, base, label, real):
    """an environment against its own interpreter"""
    pth = Path(root).absolute()
    told = {}
    names = ["python", f"python{version.split('.')[0]}", "python" + ".".join(version.split(".")[:2])]
    for n in names:
        if not ctx.check((pth / "bin" / n).exists(), "env:names", f"{label}: has no bin/{n}: {sorted(p.name for p in (pth / 'bin').iterdir())}"):
            return None
        try:
            told[n] = ask(pth / "bin" / n)
        except Exception as e:
            ctx.violation("env:broken", f"{label}: bin/{n}: {e}")
            return None
    one = told["python"]
    here = [str(pth), os.path.realpath(pth)]
    for n, t in told.items():
        ctx.check(t["prefix"] in here and t["version"] == version, "env:prefix", f"{label}: bin/{n} has the prefix {t['prefix']} and version {t['version']}")
    ctx.check(all(p in (None,) or not p.startswith((*(h + os.sep for h in here),)) == False for p in [one["paths"]["purelib"], one["paths"]["scripts"], one["paths"]["data"] + os.sep]), "env:paths", f"{label}: installs to {one['paths']}")
    if real:
        inside = [p for p in one["path"] if p and "site-packages" in p or "dist-packages" in p]
        ctx.check(len(inside) >= 1 and all(p.startswith(tuple(h + os.sep for h in here)) for p in inside), "env:isolated", f"{label}: looks for packages in {inside}")
    ctx.check(not any(Path(one["paths"]["purelib"]).iterdir()) if Path(one["paths"]["purelib"]).exists() else False, "env:site", f"{label}: its site-packages {one['paths']['purelib']} is no empty folder")
    cfg = dict(tuple(x.strip() for x in l.split("=", 1)) for l in (pth / "pyvenv.cfg").read_text().splitlines() if "=" in l)
    ctx.check(cfg.get("include-system-site-packages", "").lower() == "false" and Path(cfg.get("home", "/-")) == base.parent and PV(cfg.get("version", "0")).release == PV(version).release, "env:cfg", f"{label}: pyvenv.cfg says {cfg}")
    if (pth / "lib64").is_symlink() or (pth / "lib64").exists():
        ctx.check(os.path.realpath(pth / "lib64") == os.path.realpath(pth / "lib"), "env:lib64", f"{label}: lib64 is {os.readlink(pth / 'lib64')}")
    knows(ctx, env, one, label)
    return one


def knows(ctx, env, told, label):
    """what pkm says about an environment is what its interpreter says"""
    try:
        target = env.installation_target
        said = {"version": str(env.interpreter_version), "markers": dict(env.markers), "purelib": target.purelib, "scripts": target.scripts, "data": target.data, "platlib": target.platlib}
    except Exception as e:
        return ctx.violation("env:unknown", f"{label}: reading what it is fails: {short_tb(e)}")
    ctx.event("environments described")
    ctx.check(said["version"] == ".".join(map(str, told["info"])), "env:version", f"{label}: pkm says version {said['version']}, the interpreter {told['info']}")
    for k in ("purelib", "scripts", "data", "platlib"):
        ctx.check(os.path.realpath(said[k]) == os.path.realpath(told["paths"][k]), "env:paths", f"{label}: pkm says {k} is {said[k]}, the interpreter {told['paths'][k]}")
    diff = {k: (said["markers"].get(k), v) for k, v in told["markers"].items() if said["markers"].get(k) != v}
    ctx.check(not diff, "env:markers", f"{label}: markers (pkm, interpreter): {diff}")


def creating(ctx, r, case, work):
    from pkm.api.environments.environment import Environment
    from pkm.api.environments.environment_builder import EnvironmentBuilder
    folder = work / f"create {case}"
    reset_tree(folder)
    folder.mkdir(parents=True)
    fakes = Fakes(ctx, folder / "fakes")
    kind = r.choice(["real", "real", "fake", "fake", "fake", "venv"])
    if kind == "real":
        base, version = REAL, "%d.%d.%d" % sys.version_info[:3]
        if r.random() < .4:
            base = folder / "python3"
            base.symlink_to(REAL)
    elif kind == "venv":
        base, version = Path(sys.executable), "%d.%d.%d" % sys.version_info[:3]
    else:
        version = r.choice(VERSIONS)
        base = fakes.python(folder / r.choice(["py", "p y"]) / "python3", version)
    shape = r.choice(["plain", "nested", "space", "unicode", "relative", "relative up", "through link", "slash"])
    root = {"plain": folder / "env", "nested": folder / "a" / "b" / "c", "space": folder / "e n v", "unicode": folder / "ënv", "relative": Path(os.path.relpath(folder / "env")),
            "relative up": folder / "x" / ".." / "env", "through link": folder / "link" / "env", "slash": Path(f"{folder}/env/")}[shape]
    if shape == "through link":
        (folder / "target").mkdir()
        (folder / "link").symlink_to(folder / "target")
    if shape == "relative up":
        (folder / "x").mkdir()
    label = f"environment of {kind} {base.name} {version} at {shape}"
    blocked = r.choice([None] * 7 + ["file", "folder", "env", "broken", "missing"])
    ctx.event(f"environments: {kind}")
    ctx.distinct("environments", (kind, shape, version, blocked))
    ctx.evaluated((kind, shape, version, blocked), sample={"environment": label})
    if blocked in ("file", "folder", "env"):
        root.parent.mkdir(parents=True, exist_ok=True)
        if blocked == "file":
            root.write_text("mine")
        elif blocked == "folder":
            root.mkdir()
            if r.random() < .7:
                (root / "mine").write_text("mine")
        else:
            EnvironmentBuilder.create(root, REAL)
    if blocked == "broken":
        base = fakes.script(folder / "bad" / "python3", r.choice(["exit 1", "echo nothing", "kill -9 $$", "echo '{}'"]))
    elif blocked == "missing":
        base = folder / "nowhere" / "python3"
    before = snapshot(folder)
    try:
        env = EnvironmentBuilder.create(root, base)
    except Exception as e:
        if blocked is None:
            return ctx.violation("create:crash", f"{label}: {short_tb(e)}")
        if blocked in ("file", "folder", "env"):
            ctx.check(isinstance(e, FileExistsError), "create:error", f"{label} over a {blocked}: {short_tb(e)}")
        d = [x for x in tree_diff(before, snapshot(folder)) if "started" not in str(x)]
        ctx.check(not d, "create:changed", f"{label}: could not be made ({blocked}) but changed {d}")
        ctx.event("refused to make an environment")
        return
    if blocked:
        return ctx.violation("create:over", f"{label}: was made although there is a problem ({blocked})")
    ctx.event("environments made")
    told = examine(ctx, env, root, version, base, label, kind != "fake")
    if told is None or ctx.violated:
        return
    ctx.check(Environment.is_venv_path(root) and not Environment.is_venv_path(root.parent), "env:is", f"{label}: is not recognized")
    again = r.choice([lambda: Environment(root), lambda: Environment.load(str(root)), lambda: Environment.of_interpreter(Path(root).absolute() / "bin" / "python")])()
    ctx.check(os.path.realpath(again.path) == os.path.realpath(root), "env:load", f"{label}: loaded as {again.path}")
    knows(ctx, again, told, f"{label}, loaded")
    activation(ctx, r, again, root, told, label)
    info = Path(root) / "etc" / "pkm" / "env_introspection.json"
    step = r.choice(["upgrade", "damage", "readonly", "remake", "move", "none"])
    ctx.event(f"later: {step}")
    if step == "upgrade" and kind == "fake":
        # the interpreter was replaced by its next patch release, in place
        version = version.split("rc")[0].split("a")[0].rsplit(".", 1)[0] + f".{r.randint(30, 40)}"
        fakes.python(base, version)
        told = ask(Path(root).absolute() / "bin" / "python")
        knows(ctx, Environment(root), told, f"{label} after its interpreter became {version}")
    elif step == "damage" and info.exists():
        info.write_bytes(r.choice([b"", b"{", b"[]", b"null", b"\xff\xfe", info.read_bytes()[:-50], b"{}", b"3"]))
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            knows(ctx, Environment(root), told, f"{label} with a damaged {info.name}")
    elif step == "readonly":
        shutil.rmtree(Path(root) / "etc", ignore_errors=True)
        os.chmod(root, 0o555)
        try:
            knows(ctx, Environment(root), told, f"{label} when it cannot be written")
        finally:
            os.chmod(root, 0o755)
    elif step == "remake" and kind != "venv":
        shutil.rmtree(root)
        version = r.choice(VERSIONS)
        base = fakes.python(folder / "other" / "python3", version)
        env = EnvironmentBuilder.create(root, base)
        examine(ctx, env, root, version, base, f"{label} made again with {version}", False)
    elif step == "move":
        new = folder / "moved"
        os.rename(Path(root), new)
        told = ask(new.absolute() / "bin" / "python")
        knows(ctx, Environment(new), told, f"{label} after it moved")


def activation(ctx, r, env, root, told, label):
    scripts = told["paths"]["scripts"]
    start = r.choice([{"PATH": "/usr/bin:/bin", "OTHER": "x"}, {"PATH": "/usr/bin:/bin", "VIRTUAL_ENV": "/some"}, {}, {"VIRTUAL_ENV": "", "PATH": ""}])
    given = dict(start)
    try:
        with env.activate(given):
            ctx.check(os.path.realpath(given["PATH"].split(os.pathsep)[0]) == os.path.realpath(scripts) and given["PATH"].split(os.pathsep)[1:] == ([p for p in start.get("PATH", "").split(os.pathsep)] if start.get("PATH") else []),
                      "activate:path", f"{label}: active PATH is {given['PATH']}, was {start.get('PATH')}")
            ctx.check(os.path.realpath(given["VIRTUAL_ENV"]) == os.path.realpath(root), "activate:env", f"{label}: VIRTUAL_ENV is {given['VIRTUAL_ENV']}")
            if r.random() < .5:
                with env.activate(given):
                    pass
                ctx.check(os.path.realpath(given["VIRTUAL_ENV"]) == os.path.realpath(root), "activate:nested", f"{label}: VIRTUAL_ENV is {given['VIRTUAL_ENV']} after a nested activation")
            if r.random() < .5:
                raise KeyError("failing inside")
    except KeyError as e:
        if "failing inside" not in str(e):
            return ctx.violation("activate:crash", f"{label}: {short_tb(e)} from {start}")
    except Exception as e:
        return ctx.violation("activate:crash", f"{label}: {short_tb(e)} from {start}")
    ctx.check(given == start, "activate:restore", f"{label}: left {given}, started from {start}")
    ctx.event("activations")
    out = Path(root).absolute() / "answer"
    before = dict(os.environ)
    p = env.run_proc(["python", "-c", ASK.replace("print(json.dumps(", "open(sys.argv[1], 'w').write(json.dumps(") + "\nsys.exit(5)", str(out)])
    ctx.check(p.returncode == 5 and dict(os.environ) == before, "run:status", f"{label}: a program with status 5 gave {p.returncode}, environment variables changed: {dict(os.environ) != before}")
    try:
        got = json.loads(out.read_text())
        out.unlink()
    except Exception as e:
        return ctx.violation("run:crash", f"{label}: a program that was run did nothing: {e!r}")
    ctx.check(got["prefix"] == told["prefix"] or os.path.realpath(got["prefix"]) == os.path.realpath(told["prefix"]), "run:python", f"{label}: 'python' was {got['executable']} with {got['prefix']}")
    ctx.event("programs run in an environment")


def attached(ctx, r, case, work):
    """the environments of projects and of environment zoos"""
    from pkm.api.environments.environment import Environment
    from pkm.api.environments.environments_zoo import EnvironmentsZoo
    from pkm.api.environments.installed_pythons_locator import InstalledPythonsLocator
    from pkm.api.pkm import pkm
    from pkm.api.projects.project import Project
    from pkm.api.versions.version_specifiers import VersionSpecifier
    from pkm.utils.commons import NoSuchElementException
    folder = work / f"attached {case}"
    reset_tree(folder)
    folder.mkdir(parents=True)
    fakes = Fakes(ctx, folder / "fakes")
    have = {}
    for v in r.sample(VERSIONS, r.randint(1, 4)):
        have[v] = fakes.python(folder / "pys" / v / "python", v)
    have["%d.%d.%d" % sys.version_info[:3]] = None
    old = os.environ["PATH"]
    os.environ["PATH"] = os.pathsep.join(str(p.parent) for p in have.values() if p)
    try:
        locator = InstalledPythonsLocator()
        locator.all_installed
    finally:
        os.environ["PATH"] = old
    pkm.installed_pythons = locator

    def best(text):
        fit = [PV(v) for v in have if PV(v) in SpecifierSet(text, prereleases=True)]
        return max(fit) if fit else None

    specs = [s for s in SPECS if not ("<" in s or "~" in s) or not any(PV(v).is_prerelease for v in have)]
    if case % 2:
        zoo_path = folder / "zoo"
        zoo_path.mkdir()
        zoo = EnvironmentsZoo.load(zoo_path)
        model, exported = {}, {}
        for _ in range(r.randint(3, 7)):
            op = r.choice(["create", "create", "create", "delete", "reload", "stray", "export", "export"])
            name = r.choice(["one", "two", "Three.3", "f our"])
            before = snapshot(zoo_path)
            ctx.event(f"zoo: {op}")
            if op == "create":
                text = r.choice(specs)
                try:
                    env = zoo.create_environment(name, VersionSpecifier.parse(text or "*"))
                    if not ctx.check(name not in model and best(text) is not None, "zoo:over", f"zoo: {name} {text!r} was made over {model}"):
                        return
                    model[name] = str(best(text))
                    ctx.check(env.zoo is zoo and env.path == zoo_path / name, "zoo:env", f"zoo: made {env.path} of {env.zoo}")
                except (FileExistsError, NoSuchElementException) as e:
                    ctx.check(name in model if isinstance(e, FileExistsError) else best(text) is None, "zoo:refuse", f"zoo: {name} {text!r} with {have} refused: {e!r}")
                    ctx.check(not tree_diff(before, snapshot(zoo_path)), "zoo:changed", "zoo: changed by an environment that could not be made")
                except Exception as e:
                    return ctx.violation("zoo:crash", f"zoo: {name} {text!r}: {short_tb(e)}")
            elif op == "delete" and name in model:
                zoo.delete_environment(name)
                del model[name]
            elif op == "export" and model:
                if not export(ctx, r, zoo, zoo_path, r.choice(sorted(model)), exported):
                    return
            elif op == "reload":
                zoo = EnvironmentsZoo.load(zoo_path)
            elif op == "stray":
                (zoo_path / "notes").mkdir(exist_ok=True)
                (zoo_path / "readme.txt").write_text("x")
                for n, links in (("half", ()), ("gone", ("python", "python3"))):     # an interrupted one, one whose interpreter was removed
                    (zoo_path / n / "bin").mkdir(parents=True, exist_ok=True)
                    (zoo_path / n / "pyvenv.cfg").write_text(f"home = /nowhere\nversion = 3.9.1\n")
                    for l in links:
                        if not os.path.lexists(zoo_path / n / "bin" / l):
                            (zoo_path / n / "bin" / l).symlink_to("/nowhere/python3")
                ctx.check(sorted(e.path.name for e in zoo.list()) == sorted(model), "zoo:list", f"zoo: lists what is no environment")
            listed = {e.path.name: str(PV(ask(e.path / "bin" / "python")["version"])) for e in zoo.list()}
            if not ctx.check(listed == model, "zoo:list", f"zoo: has {model}, lists {listed}"):
                return
            for n in ("one", "two"):
                try:
                    ctx.check(zoo.load_environment(n).path == zoo_path / n and n in model, "zoo:load", f"zoo: {n} loaded, has {model}")
                except NoSuchElementException:
                    ctx.check(n not in model, "zoo:load", f"zoo: {n} not found, has {model}")
        return
    where = folder / "project"
    where.mkdir()
    text = r.choice(specs)
    (where / "pyproject.toml").write_text("[project]\nname = \"Pr.oj\"\nversion = \"1.0\"\n" + (f"requires-python = {json.dumps(text)}\n" if text else ""))
    place = r.choice(["default", "path", "zoo"])
    target = where / ".venv"
    if place != "default":
        (where / "etc" / "pkm").mkdir(parents=True)
        at = folder / "elsewhere"
        if place == "zoo":
            at.mkdir()
            EnvironmentsZoo.load(at)
        (where / "etc" / "pkm" / "environments.toml").write_text(f"[attached-env]\n{place} = {json.dumps(str(at))}\n")
        target = at if place == "path" else at / "Pr.oj"
    ctx.event(f"project environments: {place}")
    state = r.choice(["nothing", "nothing", "environment", "dangling", "files", "empty"])
    keep = None
    if state == "environment":
        from pkm.api.environments.environment_builder import EnvironmentBuilder
        EnvironmentBuilder.create(target, REAL)
        (target / "keep").write_text("x")
        keep = snapshot(target)
    elif state == "dangling":
        from pkm.api.environments.environment_builder import EnvironmentBuilder
        gone = fakes.python(folder / "gone" / "python3", "3.9.1")
        EnvironmentBuilder.create(target, gone)
        gone.unlink()
    elif state == "files":
        (target / "deep").mkdir(parents=True)
        (target / "deep" / "mine.txt").write_text("x")
        keep = snapshot(target)
    elif state == "empty":
        target.mkdir(parents=True)
    ctx.event(f"project environments over: {state}")
    ctx.evaluated((place, state, text, tuple(sorted(have))))
    label = f"environment of a project (python {text!r}, {place}, {state})"
    before = snapshot(target)
    try:
        env = Project.load(where).attached_environment
    except NoSuchElementException:
        ctx.check(best(text) is None and state != "environment", "project:none", f"{label}: no interpreter though {best(text)} is installed")
        if state in ("files", "empty"):
            ctx.check(not tree_diff(before, snapshot(target)), "project:lost", f"{label}: {tree_diff(before, snapshot(target))}")
        ctx.event("no interpreter for a project")
        return
    except Exception as e:
        if state != "files":
            return ctx.violation("project:crash", f"{label}: {short_tb(e)}")
        ctx.check(not tree_diff(before, snapshot(target)), "project:lost", f"{label}: {short_tb(e)} and {tree_diff(before, snapshot(target))}")
        ctx.event("project environments kept from a folder with files")
        return
    if keep is not None and not ctx.check(not (d := [x for x in tree_diff(keep, snapshot(target)) if "env_introspection" not in str(x) and "etc" not in str(x)]), "project:lost", f"{label}: {d}"):
        return
    ctx.check(os.path.realpath(env.path) == os.path.realpath(target), "project:place", f"{label}: is at {env.path}")
    told = ask(target / "bin" / "python")
    want = PV("%d.%d.%d" % sys.version_info[:3]) if state == "environment" else best(text)
    ctx.check(want is not None and PV(told["version"]) == want, "project:wrong", f"{label}: has python {told['version']}, not {want}")
    knows(ctx, env, told, label)
    ctx.event("project environments observed")


def export(ctx, r, zoo, zoo_path, name, exported):
    """the scripts of an environment's package, made available in the zoo"""
    from pkm.utils.commons import NoSuchElementException
    env = zoo.load_environment(name)
    site, bin_ = Path(env.installation_target.purelib), Path(env.installation_target.scripts)
    package = r.choice(["pack", "other"])
    scripts = [f"{package}-run", f"{package}.x"]
    rows = []
    for s in scripts:
        (bin_ / s).write_text(f"#!/bin/sh\nexec '{bin_}/python' -c 'import sys; print(sys.prefix, \"{s}\", *sys.argv[1:])' \"$@\"\n")
        (bin_ / s).chmod(0o755)
        rows.append([os.path.relpath(bin_ / s, site), "", ""])
    di = site / f"{package}-1.0.dist-info"
    di.mkdir(exist_ok=True)
    (site / f"{package}.py").write_text("")
    (di / "METADATA").write_text(f"Metadata-Version: 2.1\nName: {package}\nVersion: 1.0\n")
    (di / "INSTALLER").write_text("pkm")
    (di / "RECORD").write_text("".join(",".join(x) + "\n" for x in [*rows, [f"{package}.py", "", ""], [f"{di.name}/METADATA", "", ""], [f"{di.name}/RECORD", "", ""]]))
    zoo_bin = zoo_path / ".zoo" / "bin"
    before = snapshot(zoo_bin)
    what = r.choice(["one", "all", "missing"])
    label = f"zoo: export {what} of {package} of {name}"
    try:
        if what == "one":
            zoo.export_script(name, scripts[0])
            exported[scripts[0]] = name
        elif what == "all":
            zoo.export_all_scripts(name, package)
            exported.update(dict.fromkeys(scripts, name))
        else:
            try:
                zoo.export_script(name, "nothing-like-it")
                return ctx.check(False, "zoo:export", f"{label}: accepted")
            except NoSuchElementException:
                ctx.check(not tree_diff(before, snapshot(zoo_bin)), "zoo:export", f"{label}: changed {tree_diff(before, snapshot(zoo_bin))}")
    except Exception as e:
        return ctx.check(False, "zoo:crash", f"{label}: {short_tb(e)}")
    if not ctx.check({p.name for p in zoo_bin.iterdir()} == set(exported), "zoo:export", f"{label}: the zoo has {sorted(p.name for p in zoo_bin.iterdir())}, exported {exported}"):
        return False
    start = r.choice([{}, {"PATH": "/usr/bin:/bin"}, {"PATH": ""}])
    given = dict(start)
    with zoo.activate(given):
        for s, n in exported.items():
            if not (zoo_path / n).exists():
                continue
            found = shutil.which(s, path=given["PATH"])
            out = found and subprocess.run([found, "a b"], capture_output=True, text=True).stdout.strip()
            if not ctx.check(out == f"{zoo_path / n} {s} a b", "zoo:exported", f"{label}: {s} of {n} says {out!r}"):
                return False
    ctx.event(f"zoo scripts exported: {what}")
    return ctx.check({k: v for k, v in given.items() if v} == {k: v for k, v in start.items() if v}, "zoo:activate", f"{label}: activation left {given} of {start}")


def run(ctx):
    ctx.rule = "Every interpreter that answers is found once, newest first; an environment is made of the interpreter asked for, isolated, and described as it is; nothing else is started, replaced or deleted"
    ctx.required_events = ["searches", "programs started by a search", "questions for a version", "environments made for a version", "environments made", "refused to make an environment", "environments described",
                           "activations", "programs run in an environment", "project environments observed", "zoo: create"]
    import pkm.api.pkm  # noqa
    work = Path(ctx.scratch) / "work"
    work.mkdir(exist_ok=True)
    os.environ.pop("VIRTUAL_ENV", None)
    parts = [search, creating, attached]
    more = ctx.budget(34, 780)
    case = 0
    while more():
        r = ctx.sub_rng("case", case)
        parts[case % 3](ctx, r, case // 3, work)
        for p in work.iterdir():
            if p.is_dir():
                reset_tree(p)
        case += 1
