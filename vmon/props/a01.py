"""A01: histories of containerized applications in real environments: what the interpreters of the host and of every application see, and
every file of the environment, is compared after each step with a model of what was installed where."""
import base64
import csv
import hashlib
import itertools
import json
import os
import re
import shutil
import subprocess
from pathlib import Path

from packaging.requirements import Requirement
from packaging.version import Version as PV

from vmon.core import short_tb
from vmon.world import make_env, reset_tree, snapshot, tree_diff, wheel_files, write_wheel, dist_dir

LIBS = ["alpha", "Be.ta", "gam-ma", "del_ta"]
APPS = ["app-one", "App.Two", "app_three"]
PLUGS = ["plug-a", "Plug.B"]
VERSIONS = ["1.0", "1.1", "2.0"]
SPECS = ["", "", ">=1.1", "<2", "<1.1", "==1.*", "!=2.0"]
SUFFIX = "-containerized"


def norm(n):
    return re.sub(r"[-_.]+", "-", n).lower()


def modname(n):
    return "vm_" + norm(n).replace("-", "_")


def spelled(r, n):
    return r.choice([n, n, n.lower(), n.upper(), re.sub(r"[-_.]", lambda m: r.choice("-_."), n)])


PROBE = r'''
import importlib, importlib.metadata as im, json, os, re, subprocess, sys
NAMES = %(names)r


def look():
    out = {"mods": {}, "dists": {}, "plugins": {}, "data": {}}
    for n in NAMES:
        m = "vm_" + n.replace("-", "_")
        try:
            out["mods"][n] = importlib.import_module(m).VERSION
        except ImportError:
            pass
        try:
            out["mods"][n + " sub"] = importlib.import_module(m + "_hidden").VERSION
        except ImportError:
            pass
        try:
            out["dists"][n] = im.version(n)
        except im.PackageNotFoundError:
            pass
        f = os.path.join(sys.prefix, "share", "vm", n + ".txt")
        if os.path.exists(f):
            out["data"][n] = open(f).read()
    for p in im.entry_points(group="vm.plugins"):
        out["plugins"][p.name] = p.load()()
    return out
'''
CLI = PROBE + r'''

def run(point):
    argv = sys.argv[1:]
    if argv[:1] == ["--child"]:
        print(json.dumps(look()))
        return 0
    out = look()
    out["point"], out["argv"], out["app"] = point, argv, VERSION
    out["prefix"] = sys.prefix
    out["input"] = sys.stdin.read()
    try:
        out["tool"] = {t: subprocess.run([t], capture_output=True, text=True).stdout.strip() for t in argv[1].split(",") if t}
    except Exception as e:
        out["tool"] = repr(e)
    child = subprocess.run([sys.executable, "-m", __name__, "--child"], capture_output=True, text=True)
    try:
        out["child"] = json.loads(child.stdout)
    except Exception:
        out["child"] = child.stderr[-300:]
    chain = json.loads(os.environ.pop("VM_CHAIN", "[]"))
    if chain:
        os.environ["VM_CHAIN"] = json.dumps(chain[1:])
        p = subprocess.run(chain[0], capture_output=True, text=True, input="given\n")
        try:
            out["next"] = json.loads(p.stdout)
            out["next"]["code"], out["next"]["err"] = p.returncode, p.stderr[-400:]
        except Exception:
            out["next"] = p.stdout[-300:] + p.stderr[-400:]
    print(json.dumps(out))
    code = argv[0]
    if code == "text":
        return "stopped here"
    if code == "exit":
        sys.exit(7)
    return None if code == "none" else int(code)


def main():
    return run("main")


class Outer:
    class Inner:
        @staticmethod
        def go():
            return run("go")


if __name__ == "__main__":
    sys.exit(run("module"))
'''


class World:
    """an index, its global repository configuration, and what its packages promise"""

    def __init__(self, r, folder):
        self.folder = folder
        shutil.rmtree(folder, ignore_errors=True)
        folder.mkdir(parents=True)
        self.r = r
        self.known = {}                        # norm -> {version: {"deps": [...], "scripts": {name: what}, "data": text or None}}
        self.files = {}
        self.name = {}
        self.waiting = []                      # what is released later
        libs = r.sample(LIBS, r.randint(2, 4))
        self.libs = libs
        names = []
        for i, n in enumerate(libs):
            traits = dict(pth=r.random() < .35, tool=r.random() < .4, data=r.random() < .4)
            below = libs[i + 1:]
            for v in sorted(r.sample(VERSIONS, r.choice([1, 2, 3])), key=PV):
                deps = [spelled(r, d) + r.choice(SPECS[:4]) for d in r.sample(below, min(len(below), r.choice([0, 0, 1])))]
                names.append((n, v, "lib", deps, traits))
        self.apps = r.sample(APPS, r.choice([1, 2, 2]))
        for n in self.apps:
            for v in sorted(r.sample(VERSIONS, r.choice([1, 2, 2])), key=PV):
                deps = [spelled(r, d) + r.choice(SPECS) for d in r.sample(libs, min(len(libs), r.choice([1, 2, 2, 3])))]
                names.append((n, v, "app", deps, {"data": r.random() < .4}))
            names.append((n, "0.9", "lib", [], {}))      # before it had scripts: what others may require in the host
        self.plugs = r.sample(PLUGS, r.choice([1, 2]))
        self.hostable = ["old-user"]
        names.append(("old-user", "1.0", "lib", [r.choice(self.apps) + "<1"], {}))
        for n in self.plugs:
            needs = r.choice([None, None, ""])
            if needs is None:
                self.hostable.append(n)
            for v in r.sample(VERSIONS, r.choice([1, 2])):
                deps = [spelled(r, d) + r.choice(SPECS) for d in r.sample(libs, r.choice([0, 1, 1]))]
                if needs is not None:
                    deps.append(r.choice(self.apps) + needs)
                names.append((n, v, "plug", deps, {"data": r.random() < .3}))
        self.all = sorted({norm(n) for n, *_ in names})
        versions = {}
        for n, v, *_ in names:
            versions.setdefault(n, []).append(v)
        for it in names:
            newest = max(versions[it[0]], key=PV)
            if it[1] == newest and it[1] != "0.9" and len(versions[it[0]]) > 1 and r.random() < .5:
                self.waiting.append(it)
            else:
                self.make(*it)

    def make(self, n, v, kind, deps, traits):
        r, top, key = self.r, modname(n), norm(n)
        files, eps = {}, {}
        one = {"deps": deps, "scripts": {}, "data": None, "kind": kind, "pth": False, "tool": None}
        if kind == "app":
            files[f"{top}/__init__.py"] = f"VERSION = {v!r}\n".encode()
            files[f"{top}/deep/__init__.py"] = b""
            files[f"{top}/deep/cli.py"] = (CLI.replace("%(names)r", repr(self.all)) + "").replace("\ndef run(", f"\nVERSION = {v!r}\n\n\ndef run(", 1).encode()
            pool = [f"{key}", f"{key}.go", f"{key}-more", f"{key}_more", f"Run{key}", f"{key}.x.y", ["class", "import", "lambda"][APPS.index(n)] if r.random() < .2 else f"{key}-2"]
            for s in r.sample(pool, r.choice([1, 2, 3])):
                what = r.choice(["main", "Outer.Inner.go"])
                eps.setdefault(r.choice(["console_scripts", "console_scripts", "gui_scripts"]), {})[s] = f"{top}.deep.cli:{what}"
                one["scripts"][s] = what.split(".")[-1]
        else:
            files[f"{top}/__init__.py"] = f"VERSION = {v!r}\n\n\ndef tool():\n    print({key + ' ' + v!r})\n\n\ndef hello():\n    return {key + ' ' + v!r}\n".encode()
        if kind == "plug":
            eps["vm.plugins"] = {key: f"{top}:hello"}
        if traits.get("tool"):
            eps["console_scripts"] = {f"tool-{key}": f"{top}:tool"}
            one["tool"] = f"tool-{key}"
        if traits.get("pth"):
            files[f"{top}_more/{top}_hidden.py"] = f"VERSION = {v!r}\n".encode()
            files[f"{top}.pth"] = f"{top}_more\n".encode()
            one["pth"] = True
        if traits.get("data"):
            one["data"] = f"data of {key} {v}"
            files[f"{dist_dir(n, v)}.data/data/share/vm/{key}.txt"] = one["data"].encode()
        write_wheel(self.folder, n, v, wheel_files(n, v, files, deps, entry_points=eps or None))
        self.known.setdefault(key, {})[v] = one
        self.name[key] = n

    def release(self):
        for it in self.waiting:
            self.make(*it)
        self.waiting = []

    def versions(self, key, spec):
        return sorted((v for v in self.known.get(key, {}) if spec.contains(v, prereleases=True)), key=PV)

    def solvable(self, requests):
        """whether some choice of versions fits; small worlds: all of them are tried"""
        def go(todo, chosen):
            if not todo:
                return True
            q, rest = todo[0], todo[1:]
            k = norm(q.name)
            if k in chosen:
                return chosen[k] in self.versions(k, q.specifier) and go(rest, chosen)
            return any(go(rest + [Requirement(d) for d in self.known[k][v]["deps"]], {**chosen, k: v}) for v in reversed(self.versions(k, q.specifier)))
        return go([Requirement(q) for q in requests], {})


def dists(site):
    """{normalized name: version} of the installed distributions of a site directory, by their METADATA"""
    out = {}
    for d in sorted(Path(site).glob("*.dist-info")):
        meta = (d / "METADATA").read_text().split("\n\n")[0]
        n = norm(re.search(r"^Name:\s*(\S+)", meta, re.M).group(1))
        v = re.search(r"^Version:\s*(\S+)", meta, re.M).group(1)
        if n in out:
            raise ValueError(f"{n} is installed twice: {out[n]} and {v}")
        out[n] = v
    return out


class App:
    def __init__(self, name, request, wrapped=True):
        self.name, self.key, self.request = name, norm(name), request
        self.host_key = self.key + (SUFFIX if wrapped else "")   # what holds the container in the host
        self.dirty = False                     # packages were installed in the container after the installation
        self.direct = None                     # the dependencies of a project that is its own container
        self.programs = True
        self.owned = set()
        self.kept = set()
        self.plugins = {}                      # norm -> request


class History:
    def __init__(self, ctx, r, world, env):
        self.ctx, self.r, self.w = ctx, r, world
        self.env = env
        self.root = Path(str(env.path))
        self.site = Path(str(env.installation_target.purelib))
        self.bin = Path(str(env.installation_target.scripts))
        self.apps = {}
        self.exposed = set()
        self.steps = []
        self.bad = False

    def fresh(self):
        from pkm.api.environments.environment import Environment
        self.env = Environment(self.env.path)
        return self.env

    def violation(self, key, msg):
        self.bad = True
        self.ctx.violation(key, msg, steps=self.steps[-8:], index={k: {v: o["deps"] for v, o in vs.items()} for k, vs in self.w.known.items()},
                           scripts={k: {v: o["scripts"] for v, o in vs.items() if o["scripts"]} for k, vs in self.w.known.items()})

    def check(self, cond, key, msg):
        if not cond and not self.bad:
            self.violation(key, msg)
        return cond

    def snap(self):
        return snapshot(self.root, skip=lambda rel: "__pycache__" in rel or rel.startswith("etc/pkm"))

    def container_dir(self, app):
        for d in sorted(self.site.iterdir()):
            if norm(d.name) in (app.host_key, app.host_key + SUFFIX) and (d / "__container__").is_dir():
                return d
        raise LookupError(f"no container directory of {app.name} in {self.site}")

    # -- steps ---------------------------------------------------------------------------------------------------------------------------------
    def step(self):
        r = self.r
        moves = ["host", "host-remove"]
        moves += ["install"] * (4 if len(self.apps) < len(self.w.apps) else 0)
        if self.apps:
            moves += ["plugin"] * 3 + ["again", "remove", "update", "update"]
            if any(a.plugins for a in self.apps.values()):
                moves += ["unplug"]
        if self.w.waiting:
            moves += ["release"]
        getattr(self, "do_" + r.choice(moves).replace("-", "_"))()

    def deps(self, texts):
        from pkm.api.dependencies.dependency import Dependency
        return [Dependency.parse(t) for t in texts]

    def do_release(self):
        from pkm.api.pkm import pkm
        self.w.release()
        pkm.clean_cache()
        self.steps.append("release of the new versions")
        self.ctx.event("new versions released")

    def do_host(self):
        n = self.r.choice(self.w.libs + self.w.hostable)
        q = spelled(self.r, n) + self.r.choice(SPECS)
        self.act(f"host: install {q}", lambda env: env.install(self.deps([q])), None, may_fail=True)

    def do_host_remove(self):
        have = [k for k in dists(self.site) if k not in self.holders()]
        if have:
            k = self.r.choice(have)
            self.act(f"host: uninstall {k}", lambda env: env.uninstall([k]), None)

    def do_install(self):
        n = self.r.choice([n for n in self.w.apps if norm(n) not in self.apps])
        q = spelled(self.r, n) + self.r.choice(SPECS)
        app = App(n, q)
        update = self.r.random() < .3
        ok = self.act(f"install --app {q} (update={update})", lambda env: env.package_containers.install(self.deps([q])[0], update=update), app, requests=[q])
        if ok:
            self.apps[app.key] = app
            app.scripts = self.w.known[app.key][dists(self.inner(app))[app.key]]["scripts"]
            self.ctx.event("application installed")
            self.contents(app, newest=True)

    def do_again(self):
        app = self.r.choice(list(self.apps.values()))
        have = dists(self.inner(app))[app.key]
        fits = [s for s in SPECS if Requirement("x" + s).specifier.contains(have)]
        q = spelled(self.r, app.name) + self.r.choice(fits)
        before = self.snap()
        self.act(f"install --app {q} (there already)", lambda env: env.package_containers.install(self.deps([q])[0]), app)
        if not self.bad:
            d = tree_diff(before, self.snap())
            self.check(not d, "changed-for-nothing", f"a second installation of {app.name}, which is there in a fitting version, changed {d}")
            self.ctx.event("application was there already")

    def do_update(self):
        app = self.r.choice(list(self.apps.values()))
        q = spelled(self.r, app.name) + self.r.choice(["", "", "", *SPECS])
        before = dists(self.inner(app))
        ok = self.act(f"install --app {q} (update)", lambda env: env.package_containers.install(self.deps([q])[0], update=True), app, requests=[q, *app.plugins.values()])
        if ok:
            app.request = q
            app.kept |= set(before)
            app.dirty = False
            app.scripts = self.w.known[app.key][dists(self.inner(app))[app.key]]["scripts"]
            self.ctx.event("application updated")
            if dists(self.inner(app))[app.key] != before[app.key]:
                self.ctx.event("application moved to another version")
            if app.plugins:
                self.ctx.event("application with plugins updated")
            self.contents(app, newest=True)

    def do_plugin(self):
        app = self.r.choice(list(self.apps.values()))
        n = self.r.choice(self.w.plugs)
        q = spelled(self.r, n) + self.r.choice(SPECS)
        had = dists(self.inner(app))
        ok = self.act(f"install --app {app.name} {q}", lambda env: self.container(env, app).installation_target.install(self.deps([q])), app,
                      requests=[app.request, q, *(x for k, x in app.plugins.items() if k != norm(n))])
        if ok:
            app.plugins[norm(n)] = q
            app.dirty = True
            app.kept |= set(had)
            self.ctx.event("plugin installed")
            self.contents(app)

    def do_unplug(self):
        app = self.r.choice([a for a in self.apps.values() if a.plugins])
        k = self.r.choice(list(app.plugins))
        ok = self.act(f"uninstall --app {app.name} {k}", lambda env: self.container(env, app).installation_target.uninstall([spelled(self.r, self.w.name[k])]), app)
        if ok:
            app.plugins.pop(k)
            app.dirty = True
            self.ctx.event("plugin uninstalled")
            self.contents(app)

    def do_remove(self, app=None):
        app = app or self.r.choice(list(self.apps.values()))
        how = self.r.choice(["container", "package"])
        if how == "container":
            op = lambda env: self.container(env, app).uninstall()
        else:
            op = lambda env: env.uninstall([re.sub("[-_]", self.r.choice("-_"), app.host_key)])
        before = self.snap()
        if self.act(f"uninstall --app {app.name} ({how})", op, app):
            self.apps.pop(app.key)
            after = self.snap()
            left = sorted(p for p in app.owned if p in after)
            self.check(not left, "left-behind", f"after {app.name} was uninstalled these files, which it had brought, are still there: {left[:6]}")
            self.ctx.event("application uninstalled")
            env = self.fresh()
            self.check(env.package_containers.container_of(app.name) is None, "still-reported", f"container_of({app.name!r}) after it was uninstalled")

    def holders(self, *more):
        return {a.host_key for a in [*self.apps.values(), *more]}

    def container(self, env, app):
        got = env.package_containers.container_of(spelled(self.r, app.name))
        if got is None:
            raise LookupError(f"container_of found no container of {app.name}")
        return got

    def inner(self, app):
        return self.container_dir(app) / "__container__" / "site"

    # -- the monitor ---------------------------------------------------------------------------------------------------------------------------
    def act(self, what, op, app, requests=None, may_fail=False):
        """one operation on one container (or on the host: app None); everything that belongs to others stays"""
        self.steps.append(what)
        before, hosted = self.snap(), dists(self.site)
        possible = requests is None or self.w.solvable(requests)
        env = self.fresh()
        try:
            op(env)
            failed = None
        except Exception as e:
            failed = e
        after = self.snap()
        changed = {p for p in before.keys() | after.keys() if before.get(p) != after.get(p)}
        if failed is not None:
            self.ctx.event("operation refused")
            self.steps[-1] += f" -> {type(failed).__name__}"
            if not (may_fail or not possible):
                self.violation("fails", f"{what} fails though there is a solution: {short_tb(failed)}")
            elif app is not None:
                real = {p for p in changed if not ((after.get(p) or before.get(p))[0] == "d")}
                self.check(not real, "failure-changes", f"{what} failed ({type(failed).__name__}) but changed {sorted(real)[:6]}")
            return False
        try:
            now = dists(self.site)
        except ValueError as e:
            self.violation("installed-twice", f"after {what} in the host {e}")
            return False
        theirs = {p: a for a in self.apps.values() if a is not app for p in a.owned}
        if app is None:
            touched = sorted(p for p in changed if p in theirs)
            self.check(not touched, "container-touched", f"{what} changed {touched[:5]} of the container of {theirs[touched[0]].name if touched else ''}")
            self.ctx.event("host changed next to containers", 1 if self.apps and changed else 0)
        else:
            wrong = sorted(p for p in changed if p in before and p not in app.owned and before[p][0] != "d")
            self.check(not wrong, "host-touched", f"{what} changed files that belong to others: {wrong[:5]}")
            app.owned = {p for p in app.owned if p in after} | {p for p in changed if p in after and p not in before} if not what.startswith("uninstall --app") else app.owned
            holders = self.holders(app)
            host = {k: v for k, v in now.items() if k not in holders}
            self.check(host == {k: v for k, v in hosted.items() if k not in holders}, "host-packages", f"{what} changed the packages of the host from {hosted} to {now}")
            self.ctx.event("host compared around a container operation")
        return not self.bad

    def contents(self, app, newest=False):
        """what is in the container: the application, what it and its plugins require, and nothing else"""
        try:
            have = dists(self.inner(app))
        except ValueError as e:
            return self.violation("installed-twice", f"in the container of {app.name} {e}")
        have.pop(app.key + SUFFIX, None)
        if app.direct is not None:
            self.check(have.pop(app.key, None) == app.request, "unsatisfied", f"the container of {app.name} {app.request} has {dists(self.inner(app))}")
        roots = app.direct + [*app.plugins.values()] if app.direct is not None else [app.request, *app.plugins.values()]
        seen, todo = set(), [Requirement(q) for q in roots]
        while todo:
            q = todo.pop()
            k = norm(q.name)
            if k not in have or have[k] not in self.w.versions(k, q.specifier):
                return self.violation("unsatisfied", f"the container of {app.name} has {have.get(k)} of {k} though {q} is required (requests {roots}, has {have})")
            if k not in seen:
                seen.add(k)
                todo += [Requirement(d) for d in self.w.known[k][have[k]]["deps"]]
        app.kept &= set(have) - seen            # an update leaves what nothing requires any more, as everywhere
        extra = set(have) - seen - app.kept
        self.check(not extra, "not-required", f"the container of {app.name} has {sorted(extra)}, which nothing requires or required (requests {roots}, has {have})")
        if newest and app.direct is None:
            q = Requirement(app.request)
            best = next(v for v in reversed(self.w.versions(app.key, q.specifier)) if self.w.solvable([f"{app.key}=={v}", *app.plugins.values()]))
            self.check(have[app.key] == best, "not-newest", f"{app.name} is {have[app.key]} in its container, the newest that fits {q} is {best}")
        self.ctx.event("container contents compared")
        self.ctx.distinct("container", json.dumps([app.key, sorted(have.items()), sorted(app.plugins)]))

    # -- what is seen --------------------------------------------------------------------------------------------------------------------------
    def look(self):
        if self.bad:
            return
        env = self.fresh()
        got = {norm(c.package.name): c for c in env.package_containers.containers()}
        self.check(sorted(got) == sorted(self.holders()), "containers", f"containers() reports {sorted(got)}, there are {sorted(self.apps)}")
        for n in [*self.w.libs, *self.w.apps]:
            if norm(n) not in self.apps:
                self.check(env.package_containers.container_of(spelled(self.r, n)) is None, "containers", f"container_of({n!r}) reports a container, there are those of {sorted(self.apps)}")
        expected = {}
        for app in self.apps.values():
            if self.bad:
                return
            have = dists(self.inner(app))
            try:
                c = self.container(env, app)
                p = c.containerized_package
                plugins = sorted(norm(x.name) for x in c.list_installed_plugins())
            except Exception as e:
                return self.violation("containers", f"the container of {app.name} cannot be asked: {short_tb(e)}")
            self.check((norm(p.name), str(p.version)) == (app.key, have[app.key]), "containers", f"containerized_package of {app.name} is {p.name} {p.version}, it is {have[app.key]}")
            self.check(plugins == sorted(app.plugins), "plugins-reported", f"list_installed_plugins of {app.name} gives {plugins}, installed are {sorted(app.plugins)}")
            for s, what in app.scripts.items():     # those of the version that was installed or updated to last
                expected[s] = (app, have, what)
        host = dists(self.site)
        host = {k: v for k, v in host.items() if k not in self.holders()}
        tools = {self.w.known[k][v]["tool"] for k, v in host.items() if k in self.w.known} - {None}
        there = {p.name for p in self.bin.iterdir()} - self.base_scripts
        self.check(there == set(expected) | tools | self.exposed, "scripts", f"the host has the scripts {sorted(there)}, the applications have {sorted(expected)} {sorted(self.exposed)} and the host's packages {sorted(tools)}")
        if self.bad:
            return
        self.see_host(dists(self.site))
        # not those whose version a plugin has replaced by one which does not have the script (see DESIGN.md)
        expected = {s: (app, have, what) for s, (app, have, what) in expected.items() if s in self.w.known[app.key][have[app.key]]["scripts"]}
        for s in self.r.sample(sorted(expected), min(2, len(expected))):
            self.see_app(s, *expected[s], host)
        if len({a.key for a, _, _ in expected.values()}) > 1 and not self.bad:
            # applications that start the scripts of other applications, and are started by those again
            chain = self.r.sample(sorted(expected), 2)
            chain += [chain[0]] * (self.r.random() < .6)
            self.see_chain([(s, *expected[s]) for s in chain], host)

    def environ(self, **more):
        e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "PKM_"))}
        e["PATH"] = "/usr/bin:/bin"
        return {**e, **({"PYTHONDONTWRITEBYTECODE": "1"} if self.r.random() < .6 else {}), **more}

    def see_host(self, host):
        code = PROBE.replace("%(names)r", repr(self.w.all)) + "\nout = look()\nout['all'] = sorted(d.metadata['Name'] for d in im.distributions())\nout['prefix'] = sys.prefix\nout['env'] = os.environ.get('PKM_PACKAGE_CONTAINER')\nprint(json.dumps(out))\n"
        p = subprocess.run([str(self.bin / "python"), "-c", code], capture_output=True, text=True, env=self.environ())
        if p.returncode or p.stderr:
            return self.violation("host-broken", f"the interpreter of the host fails: {p.stderr[-300:]}")
        out = json.loads(p.stdout)
        have = {k: v for k, v in host.items() if k in self.w.known and k not in self.holders()}
        self.check({k: v for k, v in out["mods"].items() if " " not in k} == have, "seen-from-host", f"in the host {out['mods']} can be imported, installed are {host}")
        self.check({norm(n) for n in out["all"]} == set(host), "seen-from-host", f"the host lists {out['all']}, installed are {sorted(host)}")
        self.check(set(out["plugins"]) == {k for k in have if self.w.known[k][have[k]]["kind"] == "plug"}, "seen-from-host", f"the host sees the plugins {out['plugins']}, installed are {host}")
        self.check(out["prefix"] == str(self.root) and out["env"] is None, "seen-from-host", f"prefix {out['prefix']}, PKM_PACKAGE_CONTAINER {out['env']}")
        self.ctx.event("host observed by its interpreter")

    def call(self, script, app, have):
        code = self.r.choice(["0", "3", "none", "exit", "text"])
        inside = {k: v for k, v in have.items() if k in self.w.all}
        tools = {self.w.known[k][v]["tool"]: f"{k} {v}" for k, v in inside.items() if app.programs and self.w.known[k][v]["tool"]}
        return inside, tools, [code, ",".join(tools), "a b", "--x=*", ""][:self.r.choice([2, 5])]

    def see_app(self, script, app, have, what, host):
        inside, tools, args = self.call(script, app, have)
        p = subprocess.run([str(self.bin / script), *args], capture_output=True, text=True, input="given\n", env=self.environ(), cwd=str(self.root.parent))
        label = f"script {script} of {app.name} {have[app.key]} (container {inside}, host {host})"
        try:
            out = json.loads(p.stdout)
        except ValueError:
            return self.violation("app-broken", f"{label} fails: {p.stdout[-200:]} {p.stderr[-400:]}")
        self.seen(label, out, p.returncode, p.stderr, app, have, what, host, inside, tools, args)

    def see_chain(self, hops, host):
        calls = [self.call(*hop[:3]) for hop in hops]
        commands = [[str(self.bin / hop[0]), *args] for hop, (_, _, args) in zip(hops, calls)]
        p = subprocess.run(commands[0], capture_output=True, text=True, input="given\n", env=self.environ(VM_CHAIN=json.dumps(commands[1:])), cwd=str(self.root.parent))
        path = " -> ".join(f"{s} of {a.name}" for s, a, _, _ in hops)
        try:
            out = json.loads(p.stdout)
        except ValueError:
            return self.violation("app-broken", f"{path} fails: {p.stdout[-200:]} {p.stderr[-400:]}")
        code, err = p.returncode, p.stderr
        for i, ((script, app, have, what), (inside, tools, args)) in enumerate(zip(hops, calls)):
            label = f"step {i} of {path} (container {inside}, host {host})"
            if not isinstance(out, dict):
                return self.violation("app-broken", f"{label} fails: {out}")
            nxt = out.get("next")
            self.seen(label, out, code, err, app, have, what, host, inside, tools, args, nested=i > 0)
            if self.bad:
                return
            if i:
                self.ctx.event("application observed when started by another one")
                self.ctx.distinct("applications starting others", (tuple(h[1].key for h in hops), i))
            if isinstance(out := nxt, dict):
                code, err = out["code"], out["err"]

    def seen(self, label, out, status, err, app, have, what, host, inside, tools, args, nested=False):
        code = args[0]
        want = {"0": 0, "3": 3, "none": 0, "exit": 7, "text": 1}[code]
        self.check(status == want, "exit-status", f"{label}: exit status {status}, its function gave {code!r}")
        self.check((out["point"], out["argv"], out["app"], out["input"]) == (what, args, have[app.key], "given\n"), "wrong-call", f"{label}: {out['point']} {out['argv']} {out['app']}, called {what} {args}")
        self.check(code != "text" or "stopped here" in err, "exit-status", f"{label}: message of exit not shown")
        for where, o in (("", out), (" in a child interpreter", out["child"])):
            if not isinstance(o, dict):
                return self.violation("child-broken", f"{label}: a child interpreter fails: {o}")
            mods = {k: o["mods"].get(k) for k in inside}
            self.check(mods == inside, "wrong-version", f"{label}{where}: imports {o['mods']}")
            hidden = {k: o["mods"].get(k + " sub") for k, v in inside.items() if self.w.known[k][v]["pth"]}
            self.check(all(v == inside[k] for k, v in hidden.items()), "wrong-version", f"{label}{where}: imports through path files {o['mods']}")
            self.check({k: o["dists"].get(k) for k in inside} == inside, "wrong-version", f"{label}{where}: sees the distributions {o['dists']}")
            plugs = {k: f"{k} {v}" for k, v in inside.items() if self.w.known[k][v]["kind"] == "plug"}
            others = {k: f"{k} {v}" for k, v in host.items() if k in self.w.known and self.w.known[k][v]["kind"] == "plug"}
            if nested:  # what the calling application has and this one has not is not specified
                o["plugins"] = {k: v for k, v in o["plugins"].items() if k in others or k in plugs}
            self.check(o["plugins"] == {**others, **plugs} or nested and plugs.items() <= o["plugins"].items(), "plugins-seen", f"{label}{where}: plugins {o['plugins']}")
            data = {k: self.w.known[k][v]["data"] for k, v in inside.items() if self.w.known[k][v]["data"]}
            self.check(o["data"] == data, "data-seen", f"{label}{where}: data {o['data']}, not {data}")
        self.check(out["tool"] == tools, "tools-seen", f"{label}: programs on PATH {out['tool']}, not {tools}")
        self.ctx.event("application observed by its script")
        self.ctx.evaluated((label, what, code, len(args)))
        if any(host.get(k, v) != v for k, v in inside.items()):
            self.ctx.event("application observed while the host has other versions")
        if plugs:
            self.ctx.event("plugin seen by its application")

    def records(self):
        for app in [a for a in self.apps.values() if not a.dirty]:
            info = list(self.site.glob("*.dist-info"))
            mine = [d for d in info if norm(d.name.split("-")[0]) == app.host_key]
            for d in mine:
                for row in csv.reader((d / "RECORD").read_text().splitlines()):
                    f = self.site / row[0]
                    if row[0].endswith("/RECORD") and row[0].count("/") == 1:
                        self.check(not row[1], "record", f"RECORD of {d.name} gives itself a hash: {row}")
                    if "__pycache__" in row[0] or not row[1] or not f.exists():
                        continue
                    algo, _, digest = row[1].partition("=")
                    data = f.read_bytes()
                    real = base64.urlsafe_b64encode(hashlib.new(algo, data).digest()).rstrip(b"=").decode()
                    self.check(real == digest and row[2] in ("", str(len(data))), "record", f"RECORD of {d.name}: {row} but the file has {real}, {len(data)} bytes")
                self.ctx.event("record compared")


PROJECT_MODES = ["project", "application", "sdist", "pip"]


def write_project(r, w, where, name, version, scripts, deps, mode, extra):
    top = re.sub(r"[-_.]+", "_", name)
    shutil.rmtree(where / "src", ignore_errors=True)
    files = {f"src/{top}/__init__.py": f"VERSION = {version!r}\n", f"src/{top}/deep/__init__.py": "",
             f"src/{top}/deep/cli.py": CLI.replace("%(names)r", repr(w.all)).replace("\ndef run(", f"\nVERSION = {version!r}\n\n\ndef run(", 1)}
    for k, v in files.items():
        (where / k).parent.mkdir(parents=True, exist_ok=True)
        (where / k).write_text(v)
    text = f"[project]\nname = {json.dumps(name)}\nversion = {json.dumps(version)}\n"
    if mode != "application":
        text += f"dependencies = {json.dumps(deps)}\n"
    text += "[project.scripts]\n" + "".join(f"{json.dumps(k)} = \"{top}.deep.cli:{'main' if v == 'main' else 'Outer.Inner.go'}\"\n" for k, v in scripts.items())
    if mode == "application":
        text += f"[tool.pkm.application]\ncontainerized = true\ndependencies = {json.dumps(deps)}\ndependency-overwrites = {{}}\nexposed-packages = {json.dumps(extra)}\n"
    elif mode in ("sdist", "pip"):
        text += "[tool.pkm.distribution]\ntype = \"cnt-app\"\n"
    text += "[build-system]\nrequires = [\"pkm\"]\nbuild-backend = \"pkm.api.buildsys\"\n"
    (where / "pyproject.toml").write_text(text)


def projects(ctx, case, env, folder):
    """projects as containerized applications: installed from where they are, or through the source distribution that they publish"""
    import pkm as pkm_module
    import sys
    from pkm.api.packages.package_installation_info import StoreMode
    from pkm.api.pkm import pkm
    from pkm.api.projects.project import Project
    r = ctx.sub_rng("project", case)
    mode = PROJECT_MODES[case % len(PROJECT_MODES)]
    w = World(r, folder)
    w.release()
    build = Path(ctx.scratch) / "work" / "build-index"
    shutil.rmtree(build, ignore_errors=True)
    source = os.path.dirname(list(pkm_module.__path__)[0])
    write_wheel(folder, "pkm", "0.1", wheel_files("pkm", "0.1", {"shim_pkm.pth": f"{source}\n{os.path.dirname(os.path.dirname(json_site()))}\n".encode()}))
    pkm.clean_cache()
    h = History(ctx, r, w, env)
    h.base_scripts = {p.name for p in h.bin.iterdir()}
    name = r.choice(["vm-tool", "Vm.Tool", "vm_tool"])
    where = Path(ctx.scratch) / "work" / f"project {case}"
    shutil.rmtree(where, ignore_errors=True)
    where.mkdir()
    app = None
    # a host with its own versions
    for n in r.sample(w.libs, 2):
        h.act(f"host: install {n}", lambda e: e.install(h.deps([n])), None, may_fail=True)
    pool = ["vm-run", "vm.run", "Vm_Run", "run-it"]
    for version in ["1.0", "1.2"][:1 if mode == "pip" else 2]:
        for _ in range(40):
            deps = [spelled(r, d) + r.choice(SPECS) for d in r.sample(w.libs, r.choice([1, 2, 2]))]
            plugins = list(app.plugins.values()) if app else []
            if w.solvable([*deps, *plugins]):
                break
        else:
            break
        scripts = {s: r.choice(["main", "go"]) for s in r.sample(pool, r.choice([1, 2]))}
        exposed = [k for k in (norm(Requirement(d).name) for d in deps) if k not in dists(h.site)] if mode == "application" and r.random() < .7 else []
        write_project(r, w, where, name, version, scripts, deps, mode, exposed)
        w.known.setdefault(norm(name), {})[version] = {"deps": deps, "scripts": scripts, "data": None, "kind": "app", "pth": False, "tool": None}
        w.name[norm(name)] = name
        if app is None:
            app = App(name, version, wrapped=mode == "project")
            app.direct = deps
        app.request, app.direct, app.scripts = version, deps, dict(scripts)
        pkm.clean_cache()                      # what was loaded of the previous version
        try:
            prj = Project.load(where)
            if mode in ("sdist", "pip"):
                prj.attached_environment
                made = prj.build(Path(ctx.scratch) / "work" / f"out {case} {version}")
                h.check([p.name.endswith(".tar.gz") for p in made] == [True], "distribution", f"a cnt-app project builds {[p.name for p in made]}")
                if h.bad:
                    return
                shutil.copy(made[0], folder)
                pkm.clean_cache()
        except Exception as e:
            return h.violation("fails", f"{mode} {name} {version} (requires {deps}): {short_tb(e)}")
        if mode in ("project", "application"):
            store = r.choice([StoreMode.AUTO, StoreMode.COPY])
            op = lambda e: e.package_containers.install(prj, store_mode=store, update=version != "1.0" or r.random() < .5)
            what = f"install --app {name} {version} from its project ({mode}, {store.name}, requires {deps})"
        elif mode == "sdist":
            op = lambda e: e.install(h.deps([name]), updates=[prj.descriptor.name_key])
            what = f"install {name} {version} from its cnt-app source distribution (requires {deps})"
            app.programs = False               # the programs in the container start the interpreter of the building environment
        else:
            def op(e):
                p = subprocess.run([sys.executable, "-m", "pip", "--python", str(h.bin / "python"), "install", "-q", "--no-index", "--no-cache-dir", "--disable-pip-version-check",
                                    "--find-links", str(folder), name], capture_output=True, text=True, env={**os.environ, "PYTHONPATH": ""})
                if p.returncode:
                    raise RuntimeError(f"pip fails: {p.stderr[-900:]}")
            what = f"pip install {name} {version} from its cnt-app source distribution (requires {deps})"
            app.programs = False
        had = set(dists(h.inner(app))) if norm(name) in h.apps else set()
        if version != "1.0":
            app.kept |= had
        app.owned_before = set(app.owned)
        if mode == "sdist" and version != "1.0":
            app.kept, app.plugins = set(), {}
        if not h.act(what, op, app):
            return
        h.apps[app.key] = app
        app.dirty = False
        h.contents(app)
        if mode == "application":
            app.scripts = {**scripts}
        h.exposed = {w.known[k][v]["tool"] for k, v in dists(h.inner(app)).items() if k in exposed and k in w.known} - {None}
        h.look()
        if h.bad:
            return
        h.records()
        ctx.event(f"project installed: {mode}")
        if version != "1.0":
            ctx.event(f"project updated: {mode}")
        if mode != "pip" and version == "1.0":
            for _ in range(2):
                h.do_plugin()
            h.look()
    if not h.bad and app is not None and app.key in h.apps:
        h.do_remove(app)


def json_site():
    import packaging
    return packaging.__file__


def run(ctx):
    ctx.rule = "after every operation the host, the other containers and every application see exactly what was installed there"
    ctx.required_events = ["application installed", "application updated", "plugin installed", "plugin uninstalled", "application uninstalled", "application was there already",
                           "application observed by its script", "application observed while the host has other versions", "plugin seen by its application",
                           "host observed by its interpreter", "host changed next to containers", "new versions released", "record compared", *(f"project installed: {m}" for m in PROJECT_MODES)]
    home = Path(os.environ["XDG_DATA_HOME"]) / "pkm"
    folder = Path(ctx.scratch) / "work" / "index"
    folder.mkdir(parents=True, exist_ok=True)
    (home / "etc/pkm").mkdir(parents=True, exist_ok=True)
    (home / "etc/pkm/repositories.toml").write_text(f"[repos.local]\ntype = \"file-system\"\npath = {json.dumps(str(folder))}\n")
    from pkm.api.environments.environment import Environment
    from pkm.api.pkm import pkm
    assert str(pkm.home) == str(home), pkm.home
    env = make_env(ctx, "env")
    Environment.current = classmethod(lambda cls, *a, **k: env)
    baseline = snapshot(env.path)
    for case in range(ctx.pick(4, 40)):
        reset_tree(Path(str(env.path)), baseline)
        projects(ctx, case, env, folder)
    more = ctx.budget(40, 600)
    for case in range(ctx.pick(9, 200)):
        if not more():
            break
        r = ctx.sub_rng("history", case)
        reset_tree(Path(str(env.path)), baseline)
        w = World(r, folder)
        pkm.clean_cache()
        h = History(ctx, r, w, env)
        h.base_scripts = {p.name for p in h.bin.iterdir()}
        for _ in range(r.randint(6, 12)):
            h.step()
            if h.bad:
                break
            if r.random() < .6:
                h.look()
        h.look()
        if not h.bad:
            h.records()
        for app in list(h.apps.values()):
            if h.bad:
                break
            h.do_remove(app)
        ctx.event("history")
