"""I02: histories of install / update / uninstall over a real environment, compared after every step with a file-ownership model."""
import os
import pathlib
import warnings

from vmon import core, world
from vmon.core import outcome, short_tb
from vmon.props.i01 import canon, expected_files

NAMES = ["alpha", "My-Pkg", "zope.thing", "under_score", "al", "alpha-two"]


def files_of(snap):
    return {k for k, v in snap.items() if v != ("d",)}


def foreign_install(rng, w, root, site):
    """what another installer (as PEP 376 / 427 describe) leaves behind: no compiled files in the record, absolute or relative rows"""
    rows = []
    for rel, content in list(w.site.items()) + [("@" + k, v) for k, v in w.data.items()] + [("@bin/" + k, v) for k, v in w.scripts.items()]:
        p = root / rel[1:] if rel.startswith("@") else root / site / rel
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(content)
        name = os.path.relpath(str(p), str(root / site))
        if rng.random() < .1:
            name = str(p)
        rows.append([name] + world.record_line(rel, content)[1:])
    rows.append([f"{w.di}/RECORD", "", ""])
    rows.append([f"{w.di}/INSTALLER", "", ""])
    (root / site / w.di / "INSTALLER").write_text("other")
    (root / site / w.di / "RECORD").write_text(world.csv_text(rows))


def run(ctx):
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.distributions.wheel_distribution import WheelDistribution
    from pkm.api.environments.environment import Environment
    from pkm.api.packages.package import Package, PackageDescriptor
    from pkm.api.packages.package_installation_info import StoreMode
    from pkm.api.versions.version import Version

    class WheelPackage(Package):
        def __init__(self, name, version, path):
            self._d, self._p = PackageDescriptor(name, Version.parse(version)), path

        @property
        def descriptor(self):
            return self._d

        def dependencies(self, target, extras=None):
            return []

        def is_compatible_with(self, env):
            return True

        def install_to(self, target, user_request=None, store_mode=StoreMode.AUTO):
            WheelDistribution(self._d, self._p).install_to(target, user_request)

    ctx.rule = ("random histories of install / update / uninstall / force-remove (packages of pkm and of another installer) with foreign files, shared namespace "
                "directories, links and compiled files around; after each step the real tree is compared with a model of which package owns which file")
    ctx.required_events = ["install", "update", "uninstall", "foreign_package_uninstalled", "namespace_shared", "foreign_file_kept", "restored_exactly", "link_package", "via_link"]
    rng = ctx.rng
    env0 = world.make_env(ctx)
    root = pathlib.Path(env0.path)
    link_root = root.parent / "envlink"
    link_root.symlink_to(root)
    base = world.snapshot(root)
    wheels = pathlib.Path(ctx.scratch) / "work" / "wheels"
    n = ctx.pick(90, 900)
    budget = ctx.budget(50, 600)
    hist = 0
    while hist < n and budget():
        world.reset_tree(root, base)
        via = link_root if rng.random() < .2 else root
        if via is link_root:
            ctx.event("via_link")
        env = Environment(via)
        tgt = env.installation_target
        site = os.path.relpath(os.path.realpath(tgt.purelib), str(root))
        owned, request, pyfiles = {}, {}, {}
        foreign = set()
        log = []
        for step in range(rng.randrange(3, 9)):
            before = world.snapshot(root)
            op = rng.choice(["install", "install", "update", "uninstall", "uninstall", "foreign", "pyc"])
            tag = f"seed {ctx.seed} history {hist} {log} -> "
            free = [x for x in NAMES if x not in owned]
            if op == "foreign":
                # files of nobody, next to and inside the directories of packages
                dirs = sorted({os.path.dirname(f) for o in owned.values() for f in o if "dist-info" not in f and "__pycache__" not in f} | {site, "share", f"{site}/nsp"})
                for d in rng.sample(dirs, min(2, len(dirs))):
                    rel = os.path.join(d, rng.choice(["user_file.txt", "user_mod.py", "zzz/user_deep.txt"]))
                    p = root / rel
                    p.parent.mkdir(parents=True, exist_ok=True)
                    p.write_text("user")
                    foreign.add(rel)
                    if rel.endswith(".py") and rng.random() < .6:
                        import py_compile
                        c = py_compile.compile(str(p))
                        foreign.add(os.path.relpath(c, str(root)))
                log.append("foreign")
                continue
            if op == "pyc":
                # the interpreter wrote further compiled files for installed modules (not recorded)
                mods = [f for o in owned.values() for f in o if f.endswith(".py") and (root / f).is_file()]
                if mods:
                    m = rng.choice(mods)
                    p = root / m
                    import importlib.util as iu
                    c = pathlib.Path(iu.cache_from_source(str(p), optimization=rng.choice(["", 1])))
                    if os.path.relpath(str(c), str(root)) not in before:
                        c.parent.mkdir(exist_ok=True)
                        c.write_bytes(b"x")
                        pyfiles[os.path.relpath(str(c), str(root))] = m
                log.append("pyc")
                continue
            if op == "install" and free:
                name = rng.choice(free)
                version = rng.choice(["1.0", "1.5"])
                w = world.gen_wheel(rng, name, version, shared_ns="nsp" if rng.random() < .5 else None)
                outsider = rng.random() < .25
                log.append(f"install {name} {version}{' (other installer)' if outsider else ''}")
                if outsider:
                    if rng.random() < .5:
                        w.members = dict(w.members)
                    foreign_install(rng, w, root, site)
                    if rng.random() < .4:
                        # the package ships a link (recorded), pointing to a file of its own or of nobody
                        target_file = root / "share" / "user_target.txt"
                        if not target_file.exists():
                            target_file.parent.mkdir(exist_ok=True)
                            target_file.write_text("user")
                            foreign.add("share/user_target.txt")
                        lp = root / site / f"{canon(name).replace('-', '_')}_link"
                        lp.symlink_to(target_file)
                        rec = root / site / w.di / "RECORD"
                        rec.write_text(rec.read_text() + f"{lp.name},,\n")
                        ctx.event("link_package")
                    after = world.snapshot(root)
                    owned[name] = (files_of(after) - files_of(before)) - foreign
                    request[name] = "foreign"
                    env.reload()
                    tgt.reload()
                    env.site_packages.reload()
                    continue
                req = Dependency.parse(name) if rng.random() < .5 else None
                whl = w.write(wheels)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    k, res = outcome(lambda: WheelPackage(name, version, whl).install_to(tgt, req))
                env.site_packages.reload()
                tgt.reload()
                if not ctx.check(k == "ok", "install-failed", f"{tag}{log[-1]}: {short_tb(res, 5) if k == 'err' else ''}"):
                    break
                after = world.snapshot(root)
                lost = sorted(f for f in files_of(before) if after.get(f) != before[f])
                ctx.check(not lost, "install-collateral", f"{tag}{log[-1]}: changed other files {lost[:4]}")
                owned[name] = files_of(after) - files_of(before)
                request[name] = str(req) if req else None
                ctx.event("install")
            elif op == "update" and owned:
                name = rng.choice(sorted(owned))
                version = rng.choice(["2.0", "2.5", "0.5"])
                w = world.gen_wheel(rng, name, version, shared_ns="nsp" if rng.random() < .5 else None)
                log.append(f"update {name} {version}")
                whl = w.write(wheels)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    k, res = outcome(lambda: WheelPackage(name, version, whl).update_at(tgt))
                env.site_packages.reload()
                tgt.reload()
                if not ctx.check(k == "ok", "update-failed", f"{tag}{log[-1]}: {short_tb(res, 5) if k == 'err' else ''}"):
                    break
                after = world.snapshot(root)
                others = files_of(before) - owned[name] - {p for p, m in pyfiles.items() if m in owned[name]}
                lost = sorted(f for f in others if after.get(f) != before[f])
                ctx.check(not lost, "update-collateral", f"{tag}{log[-1]}: lost or changed {lost[:4]}")
                new = files_of(after) - others
                new -= {p for p, m in pyfiles.items() if p in new and m in owned[name]}
                expect, _ = expected_files(w, env, tgt)
                expect = {os.path.relpath(os.path.realpath(str(root / os.path.dirname(e))), str(root)) + "/" + os.path.basename(e) if via is link_root else e: v for e, v in expect.items()}
                stale = sorted(f for f in new if f in owned[name] and f not in expect and "__pycache__" not in f and f"{site}/{w.di}/" not in f
                               and not f.startswith(world.header_dir(w)) and not (f.startswith("bin/") and f[4:] in w.script_tokens))
                ctx.check(not stale, "update-stale", f"{tag}{log[-1]}: files of the replaced version remain: {stale[:4]}")
                missing = sorted(f for f in expect if f not in after)
                ctx.check(not missing, "update-missing", f"{tag}{log[-1]}: files of the new version are missing: {missing[:4]}")
                infos = sorted(d for d in os.listdir(root / site) if d.endswith(".dist-info") and canon(d.split("-")[0]) == canon(name))
                ctx.check(infos == [w.di], "update-dist-info", f"{tag}{log[-1]}: dist-info directories {infos}")
                got = env.site_packages.installed_package(name)
                ctx.check(got is not None and str(got.version) == version, "update-version", f"{tag}{log[-1]}: reported {got}")
                if request[name] != "foreign":
                    ctx.check((got.user_request is not None) == (request[name] is not None), "update-request",
                              f"{tag}{log[-1]}: request mark {request[name]} became {got.user_request}")
                owned[name] = new
                if request[name] == "foreign":
                    request[name] = None
                ctx.event("update")
            elif op == "uninstall" and owned:
                name = rng.choice(sorted(owned))
                how = rng.choice(["uninstall", "force_remove"])
                spelled = rng.choice([name, name.lower().replace("-", "_"), name.upper().replace("_", "-")])
                log.append(f"{how} {spelled}")
                if how == "uninstall":
                    pk = env.site_packages.installed_package(spelled)
                    if not ctx.check(pk is not None, "not-found", f"{tag}{log[-1]}: installed package is not found"):
                        break
                    k, res = outcome(pk.uninstall)
                else:
                    k, res = outcome(lambda: tgt.force_remove(spelled))
                    ctx.check(k == "err" or res is True, "not-found", f"{tag}{log[-1]}: force_remove returned {res}")
                if not ctx.check(k == "ok", "uninstall-failed", f"{tag}{log[-1]}: {short_tb(res, 5) if k == 'err' else ''}"):
                    break
                after = world.snapshot(root)
                mine = owned.pop(name)
                others = files_of(before) - mine - {p for p, m in pyfiles.items() if m in mine}
                lost = sorted(f for f in others if after.get(f) != before[f])
                ctx.check(not lost, "uninstall-collateral", f"{tag}{log[-1]}: lost or changed {lost[:4]}")
                left = sorted((files_of(after) & mine))
                ctx.check(not left, "uninstall-leftover", f"{tag}{log[-1]}: files remain {left[:4]}")
                pyfiles = {p: m for p, m in pyfiles.items() if m not in mine}
                nonempty_after = {os.path.dirname(f) for f in after}
                nonempty_before = {os.path.dirname(f) for f in before}
                keep = {site, "bin", "lib", "lib/python3", "include", "share", "etc"}
                empties = sorted(d for d, v in after.items() if v == ("d",) and d not in nonempty_after and d in nonempty_before and d not in keep)
                ctx.check(not empties, "uninstall-empty-dirs", f"{tag}{log[-1]}: directories left empty {empties[:4]}")
                env.site_packages.reload()
                gone = env.site_packages.installed_package(name)
                ctx.check(gone is None, "uninstall-reported", f"{tag}{log[-1]}: still reported {gone}")
                ctx.event("uninstall")
                if request.pop(name) == "foreign":
                    ctx.event("foreign_package_uninstalled")
                if foreign & set(after):
                    ctx.event("foreign_file_kept")
                if any("/nsp/" in f for f in after):
                    ctx.event("namespace_shared")
            else:
                continue
            ctx.evaluated((op, tuple(log)), {"history": list(log)})
            ctx.check(not core.ESCAPES, "escape", f"{tag}: touched {core.ESCAPES[:3]}")
            if ctx.violated:
                break
        # remove the rest: the target has to come back to what it was, plus the foreign files
        for name in sorted(owned):
            pk = env.site_packages.installed_package(name)
            if pk:
                outcome(pk.uninstall)
        end = world.snapshot(root)
        extra = sorted(f for f in files_of(end) - files_of(base) if f not in foreign and f not in pyfiles)
        missing = sorted(f for f in (files_of(base) | foreign) if f not in end)
        ctx.check(not extra and not missing, "not-restored", f"seed {ctx.seed} history {hist} {log}: after removing everything: left {extra[:4]}, lost {missing[:4]}")
        ctx.event("restored_exactly")
        hist += 1
