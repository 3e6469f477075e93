"""I01: generated wheels are installed by pkm into a real environment; full tree snapshots and the record are judged by an independent model."""
import csv
import hashlib
import os
import pathlib
import subprocess
import sys

from vmon import core, world
from vmon.core import outcome, short_tb
from vmon.world import b64

NAMES = ["alpha", "My-Pkg", "zope.thing", "under_score", "x1", "A.B-c_d", "UPPER"]
VERSIONS = ["1.0", "2.3.1", "0.1a1", "1.0.post2", "1!2.0", "3.0+local.1", "4.0.dev1"]
REQUESTS = [None, "{n}", "{n} >=0", "{n} [test]"]


def canon(s):
    import re
    return re.sub(r"[-_.]+", "-", s).lower()


def expected_files(w, env, tgt):
    """{relative path in the environment: (kind, content)}"""
    root = pathlib.Path(env.path)
    rel = lambda p: os.path.relpath(str(p), str(root))
    site = rel(tgt.purelib)
    out = {f"{site}/{k}": ("file", v) for k, v in w.site.items()}
    out.update({k: ("file", v) for k, v in w.data.items()})
    out.update({f"bin/{k}": ("script", v) for k, v in w.scripts.items()})
    return out, site


def check_record(ctx, w, root, site, installed, tag):
    path = root / site / w.di / "RECORD"
    if not path.exists():
        return ctx.violation("record-missing", f"{tag}: no RECORD after installation")
    with path.open(newline="") as f:
        rows = [r for r in csv.reader(f) if r]
    listed = {}
    for r in rows:
        if len(r) != 3:
            return ctx.violation("record-row", f"{tag}: malformed row {r}")
        p = os.path.normpath(os.path.join(str(root / site), r[0]))
        listed[os.path.relpath(p, str(root))] = r
    for rel in installed:
        ctx.check(rel in listed, "record-incomplete", f"{tag}: installed file {rel} is not in RECORD")
    for rel, r in listed.items():
        p = root / rel
        base = os.path.basename(rel)
        if not ctx.check(p.is_file(), "record-dangling", f"{tag}: RECORD lists {r[0]!r}, which does not exist"):
            continue
        own = os.path.dirname(rel) == f"{site}/{w.di}" and base in ("RECORD", "REQUESTED", "INSTALLATION_MODE")
        ctx.check(own or (r[1] and r[2]), "record-unsigned", f"{tag}: RECORD row without hash or size {r}")
        data = p.read_bytes()
        if own and base == "RECORD":
            continue
        if r[1]:
            algo, _, dig = r[1].partition("=")
            ctx.check(b64(hashlib.new(algo, data).digest()) == dig, "record-hash", f"{tag}: wrong hash of {rel} in RECORD")
        if r[2]:
            ctx.check(int(r[2]) == len(data), "record-size", f"{tag}: wrong size of {rel} in RECORD ({r[2]} vs {len(data)})")
    ctx.event("record_rows", len(rows))


def run(ctx):
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.distributions.wheel_distribution import WheelDistribution
    from pkm.api.environments.environment import Environment
    from pkm.api.packages.package import PackageDescriptor
    from pkm.api.packages.package_installation_info import PackageInstallationInfo, StoreMode
    from pkm.api.versions.version import Version

    ctx.rule = ("generated wheels (all layouts: modules, packages, namespace parts, binary / oddly named data, every .data scheme, entry points, extra dist-info files, "
                "purelib and platlib, sha256/384/512 records) installed into a real venv holding other files, whole-tree snapshot before/after vs independent model; "
                "generated entry point scripts are executed")
    ctx.required_events = ["installs", "scripts_executed", "record_rows", "data_scheme_files", "overwrites", "requested", "not_requested", "metadata_checked"]
    rng = ctx.rng
    env = world.make_env(ctx)
    root = pathlib.Path(env.path)
    base = world.snapshot(root)
    n = ctx.pick(60, 700)
    budget = ctx.budget(45, 500)
    ran = 0
    done = 0
    while done < n and budget():
        problems = world.reset_tree(root, base)
        assert not problems, problems
        env.reload()
        env = Environment(root)
        tgt = env.installation_target
        # neighbours that must not change
        site_dir = pathlib.Path(tgt.purelib)
        (site_dir / "foreign").mkdir()
        (site_dir / "foreign" / "keep.py").write_text("K = 1\n")
        (site_dir / "foreign.pth").write_text("")
        (root / "share" / "man").mkdir(parents=True)
        (root / "share" / "man" / "other.1").write_text("x")
        (root / "bin" / "tool").write_text("#!/bin/sh\n")
        world.fake_installed(site_dir, "neighbour", "1.0")
        names = rng.sample(NAMES, 2)
        for k, name in enumerate(names):
            version = rng.choice(VERSIONS)
            w = world.gen_wheel(rng, name, version, shared_ns="nsp" if rng.random() < .4 else None)
            whl = w.write(pathlib.Path(ctx.scratch) / "work" / "wheels")
            expect, site = expected_files(w, env, tgt)
            if rng.random() < .25:
                victims = rng.sample(sorted(expect), min(2, len(expect)))
                for v in victims:
                    p = root / v
                    if w.di in v:
                        continue
                    p.parent.mkdir(parents=True, exist_ok=True)
                    p.write_bytes(b"previous content")
                    ctx.event("overwrites")
            request = rng.choice(REQUESTS)
            req = Dependency.parse(request.format(n=name)) if request else None
            info = rng.choice([None, None, PackageInstallationInfo(store_mode=StoreMode.EDITABLE), PackageInstallationInfo(compatibility_tag="py3-none-any")])
            before = world.snapshot(root)
            tag = f"seed {ctx.seed} case {done} wheel {whl.name}"
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                kind, res = outcome(lambda: WheelDistribution(PackageDescriptor(name, Version.parse(version)), whl).install_to(tgt, req, info))
            ctx.event("installs")
            if kind == "err":
                ctx.violation("install-failed", f"{tag}: installing a valid wheel failed: {short_tb(res, 6)}")
                done += 1
                continue
            after = world.snapshot(root)
            interp = str(env.interpreter_path.absolute())
            new = {}
            dirs = set()
            for rel, (kind_, content) in expect.items():
                p = root / rel
                if not ctx.check(p.is_file(), "file-missing", f"{tag}: {rel} was not installed"):
                    continue
                got = p.read_bytes()
                if kind_ == "script":
                    line, _, rest = content.partition(b"\n")
                    if content.startswith(b"#!python") and line in (b"#!python", b"#!pythonw"):
                        gline, _, grest = got.partition(b"\n")
                        want = ("#!" + interp).encode()
                        ctx.check(gline.strip().rstrip(b"w") == want and grest == rest, "script-content", f"{tag}: script {rel}: {got[:80]!r}")
                    elif not content.startswith(b"#!python"):
                        ctx.check(got == content, "script-content", f"{tag}: script {rel} was altered {got[:80]!r}")
                    ctx.check(os.access(p, os.X_OK), "script-exec", f"{tag}: script {rel} is not executable")
                    ctx.event("scripts_checked")
                elif rel.endswith(f"{w.di}/RECORD"):
                    pass
                else:
                    ctx.check(got == content, "file-content", f"{tag}: content of {rel} differs ({len(got)} vs {len(content)} bytes)")
                new[rel] = True
            if w.data or w.headers:
                ctx.event("data_scheme_files", len(w.data) + len(w.headers))
            for rel, content in w.headers.items():
                found = [q for q in after if q.endswith("/" + rel) and q.startswith(world.header_dir(w) + "/") and canon(q[len(world.header_dir(w)) + 1:].split("/")[0]) == canon(name)]
                if ctx.check(len(found) == 1, "header-missing", f"{tag}: header {rel} not under {world.header_dir(w)}/{name} ({found})"):
                    ctx.check((root / found[0]).read_bytes() == content, "file-content", f"{tag}: header {rel} altered")
                    new[found[0]] = True
            for ep, text in w.script_tokens.items():
                p = root / "bin" / ep
                if ctx.check(p.is_file() and os.access(p, os.X_OK), "entrypoint-missing", f"{tag}: no executable for entry point {ep}"):
                    new[f"bin/{ep}"] = True
                    if ran < ctx.pick(40, 400):
                        ran += 1
                        r = subprocess.run([str(p)], capture_output=True, text=True, cwd="/", env={"PATH": "/usr/bin:/bin", "PYTHONDONTWRITEBYTECODE": "1"}, timeout=60)
                        ctx.event("scripts_executed")
                        ctx.check(r.returncode == 0 and r.stdout.strip() == text, "entrypoint-broken",
                                  f"{tag}: script {ep} -> exit {r.returncode}, printed {r.stdout[:100]!r} instead of {text!r}; {r.stderr[-200:]!r}")
            dinfo = f"{site}/{w.di}"
            for extra in ("INSTALLER", "RECORD", "INSTALLATION_MODE") + (("REQUESTED",) if req else ()):
                if extra == "INSTALLATION_MODE" and f"{dinfo}/{extra}" not in after:
                    continue
                new[f"{dinfo}/{extra}"] = True
                ctx.check(f"{dinfo}/{extra}" in after, "marker-missing", f"{tag}: {extra} was not written")
            ctx.check((f"{dinfo}/REQUESTED" in after) == bool(req), "requested-mark", f"{tag}: request {req} but REQUESTED file present={f'{dinfo}/REQUESTED' in after}")
            ctx.event("requested" if req else "not_requested")
            pys = {rel for rel in new if rel.endswith(".py")}
            for rel in set(after) - set(new):
                d, b = os.path.split(rel)
                if b.endswith(".pyc") and os.path.basename(d) == "__pycache__" and f"{os.path.dirname(d)}/{b.split('.')[0]}".lstrip("/") and \
                        any(os.path.dirname(q) == os.path.dirname(d) and b.startswith(os.path.basename(q)[:-3] + ".") for q in pys) and before.get(rel) != after[rel]:
                    new[rel] = True
                    ctx.event("compiled")
            for rel in new:
                d = os.path.dirname(rel)
                while d:
                    dirs.add(d)
                    d = os.path.dirname(d)
            for rel in sorted(set(before) | set(after)):
                if before.get(rel) == after.get(rel) or rel in new:
                    continue
                if after.get(rel) == ("d",) and rel not in before and rel in dirs:
                    continue
                ctx.violation("collateral", f"{tag}: unexpected change {'+' if rel not in before else '-' if rel not in after else '~'} {rel}")
            check_record(ctx, w, root, site, [r for r in new], tag)
            # what the environment reports
            tgt.reload()
            fresh = Environment(root).site_packages.installed_package(name)
            if ctx.check(fresh is not None, "not-reported", f"{tag}: not reported as installed"):
                from packaging.version import Version as PV
                ctx.check(canon(fresh.name) == canon(name), "reported-name", f"{tag}: reported as {fresh.name}")
                ctx.check(PV(str(fresh.version)) == PV(version), "reported-version", f"{tag}: reported version {fresh.version}")
                ur = fresh.user_request
                ctx.check((ur is None) == (req is None), "requested-mark", f"{tag}: reported request {ur} for {req}")
                if ur is not None and req is not None:
                    ctx.check(canon(ur.package_name) == canon(name) and str(ur.version_spec) == str(req.version_spec) and list(ur.extras or []) == list(req.extras or []),
                              "request-content", f"{tag}: requested {req}, recorded {ur}")
                ii = fresh.installation_info
                ctx.check(ii.store_mode == (info.store_mode if info else StoreMode.COPY) and ii.containerized is False, "install-mode", f"{tag}: install info {ii} for {info}")
                ctx.check(ii.compatibility_tag == (info.compatibility_tag if info and info.compatibility_tag else w.tag), "install-tag",
                          f"{tag}: compatibility tag {ii.compatibility_tag!r} recorded for {w.tag}")
                md = fresh.published_metadata
                ctx.check(len(md.dependencies) == len(w.requires), "metadata-deps", f"{tag}: dependencies {md.dependencies} for {w.requires}")
                ctx.event("metadata_checked")
            ctx.check(not core.ESCAPES, "escape", f"{tag}: touched {core.ESCAPES[:3]}")
            ctx.evaluated((name, version, tuple(sorted(w.members)), request), {"wheel": whl.name, "members": len(w.members), "entry_points": w.entry_points})
            whl.unlink()
            done += 1
