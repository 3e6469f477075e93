"""I05: hostile archives, wheels, installed records and URLs against a canary tree; an audit hook blocks and records every effect outside the scratch directory."""
import contextlib
import http.server
import io
import os
import pathlib
import tarfile
import threading
import warnings
import zipfile

from vmon import core, world
from vmon.core import short_tb


def hostile_names(rng, depth_to_canary, abs_canary):
    up = "../" * depth_to_canary
    yield from [
        f"{up}canary/keep.txt", f"{up}canary/new.txt", f"{up}escaped.txt", "../escaped1.txt", "../../escaped2.txt", "a/../../escaped3.txt", "a/b/../../../escaped4.txt",
        f"{abs_canary}/keep.txt", f"{abs_canary}/abs_new.txt", f"/{abs_canary}/keep.txt", f"./{up}canary/keep.txt", f"a/./../{up}canary/keep.txt", "/tmp/vmon-escape-probe",
        "..\\escaped5.txt", "..", ".", "a/..", "../" * 40 + "tmp/vmon-escape-probe", "~/escaped6.txt", "C:\\x.txt", "a//..//..//escaped7.txt", " ../escaped8.txt",
        f"%2e%2e/escaped9.txt",
    ]


def hostile_tars(abs_canary, up):
    """(label, list of members) - a member is (TarInfo kwargs, content)"""
    F, L, H = tarfile.REGTYPE, tarfile.SYMTYPE, tarfile.LNKTYPE
    yield "link to directory, then a file through it", [(dict(name="d", type=L, linkname=abs_canary), None), (dict(name="d/keep.txt", type=F), b"evil")]
    yield "relative link up, then a file through it", [(dict(name="d", type=L, linkname=up + "canary"), None), (dict(name="d/keep.txt", type=F), b"evil")]
    yield "nested links", [(dict(name="a", type=L, linkname=".."), None), (dict(name="a/b", type=L, linkname=".."), None), (dict(name="a/b/canary/keep.txt", type=F), b"evil")]
    yield "link to file, then the file again", [(dict(name="f", type=L, linkname=abs_canary + "/keep.txt"), None), (dict(name="f", type=F), b"evil")]
    yield "hard link to outside, then the file again", [(dict(name="f", type=H, linkname=up + "canary/keep.txt"), None), (dict(name="f", type=F), b"evil")]
    yield "hard link to absolute", [(dict(name="f", type=H, linkname=abs_canary + "/keep.txt"), None), (dict(name="f", type=F), b"evil")]
    yield "fifo", [(dict(name="p", type=tarfile.FIFOTYPE), None)]
    yield "link loop", [(dict(name="x", type=L, linkname="y"), None), (dict(name="y", type=L, linkname="x"), None), (dict(name="x/z.txt", type=F), b"1")]
    yield "directory member outside, with mode", [(dict(name=up + "canary", type=tarfile.DIRTYPE, mode=0o000), None)]
    yield "directory link renamed", [(dict(name="d", type=L, linkname="."), None), (dict(name="d/../" + up + "escaped.txt", type=F), b"evil")]
    yield "dangling link out, then the file", [(dict(name="n", type=L, linkname=abs_canary + "/created.txt"), None), (dict(name="n", type=F), b"evil")]


class Any200(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"

    def do_GET(self):
        body = b"evil"
        self.send_response(200)
        self.send_header("content-length", str(len(body)))
        self.end_headers()
        self.wfile.write(body)

    def log_message(self, *a):
        pass


def run(ctx):
    from pkm.api.distributions.wheel_distribution import WheelDistribution
    from pkm.api.environments.environment import Environment
    from pkm.api.packages.package import PackageDescriptor
    from pkm.api.versions.version import Version
    from pkm.utils.archives import extract_archive
    from pkm.utils.http.http_client import HttpClient

    ctx.rule = ("hostile corpus (parent references, absolute names, links, devices, odd separators, hostile entry points, data schemes, records and URLs) x {zip, whl, tar.gz, tar.bz2, "
                "wheel install, uninstall, fetch}, a canary tree around the target compared after each operation; an audit hook blocks and records effects outside the scratch directory")
    ctx.required_events = ["archives", "tar_links", "wheels", "records", "urls", "benign_extracted", "benign_uninstalled", "benign_fetched"]
    rng = ctx.rng
    work = pathlib.Path(ctx.scratch) / "work"
    canary = work / "canary"
    (canary / "sub").mkdir(parents=True)
    (canary / "keep.txt").write_text("keep")
    (canary / "sub" / "deep.txt").write_text("deep")
    (canary / "sub" / "__pycache__").mkdir()
    (canary / "sub" / "__pycache__" / "deep.cpython-312.pyc").write_text("x")
    (canary / "empty").mkdir()
    box = work / "box"
    box.mkdir()
    env = world.make_env(ctx, "box/env")
    root = pathlib.Path(env.path)
    base = world.snapshot(root)
    store = work / "store"
    store.mkdir()
    sink = io.StringIO()

    def outside():
        return world.snapshot(work, skip=lambda r: r == "box/env" or r.startswith(("box/env/", "store", "out/")))

    def quiet(fn):
        with warnings.catch_warnings(), contextlib.redirect_stderr(sink), contextlib.redirect_stdout(sink):
            warnings.simplefilter("ignore")
            try:
                return "ok", fn()
            except Exception as e:  # noqa
                return "err", e

    def verdict(kind, what, before, res):
        now = outside()
        ctx.event(kind)
        ctx.event(f"{kind}_{'accepted' if res[0] == 'ok' else 'refused'}")
        ctx.evaluated((kind, what), {"operation": kind, "case": what, "outcome": res[0] if res[0] == "ok" else type(res[1]).__name__})
        ctx.check(now == before, f"escape:{kind}", f"seed {ctx.seed}: {kind}: {what}: changed outside of the target: {world.tree_diff(before, now)}")
        if core.ESCAPES:
            ctx.violation(f"escape:{kind}", f"seed {ctx.seed}: {kind}: {what}: attempted outside of the scratch directory: {core.ESCAPES[:3]}")
            core.ESCAPES.clear()

    # ---- archives
    out = work / "out" / "a" / "b"
    up = "../../../"
    for fmt in (".zip", ".whl", ".tar.gz", ".tar.bz2"):
        for i, name in enumerate(hostile_names(rng, 3, str(canary))):
            p = store / f"h{i}{fmt}"
            if fmt in (".zip", ".whl"):
                with zipfile.ZipFile(p, "w") as z:
                    z.writestr("first.txt", "1")
                    zi = zipfile.ZipInfo("x")
                    zi.filename = name
                    z.writestr(zi, b"evil")
                    z.writestr("last.txt", "1")
            else:
                with tarfile.open(p, "w:gz" if fmt.endswith("gz") else "w:bz2") as t:
                    for n, d in (("first.txt", b"1"), (name, b"evil"), ("last.txt", b"1")):
                        ti = tarfile.TarInfo(n)
                        ti.size = len(d)
                        t.addfile(ti, io.BytesIO(d))
            out.mkdir(parents=True)
            before = outside()
            res = quiet(lambda: extract_archive(p, out / "target"))
            verdict("archives", f"{fmt} with member {name!r}", before, res)
            ctx.check(not world.snapshot(work / "out", skip=lambda r: r == "a" or r == "a/b" or r.startswith("a/b/target")), "escape:archives", f"{fmt} with member {name!r}: siblings of the target created")
            _rm(work / "out")
        if "tar" in fmt:
            for label, members in hostile_tars(str(canary), "../../../../"):
                p = store / f"l{fmt}"
                with tarfile.open(p, "w:gz" if fmt.endswith("gz") else "w:bz2") as t:
                    for kw, d in members:
                        ti = tarfile.TarInfo(kw["name"])
                        for k, v in kw.items():
                            setattr(ti, k, v)
                        ti.size = len(d or b"")
                        t.addfile(ti, io.BytesIO(d) if d is not None else None)
                out.mkdir(parents=True)
                before = outside()
                res = quiet(lambda: extract_archive(p, out / "target"))
                verdict("tar_links", f"{fmt}: {label}", before, res)
                if (out / "target").exists():
                    for r, v in world.snapshot(out / "target").items():
                        if v[0] == "l":
                            real = os.path.realpath(str(out / "target" / r))
                            ctx.check(real.startswith(str(out / "target")), "escape:tar_links", f"{fmt}: {label}: extracted a link {r} that leads to {real}")
                _rm(work / "out")
        # archives without tricks are extracted completely
        content = {f"pkg-{i}/{n}": rng.randbytes(rng.randrange(0, 5000)) for i in range(2) for n in ("a.py", "sub/b.txt", "..hidden/ok", "dots..txt", "with space", "ünï")}
        p = store / f"benign{fmt}"
        if fmt in (".zip", ".whl"):
            with zipfile.ZipFile(p, "w") as z:
                for n, d in content.items():
                    z.writestr(n, d)
        else:
            with tarfile.open(p, "w:gz" if fmt.endswith("gz") else "w:bz2") as t:
                for n, d in content.items():
                    ti = tarfile.TarInfo(n)
                    ti.size = len(d)
                    t.addfile(ti, io.BytesIO(d))
                ti = tarfile.TarInfo("pkg-0/link")
                ti.type, ti.linkname = tarfile.SYMTYPE, "a.py"
                t.addfile(ti)
        res = quiet(lambda: extract_archive(p, out / "target"))
        got = {os.path.relpath(os.path.join(b, f), out / "target"): pathlib.Path(b, f).read_bytes() for b, _, fs in os.walk(out / "target") for f in fs if f != "link"}
        ctx.check(res[0] == "ok" and got == content, "benign-archive", f"{fmt}: ordinary archive: {res[1]!r}, {sorted(set(got) ^ set(content))[:4]}")
        ctx.event("benign_extracted")
        _rm(work / "out")

    # ---- wheels
    site = pathlib.Path(env.installation_target.purelib)
    rel_up = "../" * (len(site.relative_to(work).parts))
    wheels = []
    for name in hostile_names(rng, len(site.relative_to(work).parts), str(canary)):
        wheels.append((f"member {name!r}", lambda m, di, dd, n=name: {**m, n: b"evil"}))
        for scheme, depth in (("data", 2), ("scripts", 3), ("purelib", 5), ("headers", 6)):
            if len(wheels) % 3 == 0 or not ctx.quick:
                wheels.append((f"{scheme} member {name!r}", lambda m, di, dd, n=name, s=scheme: {**m, f"{dd}/{s}/{n}": b"evil"}))
    for depth in range(1, 7):
        for scheme in ("data", "scripts", "purelib"):
            wheels.append((f"{scheme} up {depth}", lambda m, di, dd, d=depth, s=scheme: {**m, f"{dd}/{s}/" + "../" * d + "canary/keep.txt": b"evil"}))
    for ep in ("../../../canary/keep.txt", "../../../../canary/keep.txt", str(canary / "keep.txt"), str(canary / "new"), "..", ".", "../evil", "a/../../../../canary/keep.txt", "sub/x",
               rel_up + "canary/keep.txt"):
        for group in ("console_scripts", "gui_scripts"):
            wheels.append((f"{group} entry point {ep!r}", lambda m, di, dd, e=ep, g=group: {**m, f"{di}/entry_points.txt": f"[{g}]\n{e} = mod:main\n".encode()}))
    for scheme in ("env", "..", "../../../../../../canary", "site_packages", "__class__", "stdlib", "platstdlib", "include", "platinclude", "reload", "unknown", "../../canary"):
        wheels.append((f"data scheme {scheme!r}", lambda m, di, dd, s=scheme: {**m, f"{dd}/{s}/keep.txt": b"evil", f"{dd}/{s}/encodings/__init__.py": b"evil"}))
    for mod in ("os;open('x','w')", "a b", ""):
        wheels.append((f"entry point module {mod!r}", lambda m, di, dd, s=mod: {**m, f"{di}/entry_points.txt": f"[console_scripts]\nok = {s}:main\n".encode()}))
    if ctx.quick:
        rng.shuffle(wheels)
    for i, (label, make) in enumerate(wheels):
        name, version = f"hw{i}", "1.0"
        m = world.wheel_files(name, version, {f"hw{i}.py": b"X=1\n"})
        di = world.dist_dir(name, version) + ".dist-info"
        m = make(m, di, world.dist_dir(name, version) + ".data")
        rows = [world.record_line(k, v) for k, v in m.items()] + [[f"{di}/RECORD", "", ""]]
        p = store / f"{world.dist_dir(name, version)}-py3-none-any.whl"
        with zipfile.ZipFile(p, "w") as z:
            for k, v in m.items():
                zi = zipfile.ZipInfo("x")
                zi.filename = k
                z.writestr(zi, v)
            # zip readers normalise hostile names: record both spellings so that only containment decides
            norm = [world.record_line("/".join(q for q in k.split("/") if q not in ("", ".", "..")), v) for k, v in m.items()]
            z.writestr(f"{di}/RECORD", world.csv_text(rows[:-1] + [r for r in norm if r not in rows] + rows[-1:] if i % 2 else norm + rows[-1:]))
        before = outside()
        res = quiet(lambda: WheelDistribution(PackageDescriptor(name, Version.parse(version)), p).install_to(env.installation_target, None))
        verdict("wheels", label, before, res)
        world.reset_tree(root, base)
        p.unlink()

    # ---- records of installed packages
    records = [n for n in hostile_names(rng, len(site.relative_to(work).parts), str(canary))]
    records += [rel_up + "canary", rel_up + "canary/sub/deep.txt", rel_up + "canary/sub/deep.py", str(canary / "sub"), str(canary / "sub" / "deep.txt"), rel_up + "canary/empty/x", rel_up + "canary/empty",
                "link_out/keep.txt", "link_out/sub/deep.txt", "link_file", "link_out", "link_out/../canary/keep.txt", "sub/../" + rel_up + "canary/keep.txt", "hr.py/../" + rel_up + "canary/keep.txt",
                str(root.parent / "envx" / "keep.txt"), "../" * 4 + "envx/keep.txt"]
    (box / "envx").mkdir()
    (box / "envx" / "keep.txt").write_text("a sibling whose name starts like the environment")
    for i, name in enumerate(records):
        env = Environment(root)
        world.fake_installed(site, "hostile", "1.0")
        (site / "hr.py").write_text("1")
        (site / "link_out").symlink_to(canary)
        (site / "link_file").symlink_to(canary / "keep.txt")
        rec = site / "hostile-1.0.dist-info" / "RECORD"
        rec.write_text(world.csv_text([["hr.py", "", ""], [name, "", ""], ["hostile-1.0.dist-info/METADATA", "", ""], ["hostile-1.0.dist-info/RECORD", "", ""]]))
        before = outside()
        pk = env.site_packages.installed_package("hostile")
        res = quiet(pk.uninstall)
        verdict("records", f"record entry {name!r}", before, res)
        if res[0] == "ok":
            ctx.check(not (site / "hr.py").exists() and not (site / "hostile-1.0.dist-info").exists(), "benign-uninstall", f"record entry {name!r}: the package's own files remain")
            ctx.event("benign_uninstalled")
        world.reset_tree(root, base)

    # ---- urls
    server = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Any200)
    threading.Thread(target=server.serve_forever, daemon=True).start()
    a = f"127.0.0.1:{server.server_port}"
    urls = []
    for scheme_host in (f"http://{a}",):
        for d in range(1, 8):
            urls.append(f"{scheme_host}/{'../' * d}canary/keep.txt")
            urls.append(f"{scheme_host}/x/{'../' * d}canary/keep.txt")
            urls.append(f"{scheme_host}/{'../' * d}canary/..")
        urls += [f"{scheme_host}/{canary}/keep.txt", f"{scheme_host}//{canary}/keep.txt", f"{scheme_host}///etc/vmon-probe", f"{scheme_host}/..", f"{scheme_host}/.", f"{scheme_host}/a/..", f"{scheme_host}/",
                 f"{scheme_host}", f"{scheme_host}/%2e%2e/%2e%2e/canary/keep.txt", f"{scheme_host}/..%2f..%2fcanary/keep.txt", f"{scheme_host}/x?q=../../../canary/keep.txt",
                 f"{scheme_host}/x#../../../canary/keep.txt", f"{scheme_host}/./../canary/keep.txt", f"{scheme_host}/x/..;/../canary/keep.txt", f"http://{a}/..\\..\\canary\\keep.txt",
                 f"http://user@{a}/../../canary/keep.txt", f"http://{a}/.fetch.toml", f"http://{a}/../.fetch.toml"]
    urls += ["http://../canary/keep.txt", "http://../../keep.txt", f"http://..:{server.server_port}/canary/keep.txt", "file:///" + str(canary) + "/keep.txt", f"ftp://{a}/x", "http:///canary/keep.txt",
             f"http://.:{server.server_port}/../canary/keep.txt"]
    ws = work / "box" / "env" / "ws"
    ws.mkdir()
    client = HttpClient(ws)
    for url in urls:
        before = outside()
        res = core.timed(lambda: client.fetch_resource(url), 20)
        if res[0] == "hang":
            ctx.event("url_hang")
            client = HttpClient(ws)
            continue
        if res[0] == "ok" and res[1] is not None:
            ctx.check(os.path.realpath(str(res[1].data)).startswith(str(ws) + os.sep), "escape:urls", f"url {url!r} is stored in {res[1].data}")
            outcome2 = quiet(res[1].delete)
        verdict("urls", f"url {url!r}", before, res)
    for path in ("/pkg/a-1.0.tar.gz", "/simple/name/", "/x/y/z.whl?a=b", "/ünï/x"):
        if path.isascii():
            res = quiet(lambda: client.fetch_resource(f"http://{a}{path}"))
            ctx.check(res[0] == "ok" and res[1].data.read_bytes() == b"evil", "benign-url", f"ordinary url {path}: {res[1]!r}")
            ctx.event("benign_fetched")
    server.shutdown()


def _rm(p):
    import shutil
    shutil.rmtree(p, ignore_errors=True)
