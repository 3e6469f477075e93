"""I04: every single alteration of generated wheels, and downloads whose digest is not the declared one, must be refused without a trace."""
import contextlib
import hashlib
import http.server
import io
import json
import os
import pathlib
import threading
import warnings
import zipfile

from vmon import core, world
from vmon.core import short_tb
from vmon.props.i03 import essential


def rewrite(path, members, rows, di, order=None, raw_record=None):
    with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED) as z:
        for k in order or members:
            z.writestr(k, members[k])
        if raw_record is not None:
            z.writestr(f"{di}/RECORD", raw_record)
        elif rows is not None:
            z.writestr(f"{di}/RECORD", world.csv_text(rows))
    return path


def flip(rng, data):
    if not data:
        return b"\x00"
    i = rng.randrange(len(data))
    return data[:i] + bytes([data[i] ^ (1 << rng.randrange(8))]) + data[i + 1:]


def mutations(rng, w, thorough):
    """yields (kind, what, members, rows or None, raw record or None)"""
    base, rows = w.members, w.rows()
    di = w.di
    names = list(base)
    for name in names:
        in_info = name.startswith(di + "/")
        data = base[name]
        changed = []
        if not in_info:
            changed = [("changed byte", flip(rng, data)), ("appended", data + b"\n")]
            if data:
                changed += [("truncated", data[:len(data) // 2]), ("emptied", b"")]
            if data and data.count(b"\n"):
                changed.append(("newlines", data.replace(b"\n", b"\r\n")))
            other = next((o for o in names if o != name and base[o] != data and not o.startswith(di + "/")), None)
            if other:
                changed.append(("swapped", base[other]))
        for what, d in changed:
            yield "content", f"{what} {name}", {**base, name: d}, rows, None
        if not name.endswith(("/METADATA", "/WHEEL")) or True:
            yield "removed-member", f"removed {name}", {k: v for k, v in base.items() if k != name}, rows, None
        yield "removed-row", f"record row of {name} removed", base, [r for r in rows if r[0] != name], None
        if not in_info:
            sub = lambda f: [f(r) if r[0] == name else r for r in rows]
            yield "hash-changed", f"hash of {name} changed", base, sub(lambda r: [r[0], r[1][:-1] + ("A" if r[1][-1] != "A" else "B"), r[2]]), None
            yield "hash-changed", f"hash of {name} is of other content", base, sub(lambda r: world.record_line(name, data + b"x")), None
            yield "hash-changed", f"hash algorithm of {name} swapped", base, sub(lambda r: [r[0], ("sha384" if r[1].startswith("sha256") else "sha256") + "=" + r[1].partition("=")[2], r[2]]), None
            yield "hash-missing", f"hash of {name} emptied", base, sub(lambda r: [r[0], "", r[2]]), None
            yield "hash-malformed", f"unknown hash algorithm for {name}", base, sub(lambda r: [r[0], "nohash=" + r[1].partition("=")[2], r[2]]), None
            yield "hash-malformed", f"hash of {name} without algorithm", base, sub(lambda r: [r[0], r[1].partition("=")[2], r[2]]), None
            yield "hash-malformed", f"hash of {name} cut", base, sub(lambda r: [r[0], r[1][:12], r[2]]), None
    top = names[0].split("/")[0]
    for extra in (f"{top if '.' not in top else 'xx'}/sneaky.py", "sneaky_top.py", f"{di}/sneaky.txt", f"{w.dd}/data/share/sneaky", f"{w.dd}/scripts/sneaky", f"{di}/sub/RECORD", "RECORD",
                  "other/RECORD.jws", f"{di}/sub/METADATA"):
        yield "added-member", f"added {extra}", {**base, extra: b"print('sneaky')"}, rows, None
    yield "added-row", "record lists a file that is not there", base, rows + [world.record_line("not/there.py", b"x")], None
    yield "record", "RECORD absent", base, None, None
    yield "record", "RECORD empty", base, [], None
    yield "record", "RECORD of another wheel", base, [world.record_line("a.py", b"1"), [f"{di}/RECORD", "", ""]], None
    yield "dist-info", "no dist-info", {k: v for k, v in base.items() if not k.startswith(di + "/")}, None, None
    yield "dist-info", "two dist-infos", {**base, "other-1.0.dist-info/METADATA": b"Metadata-Version: 2.1\nName: other\nVersion: 1.0\n"}, \
        rows + [world.record_line("other-1.0.dist-info/METADATA", b"Metadata-Version: 2.1\nName: other\nVersion: 1.0\n")], None
    for v in ("2.0", "3.1", "10.0"):
        wf = base[f"{di}/WHEEL"].replace(b"Wheel-Version: 1.0", b"Wheel-Version: " + v.encode())
        m = {**base, f"{di}/WHEEL": wf}
        yield "wheel-version", f"wheel version {v}", m, [r if r[0] != f"{di}/WHEEL" else world.record_line(r[0], wf) for r in rows], None
    for f in ("METADATA", "WHEEL"):
        m = {k: v for k, v in base.items() if k != f"{di}/{f}"}
        yield "no-" + f, f"no {f}, with a consistent record", m, [r for r in rows if r[0] != f"{di}/{f}"], None


def corrupt_files(rng, data):
    yield "truncated archive", data[:len(data) - rng.randrange(1, min(200, len(data) - 1))]
    yield "truncated archive", data[:len(data) // 2]
    yield "empty archive", b""
    yield "not an archive", b"<html>404 not found</html>"
    yield "wrong archive", b"PK\x05\x06" + b"\0" * 18
    for _ in range(3):
        # a byte of a stored member's compressed data
        z = zipfile.ZipFile(io.BytesIO(data))
        infos = [i for i in z.infolist() if i.compress_size > 8 and ".dist-info/" not in i.filename]
        if infos:
            i = rng.choice(infos)
            off = i.header_offset + 30 + len(i.filename.encode()) + rng.randrange(0, i.compress_size)
            yield f"corrupt data of {i.filename}", data[:off] + bytes([data[off] ^ 0xff]) + data[off + 1:]


class Index(http.server.BaseHTTPRequestHandler):
    content = {}
    protocol_version = "HTTP/1.1"

    def do_GET(self):
        body = self.content.get(self.path.partition("#")[0].partition("?")[0])
        if body is None:
            self.send_response(404)
            body = b"no"
        else:
            self.send_response(200)
        self.send_header("content-length", str(len(body)))
        self.end_headers()
        self.wfile.write(body)

    def log_message(self, *a):
        pass


def run(ctx):
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.distributions.wheel_distribution import WheelDistribution
    from pkm.api.environments.environment import Environment
    from pkm.api.packages.package import PackageDescriptor
    from pkm.api.versions.version import Version

    ctx.rule = ("for each generated wheel: every member x every content alteration, removal, record-row alteration, added members, damaged archives, missing or doubled dist-info, "
                "unsupported wheel versions; downloads from a loopback index (PyPI JSON and simple HTML) x digest algorithm x digest / body alteration. "
                "Verdict: refused with an error and tree identical to before; intact variants (row order, line ends, empty sizes, signature files, other hashes) accepted")
    ctx.required_events = ["mutants", "refused", "intact_accepted", "corrupt_archives", "download_refused", "download_accepted"]
    rng = ctx.rng
    env = world.make_env(ctx)
    root = pathlib.Path(env.path)
    base = world.snapshot(root)
    wheels = pathlib.Path(ctx.scratch) / "work" / "wheels"
    wheels.mkdir()
    sink = io.StringIO()

    def quiet_install(fn):
        with warnings.catch_warnings(), contextlib.redirect_stderr(sink), contextlib.redirect_stdout(sink):
            warnings.simplefilter("ignore")
            try:
                fn()
                return "ok", None
            except Exception as e:  # noqa
                return "err", e

    def install(name, version, whl):
        return quiet_install(lambda: WheelDistribution(PackageDescriptor(name, Version.parse(version)), whl).install_to(env.installation_target, None))

    n = ctx.pick(4, 60)
    budget = ctx.budget(70, 700)
    case = 0
    while case < n and budget():
        world.reset_tree(root, base)
        name, version = rng.choice(["alpha", "My-Pkg", "zope.thing"]), rng.choice(["1.0", "2.1.3"])
        w = world.gen_wheel(rng, name, version, size=.6)
        site = pathlib.Path(env.installation_target.purelib)
        (site / "existing.py").write_text("1")
        before = world.snapshot(root)
        path = wheels / f"{world.dist_dir(name, version)}-{w.tag}.whl"
        tag = f"seed {ctx.seed} wheel {case} {path.name}"

        def judge(kind, what, must="refuse"):
            k, e = install(name, version, path)
            now = world.snapshot(root)
            same = now == before
            ctx.evaluated((case, kind, what), {"wheel": path.name, "alteration": what, "outcome": k})
            if must == "refuse":
                ctx.event("mutants")
                ctx.event("mutant:" + kind)
                if ctx.check(k == "err", f"accepted:{kind}", f"{tag}: {what}: was installed"):
                    ctx.event("refused")
                    ctx.check(same, "trace", f"{tag}: {what}: refused ({e}) but left {world.tree_diff(before, now)}")
            else:
                if ctx.check(k == "ok", f"refused:{kind}", f"{tag}: {what}: {short_tb(e, 4) if e else ''}"):
                    ctx.event("intact_accepted")
            if not same:
                world.reset_tree(root, base)
                (site / "existing.py").write_text("1")

        rows = w.rows()
        # intact forms
        judge("plain", "intact wheel", rewrite(path, w.members, rows, w.di) and "accept")
        judge("order", "rows and members in another order", rewrite(path, w.members, rng.sample(rows, len(rows)), w.di, order=rng.sample(list(w.members), len(w.members))) and "accept")
        judge("crlf", "record with CRLF line ends", rewrite(path, w.members, None, w.di, raw_record=world.csv_text(rows).replace("\n", "\r\n").encode()) and "accept")
        judge("sizes", "record without sizes", rewrite(path, w.members, [[r[0], r[1], ""] for r in rows], w.di) and "accept")
        judge("quoted", "record with quoted fields", rewrite(path, w.members, None, w.di, raw_record="".join(",".join('"' + f.replace('"', '""') + '"' for f in r) + "\n" for r in rows).encode()) and "accept")
        signed = {**w.members, f"{w.di}/RECORD.jws": b"{}", f"{w.di}/RECORD.p7s": b"x"}
        judge("signed", "signature files, which no record covers", rewrite(path, signed, rows, w.di) and "accept")
        judge("signed", "signature files listed without hashes", rewrite(path, signed, rows + [[f"{w.di}/RECORD.jws", "", ""], [f"{w.di}/RECORD.p7s", "", ""]], w.di) and "accept")
        with zipfile.ZipFile(rewrite(path, w.members, rows, w.di), "a") as z:
            for d in sorted({os.path.dirname(m) for m in w.members if "/" in m}):
                z.writestr(d + "/", b"")
        judge("dirs", "archive with directory members", "accept")
        # alterations
        muts = list(mutations(rng, w, not ctx.quick))
        if ctx.quick and len(muts) > 130:
            head = {}
            for m in muts:
                head.setdefault(m[0], m)
            muts = list(head.values()) + rng.sample(muts, 130 - len(head))
        for kind, what, members, rws, raw in muts:
            if not budget():
                break
            rewrite(path, members, rws, w.di, raw_record=raw)
            judge(kind, what)
        rewrite(path, w.members, rows, w.di)
        good = path.read_bytes()
        for what, data in corrupt_files(rng, good):
            path.write_bytes(data)
            # a damaged byte may be outside of what the archive format protects; then the content is intact
            try:
                with zipfile.ZipFile(io.BytesIO(data)) as z:
                    still = {i.filename: z.read(i) for i in z.infolist()} == {**w.members, f"{w.di}/RECORD": world.csv_text(rows).encode()}
            except Exception:  # noqa
                still = False
            if not still:
                ctx.event("corrupt_archives")
                judge("archive", what)
        path.unlink()
        case += 1

    downloads(ctx, env, base, root, quiet_install)


def downloads(ctx, env, base, root, quiet_install):
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.packages.package import PackageDescriptor  # noqa
    from pkm.repositories.pypi_repository import PyPiRepository
    from pkm.repositories.simple_repository import SimpleRepository
    rng = ctx.sub_rng("downloads")
    server = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Index)
    threading.Thread(target=server.serve_forever, daemon=True).start()
    url = f"http://127.0.0.1:{server.server_port}"
    n = ctx.pick(30, 250)
    site = pathlib.Path(env.installation_target.purelib)
    for i in range(n):
        world.reset_tree(root, base)
        name, version = f"dl{i}", "1.0"
        w = world.gen_wheel(rng, name, version, size=.3)
        w.tag = "py3-none-any"
        w.purelib = True
        path = w.write(pathlib.Path(ctx.scratch) / "work" / "dl")
        data = path.read_bytes()
        algos = rng.choice([["sha256"], ["md5", "sha256"], ["md5"], ["sha512"], ["sha256", "blake2b_256", "md5"]])
        style = rng.choice(["pypi", "simple"])
        if style == "simple":
            algos = [rng.choice(["sha256", "sha512", "md5", "sha384"])]
        calc = lambda a, d: hashlib.blake2b(d, digest_size=32).hexdigest() if a == "blake2b_256" else hashlib.new(a, d).hexdigest()
        how = rng.choice(["intact", "body-truncated", "body-changed", "body-other", "digest-wrong", "digest-cut"])
        digests = {a: calc(a, data) for a in algos}
        body = data
        if how == "body-truncated":
            body = data[:-7]
        elif how == "body-changed":
            # still a perfectly valid wheel: only the declared digest can tell
            w2 = world.GenWheel(name, version)
            w2.members = {**w.members, f"{name}_evil.py": b"print('evil')"}
            w2.tag = w.tag
            w2.algos = w.algos
            body = w2.write(pathlib.Path(ctx.scratch) / "work" / "dl2").read_bytes()
        elif how == "body-other":
            body = b"<html>sign in</html>"
        elif how == "digest-wrong":
            digests = {a: calc(a, data + b"x") for a in algos}
        elif how == "digest-cut":
            digests = {a: d[:-1] for a, d in digests.items()}
        fpath = f"/files/{i}/{path.name}"
        Index.content = {fpath: body}
        if style == "pypi":
            doc = {"info": {"name": name, "version": version, "requires_dist": None},
                   "releases": {version: [{"filename": path.name, "packagetype": "bdist_wheel", "url": url + fpath, "digests": digests, "requires_python": None, "yanked": False}]}}
            Index.content[f"/pypi/{name}/json"] = json.dumps(doc).encode()
            Index.content[f"/pypi/{name}/{version}/json"] = json.dumps({"info": doc["info"]}).encode()
            repo = PyPiRepository("loop", url + "/pypi", None)
        else:
            a = algos[0]
            Index.content[f"/simple/{name}"] = f'<html><body><a href="{url}{fpath}#{a}={digests[a]}">{path.name}</a></body></html>'.encode()
            repo = SimpleRepository("loop", url + "/simple")
        before = world.snapshot(root)

        def go():
            env.reload()
            env.site_packages.reload()
            found = repo.match(Dependency.parse(name), env)
            assert len(found) == 1, f"index lists one package, found {found}"
            found[0].install_to(env.installation_target)

        for attempt in (1, 2):
            k, e = quiet_install(go)
            now = world.snapshot(root)
            tag = f"seed {ctx.seed} download {i} ({style}, digests {algos}, {how}, attempt {attempt})"
            ctx.evaluated(("dl", i, attempt), {"download": tag, "outcome": k})
            if how == "intact":
                if ctx.check(k == "ok", "download-refused", f"{tag}: {short_tb(e, 5) if e else ''}"):
                    ctx.event("download_accepted")
                break
            if ctx.check(k == "err", "download-accepted", f"{tag}: an artifact with another digest was installed"):
                ctx.event("download_refused")
                ctx.check(now == before, "trace", f"{tag}: refused but left {world.tree_diff(before, now)}")
            else:
                break
    server.shutdown()
    ctx.check(not core.ESCAPES, "escape", f"touched {core.ESCAPES[:3]}")
