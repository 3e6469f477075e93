"""N02: real uploads of generated projects and files captured by a loopback server; requests decoded by a strict multipart reader and matched one to one with the files."""
import base64
import contextlib
import hashlib
import pathlib
import re
import socket
import threading
import time

from packaging.requirements import Requirement
from packaging.specifiers import SpecifierSet
from packaging.version import Version as PV

from vmon import core
from vmon.core import short_tb

KNOWN_FIELDS = set("""metadata_version name version summary description description_content_type keywords home_page download_url
author author_email maintainer maintainer_email license license_expression license_file classifiers platform supported_platform
requires_dist requires_python requires_external provides_dist provides_extra provides_extras obsoletes_dist project_urls dynamic comment gpg_signature
filetype pyversion md5_digest sha256_digest blake2_256_digest :action protocol_version content attestations""".split())


class Upload:
    """HTTP server that takes uploads; the plan says what happens to each request that arrives, in order"""

    def __init__(self):
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.lock = threading.Lock()
        self.reset([])
        threading.Thread(target=self._accept, daemon=True).start()

    def reset(self, plan):
        with self.lock:
            self.plan, self.log = list(plan), []

    def _accept(self):
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self._serve, args=(c,), daemon=True).start()

    def _serve(self, c):
        c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        f = c.makefile("rb")
        try:
            while True:
                line = f.readline()
                if not line.strip():
                    return
                headers = []
                while (h := f.readline().strip()):
                    k, _, v = h.decode("latin1").partition(":")
                    headers.append((k.strip().lower(), v.strip()))
                with self.lock:
                    mode = self.plan.pop(0) if self.plan else "ok"
                    e = {"line": line.decode("latin1").strip(), "headers": headers, "mode": mode, "body": None, "status": None}
                    self.log.append(e)
                if mode == "refuse-early":
                    c.sendall(b"HTTP/1.1 403 Forbidden\r\ncontent-length: 2\r\nconnection: close\r\n\r\nno")
                    e["status"] = 403
                    return
                try:
                    e["body"] = self._body(f, dict(headers), mode)
                except ValueError as x:
                    e["malformed"] = str(x)
                    c.sendall(b"HTTP/1.1 400 Bad Request\r\ncontent-length: 0\r\nconnection: close\r\n\r\n")
                    return
                if mode in ("drop", "cut"):
                    return
                if mode.startswith("status-"):
                    e["status"] = int(mode[7:])
                    body = b'{"message": "refused"}'
                    c.sendall(b"HTTP/1.1 %d X\r\ncontent-length: %d\r\n\r\n" % (e["status"], len(body)) + body)
                    continue
                if mode.startswith("redirect-"):
                    e["status"] = int(mode[9:])
                    c.sendall(b"HTTP/1.1 %d X\r\nlocation: /elsewhere/\r\ncontent-length: 0\r\n\r\n" % e["status"])
                    continue
                e["status"] = 200
                c.sendall(b"HTTP/1.1 200 OK\r\ncontent-length: 0\r\n\r\n")
                if mode == "ok-then-close":      # the connection is closed without a word: the next request meets a stale one
                    return
        except OSError:
            pass
        finally:
            f.close()
            with contextlib.suppress(OSError):
                c.shutdown(socket.SHUT_RDWR)
            with contextlib.suppress(OSError):
                c.close()

    @staticmethod
    def _body(f, headers, mode):
        if mode == "cut":
            f.read(20)
            return None
        if headers.get("transfer-encoding", "").lower() == "chunked":
            out = b""
            while True:
                size = f.readline()
                if not re.fullmatch(rb"[0-9a-fA-F]+\r\n", size):
                    raise ValueError(f"bad chunk size {size[:40]!r}")
                n = int(size, 16)
                data = f.read(n)
                if len(data) != n or f.read(2) != b"\r\n":
                    raise ValueError("bad chunk end")
                if n == 0:
                    return out
                out += data
        n = int(headers.get("content-length", "-1"))
        if n < 0:
            raise ValueError("neither length nor chunked")
        data = f.read(n)
        if len(data) != n:
            raise ValueError("request shorter than announced")
        return data


def parse_multipart(content_type, body):
    """[(name, filename, headers, bytes)] of a multipart/form-data body, by RFC 2046 (strict)"""
    m = re.fullmatch(r'multipart/form-data;\s*boundary=("?)([^"]+)\1', content_type or "")
    if not m:
        raise ValueError(f"content type {content_type!r}")
    delim = b"--" + m.group(2).encode()
    if not body.startswith(delim + b"\r\n"):
        raise ValueError("does not start with the boundary")
    rest = body[len(delim) + 2:]
    parts = []
    while True:
        i = rest.find(b"\r\n" + delim)
        if i < 0:
            raise ValueError("part without an end / no closing boundary")
        part, rest = rest[:i], rest[i + 2 + len(delim):]
        head, sep, data = part.partition(b"\r\n\r\n")
        if not sep:
            raise ValueError(f"part without end of headers {part[:60]!r}")
        hs = {}
        for line in head.split(b"\r\n"):
            k, s, v = line.decode("utf-8").partition(":")
            if not s:
                raise ValueError(f"part header {line!r}")
            hs[k.strip().lower()] = v.strip()
        cd = hs.get("content-disposition", "")
        mm = re.fullmatch(r'form-data; name="([^"]*)"(?:; filename="([^"]*)")?', cd)
        if not mm:
            raise ValueError(f"disposition {cd!r}")
        parts.append((mm.group(1), mm.group(2), hs, data))
        if rest.startswith(b"--"):
            if rest[2:].strip():
                raise ValueError(f"after the closing boundary: {rest[:40]!r}")
            return parts
        if not rest.startswith(b"\r\n"):
            raise ValueError("boundary not followed by a line end")
        rest = rest[2:]


def req_key(s):
    r = Requirement(s)
    return (re.sub(r"[-_.]+", "-", r.name).lower(), tuple(sorted(r.extras)), str(r.specifier and SpecifierSet(str(r.specifier))), str(r.marker or ""), r.url)


WORDS = ["alpha", "Größe", "naïve café", "日本語", "a; b=\"c\"", "--boundary", "50% off", "x", "tab\there", "quote's", "C:\\path", "🎉 done"]
NAMES = ["proj", "My-Proj", "zope.iface", "a_b", "X1"]
VERSIONS = ["1.0.0", "0.1", "2.0rc1", "1.0.post3", "3.1.dev4", "10.20.30.40", "2024.5"]
CLASSIFIERS = ["Programming Language :: Python :: 3", "License :: OSI Approved :: MIT License", "Topic :: Utilities", "Private :: Do Not Upload"]
DEPS = ["requests>=2,<3", "foo", "bar[x,y]==1.2", "baz>1; python_version<'3.8'", "qux~=2.2", "zed @ http://h.example/z-1.0-py3-none-any.whl"]


def q(s):
    return '"' + "".join({"\\": "\\\\", '"': '\\"', "\n": "\\n", "\t": "\\t", "\r": "\\r"}.get(ch, ch) for ch in s) + '"'


def project(rng):
    """(toml text, expected form fields)"""
    name, version = rng.choice(NAMES), rng.choice(VERSIONS)
    t, exp = [f"name = {q(name)}", f"version = {q(version)}"], {"name": [name], "version": [version], "metadata_version": None}
    some = lambda p=.6: rng.random() < p
    sentence = lambda: " ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 5)))
    if some():
        s = sentence().replace("\t", " ")
        t.append(f"description = {q(s)}")
        exp["summary"] = [s]
    if some():
        s = "\n".join(sentence() for _ in range(rng.choice([1, 4, 40, 600])))
        ct = rng.choice(["text/markdown", "text/x-rst", "text/plain"])
        t.append(f'readme = {{ text = {q(s)}, content-type = "{ct}" }}')
        exp["description"], exp["description_content_type"] = [s], [ct]
    if some():
        ks = rng.sample(["web", "net", "größe", "two words", "x"], rng.randint(1, 4))
        t.append(f"keywords = [{', '.join(map(q, ks))}]")
        exp["keywords"] = [",".join(ks)]
    if some():
        cs = rng.sample(CLASSIFIERS, rng.randint(1, 4))
        t.append(f"classifiers = [{', '.join(map(q, cs))}]")
        exp["classifiers"] = cs
    if some():
        ds = rng.sample(DEPS, rng.randint(1, 5))
        t.append(f"dependencies = [{', '.join(map(q, ds))}]")
        exp["requires_dist"] = ds
    if some():
        rp = rng.choice([">=3.6", ">=3.7,<4", "~=3.8", ">=3.6,!=3.7.1"])
        t.append(f"requires-python = {q(rp)}")
        exp["requires_python"] = [rp]
    if some():
        t.append(f"license = {{ text = {q('MIT ' + sentence())} }}")
    for k, f in (("authors", "author"), ("maintainers", "maintainer")):
        if some(.5):
            who = rng.choice(["Ann", "Jörg Öz", "B. O'Brien"])
            if some(.5):
                t.append(f'{k} = [{{ name = {q(who)} }}]')
                exp[f] = [who]
            else:
                t.append(f'{k} = [{{ email = "a@b.example" }}]')
                exp[f + "_email"] = ["a@b.example"]
    if some(.5):
        us = {rng.choice(["Home", "Source Code", "Docs"]): f"https://h.example/{rng.randint(0, 99)}?q=1&r=ü" for _ in range(rng.randint(1, 3))}
        t.append("")
        t.append("[project.urls]")
        t += [f"{q(k)} = {q(v)}" for k, v in us.items()]
        exp["project_urls"] = [f"{k}, {v}" for k, v in us.items()]
    return "[project]\n" + "\n".join(t) + "\n", exp, name, version


SIZES = [0, 1, 2, 500, 8191, 8192, 8193, 16384, 40000, 300000]


def files(rng, name, version, dist):
    n = re.sub(r"[-_.]+", "_", name)
    kinds = [(f"{n}-{version}-py3-none-any.whl", "bdist_wheel", "py3"), (f"{n}-{version}-7-cp39-abi3-manylinux_2_17_x86_64.whl", "bdist_wheel", "cp39"),
             (f"{n}-{version}-py2.py3-none-any.whl", "bdist_wheel", "py2.py3"), (f"{n}-{version}.tar.gz", "sdist", "source"), (f"{n}-{version}-cp312-cp312-win_amd64.whl", "bdist_wheel", "cp312")]
    out = {}
    for fn, ft, pv in rng.sample(kinds, rng.randint(1, 4)):
        size = rng.choice(SIZES)
        data = rng.choice([lambda: rng.randbytes(size), lambda: (b"\r\n--" * (size // 4 + 1))[:size], lambda: bytes(size), lambda: (b"\r\n--boundary--\r\n" + rng.randbytes(64)) * (size // 80 + 1)])()
        (dist / fn).write_bytes(data)
        out[fn] = (ft, pv, data)
    return out


def run(ctx):
    from pkm.api.projects.project import Project
    from pkm.repositories.pypi_repository import PypiRepositoryBuilder

    ctx.rule = ("generated projects (unicode, multi-line, absent and repeated metadata) with 1-4 generated distribution files (sizes around the chunk size, bytes that look like boundaries, wheels with build tags) "
                "published through the real publisher to a loopback server that accepts, refuses (4xx/5xx, before or after reading), redirects, drops requests or closes idle connections; "
                "each accepted request is decoded strictly and matched one to one with the files")
    ctx.required_events = ["publishes", "accepted_uploads", "fields_compared", "repeated_after_drop", "stale_connection", "refusals_reported", "dropped_reported"]
    rng = ctx.rng
    work = pathlib.Path(ctx.scratch) / "work"
    server = Upload()
    budget = ctx.budget(35, 500)
    i = 0
    while i < ctx.pick(160, 3000) and budget():
        i += 1
        case(ctx, rng, i, work / f"p{i}", server, Project, PypiRepositoryBuilder)


def case(ctx, rng, i, d, server, Project, Builder):
    text, exp, name, version = project(rng)
    d.mkdir(parents=True)
    (d / "pyproject.toml").write_text(text, encoding="utf-8")
    dist = d / "dist" / version if rng.random() < .5 else d / "other"
    dist.mkdir(parents=True)
    fs = files(rng, name, version, dist)
    cred = {"username": rng.choice(["__token__", "user", "jörg", ""]), "password": rng.choice(["pw", "p:w:d", "pypi-AgEIcHlwaS5vcmc", "пароль", "a b\"c", "x" * 200])}
    kind = rng.choices(["ok", "stale", "drop-once", "cut-once", "refuse", "refuse-early", "redirect", "drop-always"], [4, 3, 2, 1, 3, 1, 1, 1])[0]
    k = rng.randrange(len(fs))
    plan = ["ok"] * len(fs)
    if kind == "stale":
        plan = ["ok-then-close"] * len(fs)
    elif kind in ("drop-once", "cut-once"):
        plan.insert(k, kind.split("-")[0])
    elif kind == "refuse":
        plan[k:] = [f"status-{rng.choice([400, 401, 403, 404, 409, 500, 502])}"] + ["ok"] * 9
    elif kind == "refuse-early":
        plan[k:] = ["refuse-early"] * 12
    elif kind == "redirect":
        plan[k:] = [f"redirect-{rng.choice([301, 302, 303, 307, 308])}"] + ["ok"] * 9
    elif kind == "drop-always":
        plan[k:] = ["drop"] * 12
    server.reset(plan)
    tag = f"seed {ctx.seed} case {i} ({kind}) files {sorted(fs)}"
    base = f"http://127.0.0.1:{server.port}/legacy"
    url = base + rng.choice(["", "", "/"])
    replay = dict(pyproject=text, files={f: len(v[2]) for f, v in fs.items()}, plan=plan)
    st, r = core.outcome(Builder().build, "local", f"http://127.0.0.1:{server.port}/pypi", url)
    if not ctx.check(st == "ok", "build", f"{tag}: repository could not be built: {r!r}"):
        return
    st, prj = core.outcome(Project.load, d)
    if not ctx.check(st == "ok", "load", f"{tag}: project could not be loaded: {r!r}", **replay):
        return
    res = core.timed(lambda: prj.publish(r if rng.random() < .5 else r.publisher, dict(cred), None if dist.parent.name == "dist" else dist), 60)
    ctx.event("publishes")
    ctx.evaluated((kind, text, tuple((f, hashlib.md5(v[2]).hexdigest()) for f, v in fs.items())), {"kind": kind, "files": sorted(fs), "requests": [e["mode"] for e in server.log]})
    ctx.distinct("history", (kind, tuple((e["mode"], e["status"]) for e in server.log)))
    if not ctx.check(res[0] != "hang", "hang", f"{tag}: publish never returned", **replay):
        return
    should_fail = kind in ("refuse", "refuse-early", "redirect", "drop-always")
    if should_fail:
        ctx.check(res[0] == "err", "failure-not-reported", f"{tag}: publish reported success, requests {[(e['mode'], e['status']) for e in server.log]}", **replay)
        ctx.event("dropped_reported" if kind == "drop-always" else "refusals_reported")
    else:
        if not ctx.check(res[0] == "ok", "publish-failed", f"{tag}: {short_tb(res[1]) if res[0] == 'err' else res}", **replay):
            return
        if kind in ("drop-once", "cut-once"):
            ctx.event("repeated_after_drop")
        if kind == "stale" and len(fs) > 1:
            ctx.event("stale_connection")
    seen = []
    for e in server.log:
        if e["mode"] == "refuse-early":
            continue
        ctx.check(not e.get("malformed"), "malformed-request", f"{tag}: {e.get('malformed')}", **replay)
        ctx.check(re.fullmatch(r"POST /legacy/? HTTP/1\.1", e["line"]), "request-line", f"{tag}: {e['line']!r}", **replay)
        hs = e["headers"]
        auth = [v for hk, v in hs if hk == "authorization"]
        want = "Basic " + base64.b64encode(f"{cred['username']}:{cred['password']}".encode()).decode()
        ctx.check(auth == [want], "credentials", f"{tag}: {auth} instead of {want}", **replay)
        if e["body"] is None:
            continue
        fn = judge(ctx, e, exp, fs, tag, replay)
        if e["status"] == 200:
            ctx.event("accepted_uploads")
            seen.append(fn)
    # (a request whose answer was lost may be sent again; one that was answered may not)
    ctx.check(len(seen) == len(set(seen)), "duplicate-upload", f"{tag}: accepted {seen}", **replay)
    if not should_fail:
        ctx.check(sorted(map(str, seen)) == sorted(fs), "missing-upload", f"{tag}: accepted {sorted(map(str, seen))}", **replay)


def judge(ctx, e, exp, fs, tag, replay):
    try:
        parts = parse_multipart(dict(e["headers"]).get("content-type"), e["body"])
    except (ValueError, UnicodeDecodeError) as x:
        ctx.violation("malformed-multipart", f"{tag}: {x}", **replay)
        return None
    form = {}
    for nm, fn, hs, data in parts:
        form.setdefault(nm, []).append((fn, data))
    content = form.get("content", [])
    if not ctx.check(len(content) == 1 and content[0][0] in fs, "content-part", f"{tag}: content parts {[(c[0], len(c[1])) for c in content]}", **replay):
        return None
    fn, data = content[0]
    ft, pv, want = fs[fn]
    ctx.check(data == want, "content", f"{tag}: {fn}: {len(data)} bytes sent, the file has {len(want)}, equal prefix {next((j for j, (a, b) in enumerate(zip(data, want)) if a != b), min(len(data), len(want)))}", **replay)
    text = {k: [v.decode("utf-8", "replace") for _, v in vs] for k, vs in form.items() if k != "content"}
    one = lambda k, v: ctx.check(text.get(k) == [v], "field-" + k.strip(":"), f"{tag}: {fn}: {k} = {text.get(k)} instead of {v!r}", **replay)
    one("filetype", ft), one("pyversion", pv), one(":action", "file_upload"), one("protocol_version", "1")
    one("md5_digest", hashlib.md5(want).hexdigest()), one("sha256_digest", hashlib.sha256(want).hexdigest())
    if "blake2_256_digest" in text:
        one("blake2_256_digest", hashlib.blake2b(want, digest_size=32).hexdigest())
    ctx.check(set(text) <= KNOWN_FIELDS, "unknown-field", f"{tag}: {sorted(set(text) - KNOWN_FIELDS)}", **replay)
    for k in ("name", "summary", "description", "description_content_type", "keywords", "author", "author_email", "maintainer", "maintainer_email"):
        got, w = text.get(k) or [], exp.get(k) or []
        if got == [""] or (k == "description_content_type" and not exp.get("description")):
            got = [] if not w else got
        if k in ("author", "maintainer"):    # quoted as a mail header would, or not
            got = [re.sub(r'^"(.*)"$', r"\1", x) for x in got]
        norm = (lambda v: [x.replace("\r\n", "\n") for x in v]) if k == "description" else (lambda v: v)
        ctx.check(norm(got) == w, "field-" + k, f"{tag}: {k} = {str(got)[:300]} instead of {str(w)[:300]}", **replay)
    ctx.check(len(text.get("version", [])) == 1 and PV(text["version"][0]) == PV(exp["version"][0]), "field-version", f"{tag}: version {text.get('version')}", **replay)
    ctx.check(len(text.get("metadata_version", [])) == 1, "field-metadata_version", f"{tag}: {text.get('metadata_version')}", **replay)
    for k in ("classifiers", "project_urls"):
        ctx.check(sorted(text.get(k, [])) == sorted(exp.get(k, [])), "field-" + k, f"{tag}: {k} = {text.get(k)} instead of {exp.get(k)}", **replay)
    st, got = core.outcome(lambda: sorted(map(req_key, text.get("requires_dist", []))))
    ctx.check(st == "ok" and got == sorted(map(req_key, exp.get("requires_dist", []))), "field-requires_dist", f"{tag}: requires_dist = {text.get('requires_dist')} instead of {exp.get('requires_dist')}", **replay)
    got, w = text.get("requires_python") or [], exp.get("requires_python") or []
    st, same = core.outcome(lambda: [SpecifierSet(x) for x in got] == [SpecifierSet(x) for x in w] or
                            all(SpecifierSet(got[0]).contains(v) == SpecifierSet(w[0]).contains(v) for v in ("3.5", "3.6", "3.7.0", "3.7.1", "3.8", "3.9.2", "4.0", "4.1", "2.7")))
    ctx.check(st == "ok" and same is True, "field-requires_python", f"{tag}: requires_python = {got} instead of {w}", **replay)
    ctx.event("fields_compared", len(text))
    return fn
