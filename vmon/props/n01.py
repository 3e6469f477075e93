"""N01: histories of fetches against a loopback server that misbehaves; results and the server's request log are judged by a cache model."""
import collections
import contextlib
import datetime
import email.utils as eu
import gzip
import hashlib
import io
import os
import pathlib
import shutil
import socket
import struct
import threading
import time

from vmon import core
from vmon.core import short_tb

Res = collections.namedtuple("Res", "body etag modified")


class Server:
    """HTTP/1.1 server with per-path behaviours; keeps a log of what it was asked and what it completely served"""

    def __init__(self):
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.lock = threading.Lock()
        self.res = {}          # path?query -> Res
        self.mode = {}         # path?query -> behaviour name
        self.redirect = {}     # path?query -> location
        self.log = []
        self.conns = 0
        threading.Thread(target=self._accept, daemon=True).start()

    def _accept(self):
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            self.conns += 1
            threading.Thread(target=self._serve, args=(c, self.conns), daemon=True).start()

    def _serve(self, c, cid):
        c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        f = c.makefile("rb")
        try:
            while True:
                line = f.readline()
                if not line.strip():
                    return
                parts = line.decode("latin1").split()
                headers = {}
                while (h := f.readline().strip()):
                    k, _, v = h.decode("latin1").partition(":")
                    headers[k.strip().lower()] = v.strip()
                if len(parts) != 3:
                    c.sendall(b"HTTP/1.1 400 Bad Request\r\ncontent-length: 0\r\n\r\n")
                    return
                if not self._respond(c, cid, parts[0], parts[1], headers):
                    return
        except OSError:
            pass
        finally:
            f.close()
            with contextlib.suppress(OSError):
                c.close()

    def _respond(self, c, cid, method, path, headers):
        with self.lock:
            r, mode, redirect = self.res.get(path), self.mode.get(path, "plain"), self.redirect.get(path)
            entry = {"path": path, "headers": headers, "conn": cid, "mode": mode, "t": time.monotonic(), "method": method}
            self.log.append(entry)
        send = c.sendall
        head = lambda status, *hs: (f"HTTP/1.1 {status} X\r\n" + "".join(f"{h}\r\n" for h in hs) + "\r\n").encode("latin1")
        if mode == "drop":
            return False
        if mode == "garbage":
            send(b"\x16\x03\x01 nonsense\r\n\r\n")
            return False
        if redirect is not None:
            body = b"<html>moved to somewhere</html>" * 20
            send(head(mode if mode.isdigit() else 302, f"location: {redirect}", f"content-length: {len(body)}") + body)
            return True
        if mode == "no-location":
            send(head(302, "content-length: 0"))
            return True
        if mode.startswith("status-"):
            body = b"HTTP/1.1 200 OK\r\ncontent-length: 4\r\n\r\nevil" * 30
            send(head(mode[7:], f"content-length: {len(body)}") + body)
            return True
        if r is None:
            send(head(404, "content-length: 9") + b"not found")
            return True
        meta = []
        if r.etag:
            meta.append(f"etag: {r.etag}")
        if r.modified:
            meta.append(f"last-modified: {eu.format_datetime(r.modified, usegmt=True)}")
        meta.append("date: " + eu.format_datetime(datetime.datetime.now(datetime.timezone.utc), usegmt=True))
        inm, ims = headers.get("if-none-match"), headers.get("if-modified-since")
        if mode != "unconditional":
            if inm and r.etag and inm == r.etag or (not inm and ims and r.modified and eu.parsedate_to_datetime(ims) >= r.modified):
                entry["served"] = 304
                send(head(304, *meta))
                return True
        body = r.body
        if mode in ("gzip", "gzip-truncated", "gzip-chunked", "gzip-corrupt"):
            body = gzip.compress(body)
            meta.append("content-encoding: gzip")
            if mode == "gzip-corrupt":
                body = body[:-6] + bytes(6)
        if mode in ("chunked", "gzip-chunked", "chunked-truncated", "chunked-bad"):
            send(head(200, "transfer-encoding: chunked", *meta))
            cut = len(body) if not mode.endswith("truncated") else max(1, len(body) // 2)
            i = 0
            while i < cut:
                part = body[i:min(cut, i + 7000)]
                send(f"{len(part):x}\r\n".encode() + part + b"\r\n")
                i += len(part)
            if mode == "chunked-truncated":
                return False
            if mode == "chunked-bad":
                send(b"zz\r\n")
                return False
            send(b"0\r\n\r\n")
        elif mode in ("truncated", "gzip-truncated", "reset"):
            send(head(200, f"content-length: {len(body)}", *meta) + body[:len(body) // 2])
            if mode == "reset":
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            return False
        elif mode == "close-delimited":
            send(head(200, "connection: close", *meta) + body)
            entry["served"] = 200
            return False
        elif mode == "slow":
            send(head(200, f"content-length: {len(body)}", *meta))
            for i in range(0, len(body), max(1, len(body) // 6)):
                time.sleep(.006)
                send(body[i:i + max(1, len(body) // 6)])
        else:
            send(head(200, f"content-length: {len(body)}", *meta) + body)
        entry["served"] = 200
        return mode != "silent-close"

    def close(self):
        self.sock.close()


GOOD = ["plain", "plain", "plain", "gzip", "chunked", "gzip-chunked", "close-delimited", "silent-close", "slow", "unconditional"]
BAD = ["truncated", "reset", "chunked-truncated", "chunked-bad", "gzip-truncated", "gzip-corrupt", "status-404", "status-500", "status-403", "status-204", "status-206", "drop", "garbage", "no-location"]


def run(ctx):
    from pkm.utils.http.cache_directive import CacheDirective
    from pkm.utils.http.http_client import HttpClient, HttpException

    ctx.rule = ("random histories of fetches (always / revalidate / bypass / newer-than) over URLs that differ in one part, against a loopback server switching between good forms "
                "(gzip, chunked, close-delimited, silent close, slow, redirects of all kinds) and faults (truncation in every encoding, resets, error status with body, drops, garbage), content changes, "
                "client restarts, concurrent fetches; every result and the server's request log judged by a cache model")
    ctx.required_events = ["fetches", "cache_hit", "revalidated_304", "content_changed_seen", "fault_reported", "after_fault_ok", "redirects", "concurrent_groups", "restarts", "gzip", "keepalive_after_error",
                           "redirect_limit", "validator_sequences", "torn_read_probe"]
    rng = ctx.rng
    work = pathlib.Path(ctx.scratch) / "work"
    n = ctx.pick(60, 900)
    budget = ctx.budget(45, 600)
    hist = 0
    servers = [Server(), Server()]
    while hist < n and budget():
        history(ctx, rng, hist, work, servers, CacheDirective, HttpClient, HttpException)
        hist += 1
    validators(ctx, rng, work, servers[0], CacheDirective, HttpClient)
    for i in range(ctx.pick(12, 120)):
        if not budget():
            break
        torn_reads(ctx, rng, i, work, servers[0], CacheDirective, HttpClient)


def history(ctx, rng, hist, work, servers, CacheDirective, HttpClient, HttpException):
    ws = work / f"ws{hist}"
    client = HttpClient(ws)
    s1, s2 = servers
    names = rng.sample(["/pkg/a-1.0.whl", "/pkg/a-1.0.tar.gz", "/simple/a", "/simple/a/", "/x", "/X", "/a%20b", "/deep/x/y/z.json", "/"], 4)
    urls = []
    for p in names:
        urls.append((s1, f"http://127.0.0.1:{s1.port}{p}", p))
        k = rng.random()
        if k < .3:
            urls.append((s1, f"http://127.0.0.1:{s1.port}{p}?v=1", f"{p}?v=1"))
            urls.append((s1, f"http://127.0.0.1:{s1.port}{p}?v=2", f"{p}?v=2"))
        elif k < .5:
            urls.append((s2, f"http://127.0.0.1:{s2.port}{p}", p))
        elif k < .7:
            urls.append((s1, f"http://localhost:{s1.port}{p}", p))
        elif k < .85:
            urls.append((s1, f"http://127.0.0.1:{s1.port}{p}#sha256=abc", p))
    focused = hist % 3 == 2   # few resources that change often: long histories of the same cache entry
    if focused:
        urls = urls[:2]
    for s in servers:
        s.res.clear(), s.mode.clear(), s.redirect.clear()
        s.log.clear()
    version = collections.Counter()
    undated = set()

    past = collections.defaultdict(list)

    def content(s, p):
        if past[(id(s), p)] and rng.random() < .3:   # back to an earlier version
            s.res[p] = rng.choice(past[(id(s), p)])
            ctx.event("reverted")
            return
        version[(id(s), p)] += 1
        tok = f"{s.port}|{p}|{version[(id(s), p)]}|".encode()
        body = tok + rng.randbytes(rng.choice([0, 10, 500, 9000, 70000, 200000]))
        if rng.random() < .03 and s.mode.get(p, "plain") in GOOD:
            body = b""
        etag = rng.choice([None, f'"{hashlib.md5(body).hexdigest()}"', f'W/"{version[(id(s), p)]}-{hist}-{abs(hash(p)) % 997}"'])
        # second granularity is all the protocol has: every version gets its own second
        mod = rng.choice([None, datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(hours=version[(id(s), p)])]) if etag is None or rng.random() < .5 else None
        if (id(s), p) in undated:
            mod = None   # the client may use the date of the answer; a later version must not claim to be older than that
        if etag is None and mod is None:
            undated.add((id(s), p))
        s.res[p] = Res(body, etag, mod)
        if etag:
            past[(id(s), p)].append(Res(body, etag, None))

    for s, u, p in urls:
        content(s, p)
    cache = {}       # url -> set of bodies that a lookup in the cache may give (None: not cached)
    fetched_at = {}
    log = []

    def canonical(u):
        return u

    def one(s, u, p, directive, dname, hops=0):
        """a single fetch judged by the model"""
        start = [len(s1.log), len(s2.log)]
        t0 = datetime.datetime.now(datetime.timezone.utc)
        res = core.timed(lambda: client.fetch_resource(u, directive), 30)
        data = None
        if res[0] == "ok":
            data = res[1].data.read_bytes() if res[1] is not None and res[1].data.exists() else None
        reqs = s1.log[start[0]:] + s2.log[start[1]:]
        tag = f"seed {ctx.seed} history {hist} {log[-8:]}"
        ctx.event("fetches")
        ctx.evaluated((hist, len(log)), {"history": list(log)})
        if not ctx.check(res[0] != "hang", "hang", f"{tag}: fetch never returned"):
            return
        for r in reqs:
            ctx.check("#" not in r["path"], "fragment-sent", f"{tag}: request target {r['path']!r}")
        final = s
        q, seen = p, 0
        mode = s.mode.get(p, "plain")
        loc_ok = True
        while final.redirect.get(q) is not None:
            seen += 1
            if seen > 3:
                loc_ok = False
                break
            q = final.redirect_target[q]
        mode = final.mode.get(q, "plain") if loc_ok else "loop"
        if mode.isdigit():
            mode = "plain"
        confirmed = any(r.get("served") == 304 for r in reqs)   # no body is sent, so a body fault cannot show
        good = loc_ok and q in final.res and (mode in GOOD or confirmed)
        options = cache.get(u, {None})
        current = final.res[q].body if q in final.res else None
        if res[0] == "ok":
            if not ctx.check(data is not None, "no-data", f"{tag}: success without data"):
                return
            if not reqs:
                allowed = {b for b in options if b is not None}
                ctx.check(dname in ("always", "after-past", "after-between"), "no-request", f"{tag}: directive {dname} served from the cache without asking the server")
                ctx.check(data in allowed, "wrong-cached", f"{tag}: cached content {_d(data)} but the cache could only hold {[_d(a) for a in allowed]}")
                ctx.event("cache_hit")
            else:
                ctx.check(dname not in ("always", "after-past") or None in options, "needless-request", f"{tag}: directive {dname} went to the server although {_d(next(iter(options)))} was cached")
                ctx.check(good, "fault-accepted", f"{tag}: server answered with {mode}, fetch succeeded with {_d(data)}")
                ctx.check(data == current, "wrong-content", f"{tag}: got {_d(data)}, server holds {_d(current)}")
                if any(r.get("served") == 304 for r in reqs):
                    ctx.event("revalidated_304")
                    ctx.check(dname != "never", "conditional", f"{tag}: bypassing the cache sent a conditional request")
                if options != {None} and data not in options:
                    ctx.event("content_changed_seen")
                if "gzip" in mode:
                    ctx.event("gzip")
                cache[u] = {data}
                fetched_at[u] = t0
                if seen:
                    ctx.event("redirects")
                if getattr(client, "_vmon_failed", False):
                    ctx.event("after_fault_ok")
        else:
            if not reqs:
                ctx.violation("error-without-request", f"{tag}: {short_tb(res[1], 4)}")
            ctx.check(not good, "spurious-error", f"{tag}: server answered properly ({mode}, {len(reqs)} requests): {short_tb(res[1], 5)}")
            ctx.check(isinstance(res[1], HttpException), "error-kind", f"{tag}: {type(res[1]).__name__} instead of HttpException: {short_tb(res[1], 4)}")
            ctx.event("fault_reported")
            if mode == "loop":
                ctx.event("redirect_limit")
            if mode.startswith("status-"):
                ctx.event("keepalive_after_error")
            client._vmon_failed = True
            cache[u] = options | {None}
        for r in reqs:
            if ("if-none-match" in r["headers"] or "if-modified-since" in r["headers"]) and options == {None}:
                ctx.violation("conditional-uncached", f"{tag}: conditional request for something that is not cached")

    for s in servers:
        s.redirect_target = {}
    directives = {
        "always": lambda u: CacheDirective.allways(), "revalidate": lambda u: CacheDirective.ask_for_update(), "never": lambda u: CacheDirective.never(), "default": lambda u: None,
        "after-past": lambda u: CacheDirective.if_retrieved_after(datetime.datetime(2001, 1, 1, tzinfo=datetime.timezone.utc)),
        "after-future": lambda u: CacheDirective.if_retrieved_after(datetime.datetime.now(datetime.timezone.utc) + datetime.timedelta(days=1)),
    }
    for step in range(rng.randrange(6, 26)):
        s, u, p = rng.choice(urls)
        op = rng.choice(["fetch"] * 5 + ["change"] * 4 + ["restart"]) if focused else rng.choice(["fetch"] * 8 + ["change", "change", "mode", "mode", "redirect", "redirect", "restart", "concurrent", "clear"])
        if op == "change":
            content(s, p)
            log.append(f"change {p}")
        elif op == "mode":
            s.redirect.pop(p, None)
            s.mode[p] = rng.choice(GOOD) if rng.random() < .55 or not s.res[p].body else rng.choice(BAD)
            log.append(f"{p} now {s.mode[p]}")
        elif op == "redirect":
            t = rng.choice([x for x in urls if x[0] is s and "#" not in x[1]])[2]
            kind = rng.choice(["absolute", "root", "relative"])
            if kind == "absolute":
                loc = f"http://127.0.0.1:{s.port}{t}"
            elif kind == "root":
                loc = t
            else:
                up = "../" * (p.partition("?")[0].count("/") - 1)
                loc = (up or "./") + t[1:]
            s.redirect[p] = loc
            s.redirect_target[p] = t
            s.mode[p] = rng.choice(["301", "302", "303", "307", "308"])
            log.append(f"{p} redirects ({kind}) to {t}")
        elif op == "restart":
            client = HttpClient(ws)
            ctx.event("restarts")
            log.append("restart")
        elif op == "clear":
            client.clear_resources()
            cache.clear()
            log.append("clear")
        elif op == "concurrent":
            concurrent(ctx, rng, hist, log, client, urls, cache, directives, HttpException)
        else:
            dname = rng.choice(["revalidate"] * 4 + ["always", "after-future"]) if focused else rng.choice(["always", "always", "revalidate", "revalidate", "never", "after-past", "after-future", "default"])
            log.append(f"fetch {u[17:]} {dname} [{s.mode.get(p, 'plain')}]")
            one(s, u, p, directives[dname](u), "always" if dname == "default" else dname)
        if ctx.violated:
            break
    shutil.rmtree(ws, ignore_errors=True)


def concurrent(ctx, rng, hist, log, client, urls, cache, directives, HttpException):
    """several threads fetch a few URLs at once while the server is slow"""
    picks = rng.sample(urls, min(3, len(urls)))
    jobs = []
    for _ in range(rng.randrange(4, 10)):
        s, u, p = rng.choice(picks)
        jobs.append((s, u, p, rng.choice(["always", "revalidate", "never"])))
    for s, u, p in picks:
        if s.redirect.get(p) is not None:
            s.redirect.pop(p)
        s.mode[p] = rng.choice(["slow", "slow", "plain", "truncated" if s.res[p].body else "gzip", "chunked"])
    log.append(f"concurrent {[(j[1][17:], j[3]) for j in jobs]}")
    results = [None] * len(jobs)
    gate = threading.Barrier(len(jobs))

    def work(i):
        s, u, p, d = jobs[i]
        gate.wait()
        try:
            r = client.fetch_resource(u, directives[d](u))
            results[i] = ("ok", r.data.read_bytes())
        except Exception as e:  # noqa
            results[i] = ("err", e)

    ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(jobs))]
    [t.start() for t in ts]
    end = time.monotonic() + 30
    [t.join(max(0, end - time.monotonic())) for t in ts]
    tag = f"seed {ctx.seed} history {hist} {log[-6:]}"
    ctx.event("concurrent_groups")
    ctx.evaluated((hist, len(log)))
    for i, (s, u, p, d) in enumerate(jobs):
        mode, cur, opts = s.mode[p], s.res[p].body, cache.get(u, {None})
        r = results[i]
        if not ctx.check(r is not None, "hang", f"{tag}: concurrent fetch of {u} never returned"):
            continue
        if r[0] == "ok":
            ok = {cur} if mode in GOOD or cur in opts else set()  # (a fault in the body cannot show in a 304)
            # joining another thread's fetch may give what its directive allows
            joinable = any(j[1] == u and j[3] == "always" for j in jobs)
            if d == "always" or joinable:
                ok |= {b for b in opts if b is not None}
            ctx.check(r[1] in ok, "concurrent-content", f"{tag}: {u} ({d}, server {mode}) gave {_d(r[1])}, expected one of {[_d(o) for o in ok]}")
        else:
            ctx.check(mode not in GOOD, "spurious-error", f"{tag}: {u} ({d}) failed although the server is fine: {short_tb(r[1], 5)}")
            ctx.check(isinstance(r[1], HttpException), "error-kind", f"{tag}: {short_tb(r[1], 4)}")
    for s, u, p in picks:
        got = {r[1] for r, j in zip(results, jobs) if j[1] == u and r and r[0] == "ok"}
        failed = any(r and r[0] == "err" for r, j in zip(results, jobs) if j[1] == u)
        if got or failed:
            cache[u] = cache.get(u, {None}) | got | ({None} if failed else set())
            if got and not failed and s.mode[p] in GOOD and all(j[3] != "always" for j in jobs if j[1] == u):
                cache[u] = got
            elif got and not failed:
                cache[u] -= {None}


def validators(ctx, rng, work, s, CacheDirective, HttpClient):
    """every short succession of contents with an entity tag, a date or neither; the client asks after each change"""
    import itertools
    ws = work / "validators"
    client = HttpClient(ws)
    for i, kinds in enumerate(itertools.product(["E1", "E2", "M", "N"], repeat=ctx.pick(4, 6))):
        if "N" in kinds and "M" in kinds[kinds.index("N"):]:
            continue   # (the date of an undated answer is newer than the dates used here)
        if rng.random() < .05:
            client = HttpClient(ws)
        path = f"/validators/{i}"
        for step, k in enumerate(kinds):
            if k[0] == "E":
                s.res[path] = Res(f"{i} {k}".encode(), f'"{k}"', None)
            elif k == "M":
                s.res[path] = Res(f"{i} {step}".encode(), None, datetime.datetime(2020, 1, 1 + step, tzinfo=datetime.timezone.utc))
            else:
                s.res[path] = Res(f"{i} {step}".encode(), None, None)
            kind, r = core.outcome(client.fetch_resource, f"http://127.0.0.1:{s.port}{path}", CacheDirective.ask_for_update())
            ctx.evaluated(("validators", kinds[:step + 1]))
            ctx.event("validator_sequences")
            if kind == "err":
                ctx.violation("spurious-error", f"contents {kinds[:step + 1]} in succession: {short_tb(r)}")
                break
            got = r.data.read_bytes()
            if not ctx.check(got == s.res[path].body, "wrong-content", f"contents validated by {kinds[:step + 1]} in succession: got {got!r}, server holds {s.res[path].body!r}"):
                break
    shutil.rmtree(ws, ignore_errors=True)


def torn_reads(ctx, rng, i, work, s, CacheDirective, HttpClient):
    """readers of an already fetched file never see a half-written refresh"""
    ws = work / f"torn{i}"
    client = HttpClient(ws)
    path = "/torn/file.bin"
    bodies = {}
    s.redirect.clear()
    s.mode.clear()

    def put(v):
        s.res[path] = Res(bytes([v]) * 60000, None, None)
        bodies[v] = s.res[path].body

    put(1)
    url = f"http://127.0.0.1:{s.port}{path}"
    first = client.fetch_resource(url, CacheDirective.allways())
    s.mode[path] = "slow"
    bad, stop = [], threading.Event()

    def reader():
        while not stop.is_set():
            try:
                d = first.data.read_bytes()
            except FileNotFoundError:
                d = b"<missing>"
            if d not in bodies.values():
                bad.append(d)
            ctx.event("torn_read_probe")

    t = threading.Thread(target=reader, daemon=True)
    t.start()
    for v in (2, 3):
        put(v)
        client.fetch_resource(url, CacheDirective.ask_for_update())
    s.mode[path] = "truncated"
    put(4)
    core.outcome(client.fetch_resource, url, CacheDirective.ask_for_update())
    stop.set()
    t.join(5)
    ctx.evaluated(("torn", i))
    ctx.check(not bad, "torn-read", f"seed {ctx.seed}: while a resource is refreshed its previous fetcher reads {_d(bad[0]) if bad else ''} ({len(bad)} times)")
    shutil.rmtree(ws, ignore_errors=True)


def _d(b):
    return None if b is None else f"{b[:40]!r}..({len(b)} bytes)"
