"""A package index server on the loopback: several indexes, simple pages and the JSON interface, a log of what was asked."""
import hashlib
import html
import http.server
import json
import re
import threading
import urllib.parse


def norm(name):
    return re.sub(r"[-_.]+", "-", name).lower()


class File:
    def __init__(self, name, data, version, requires_python=None, yanked=None, requires=None, href="absolute", digest="sha256", declared=None, kind=None):
        self.name, self.data, self.version, self.requires_python, self.yanked = name, data, version, requires_python, yanked
        self.requires, self.href, self.digest, self.declared = requires, href, digest, declared       # declared: content whose digest the index declares
        self.kind = kind or ("bdist_wheel" if name.endswith(".whl") else "sdist")


class Index:
    def __init__(self, name):
        self.name, self.files = name, {}        # {normalized project: [File]}

    def add(self, project, file):
        self.files.setdefault(norm(project), []).append(file)


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"

    def log_message(self, *a):
        pass

    def answer(self, status, data=b"", ctype="text/html", **headers):
        etag = '"' + hashlib.md5(data).hexdigest() + '"'
        if status == 200 and self.headers.get("If-None-Match") == etag:
            status, data = 304, b""
        self.send_response(status)
        self.send_header("Content-Type", ctype)
        self.send_header("Content-Length", str(len(data)))
        if status in (200, 304):
            self.send_header("ETag", etag)
        for k, v in headers.items():
            self.send_header(k, v)
        self.end_headers()
        self.wfile.write(data)

    def do_GET(self):
        s = self.server.owner
        path = urllib.parse.unquote(self.path)
        parts = path.strip("/").split("/")
        index = s.indexes.get(parts[0])
        if index is None or len(parts) < 3:
            return self.answer(404)
        kind, name = parts[1], parts[2]
        with s.lock:
            s.log.append((index.name, kind, name if kind == "files" else norm(name)))
        if kind == "files":
            for fs in index.files.values():
                for f in fs:
                    if f.name == name:
                        return self.answer(200, f.data, "application/octet-stream")
            return self.answer(404)
        files = index.files.get(norm(name))
        if not files:
            return self.answer(s.missing_status)
        if kind == "simple":
            if path != f"/{index.name}/simple/{norm(name)}/" and s.redirects:
                return self.answer(301, Location=f"/{index.name}/simple/{norm(name)}/")
            return self.answer(200, s.page(index, name, files).encode())
        if kind == "pypi":
            version = parts[3] if parts[-1] == "json" and len(parts) == 5 else None
            doc = s.document(index, name, files, version)
            return self.answer(200, json.dumps(doc).encode(), "application/json") if doc else self.answer(404)
        return self.answer(404)


class Server:
    def __init__(self, redirects=True, missing_status=404):
        self.indexes, self.log, self.lock = {}, [], threading.Lock()
        self.redirects, self.missing_status = redirects, missing_status
        self.http = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
        self.http.daemon_threads = True
        self.http.owner = self
        threading.Thread(target=self.http.serve_forever, daemon=True).start()
        self.url = f"http://127.0.0.1:{self.http.server_address[1]}"

    def index(self, name):
        self.indexes[name] = Index(name)
        return self.indexes[name]

    def take_log(self):
        with self.lock:
            out, self.log = self.log, []
        return out

    def file_url(self, index, f):
        return f"{self.url}/{index.name}/files/{urllib.parse.quote(f.name)}"

    def page(self, index, name, files):
        out = ["<!DOCTYPE html>\n<html><head><meta name=\"pypi:repository-version\" content=\"1.0\"><title>Links</title></head>\n<body><h1>Links for " + html.escape(name) + "</h1>\n"]
        for f in files:
            href = {"absolute": self.file_url(index, f), "root": f"/{index.name}/files/{urllib.parse.quote(f.name)}",
                    "relative": f"../../files/{urllib.parse.quote(f.name)}"}[f.href]
            if f.digest:
                href += f"#{f.digest}={hashlib.new(f.digest, f.data if f.declared is None else f.declared).hexdigest()}"
            more = ""
            if f.requires_python:
                more += f' data-requires-python="{html.escape(f.requires_python)}"'
            if f.yanked is not None:
                more += f' data-yanked="{html.escape(f.yanked)}"' if f.yanked else " data-yanked"
            out.append(f'<a href="{html.escape(href)}"{more}>{html.escape(f.name)}</a><br/>\n')
        return "".join(out) + "</body></html>\n"

    def document(self, index, name, files, version):
        def entry(f):
            declared = f.data if f.declared is None else f.declared
            return {"filename": f.name, "url": self.file_url(index, f), "packagetype": f.kind, "yanked": f.yanked is not None, "yanked_reason": f.yanked or None,
                    "requires_python": f.requires_python, "digests": {h: hashlib.new(h, declared).hexdigest() for h in (("md5", "sha256") if f.digest == "sha256" else (f.digest,) if f.digest else ())},
                    "size": len(f.data), "python_version": "py3", "comment_text": ""}
        releases = {}
        for f in files:
            releases.setdefault(f.version, []).append(entry(f))
        if version is not None and version not in releases:
            return None
        chosen = version or list(releases)[-1]
        requires = next((f.requires for f in files if f.version == chosen), None)
        return {"info": {"name": name, "version": chosen, "requires_dist": requires, "summary": "s", "author": "a", "classifiers": []},
                "releases": releases, "urls": releases[chosen], "last_serial": 1}

    def stop(self):
        self.http.shutdown()
        self.http.server_close()
