"""C02: files of package information written by pkm are read by pkm and by standard readers, files of standard tools are read by pkm."""
import csv
import importlib.metadata as im
import io
import json
import os
import random
import site
import subprocess
import sys
from dataclasses import replace
from pathlib import Path

from packaging import metadata as pmd
from packaging.version import Version as PV

from vmon.core import outcome, short_tb
from vmon.props import d01, d02

RULE = "a case is one file content in one of the formats, distinct by format and content"
WORDS = ["a", "tool", "for", "parsing", "ünïcode", "日本", "text", "fast;", "1.0", "x: y", "(see)", "http://x.io/a?b=c#d", "\"q\"", "it's", "🚀", "-", "#", "=", "%s", "<a@b.c>", "é"]
MULTI = {"Classifier": ["Programming Language :: Python :: 3", "License :: OSI Approved :: MIT License", "Topic :: Système"], "Provides-Extra": ["test", "docs", "a.b"],
         "Project-URL": ["Home, https://example.com/a b", "Bug Tracker, https://x.io/?q=a,b"], "Platform": ["linux", "any"], "Requires-External": ["libc (>=2)"],
         "Obsoletes-Dist": ["old (<2)"], "Provides-Dist": ["virtual"], "Supported-Platform": ["x86"], "Dynamic": ["license"]}
SINGLE = {"Author": None, "Author-email": None, "Maintainer": None, "Home-page": None, "Keywords": None, "Description-Content-Type": ["text/markdown", "text/x-rst; charset=UTF-8"], "Download-URL": None}
LICENSES = ["MIT", "BSD 3-Clause", "MIT License\n\nCopyright (c) 2020 Ä\n\nPermission is hereby\n    granted: to all\n\tand tab\nend", "A\nB", "GPL: v3\nName: x"]
SAMPLE = [v for v in map(PV, d02.SAMPLE) if not v.is_prerelease]
_R = random.Random(1)
ENVS = [{**{v: _R.choice(d01.VERSIONS) for v in d01.VERSION_VARS}, **{v: _R.choice(d01.STRINGS[v]) for v in d01.STRING_VARS}, "extra": _R.choice(["", *d01.EXTRAS])} for _ in range(12)]
PKG_NAMES = ["foo", "Foo_Bar", "zope.interface", "a-b.c_d", "x2"]


def line(rng, n=12):
    return " ".join(rng.choice(WORDS) for _ in range(rng.choice([1, 2, 3, n, 3 * n]))).strip()


def description(rng):
    k = rng.random()
    if k < .2:
        return ""
    ls = [rng.choice(["", "# Title", "    code block", "\ttab", "Name: not a header", "-- ", "From me to you", ".", "From: x", "=====", line(rng)]) for _ in range(rng.choice([1, 2, 6, 15]))]
    text = "\n".join(ls) + rng.choice(["", "\n", "\n\n"])
    return text if text.strip() else "x" + text


def dep_texts(rng, n):
    from packaging.requirements import Requirement
    out = []
    while len(out) < n:
        t = d02.gen(rng)[0]
        try:
            Requirement(t)
            out.append(t.strip())
        except Exception:  # noqa
            pass
    return out


def req_key(text):
    from packaging.requirements import Requirement
    r = Requirement(text)
    return (d02.norm(r.name), frozenset(d02.norm(e) for e in r.extras), r.url, tuple(r.specifier.contains(v, prereleases=True) for v in SAMPLE),
            tuple(_holds(r.marker, e) for e in ENVS) if r.marker else None)


def _holds(marker, env):
    try:
        return marker.evaluate(env)
    except Exception:  # noqa
        return "undefined"


def run(ctx):
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.distributions.distinfo import DistInfo, EntrypointsConfiguration, Record, RecordsFileConfiguration, WheelFileConfiguration
    from pkm.api.distributions.pth_link import PthLink
    from pkm.api.environments.environment_builder import EnvironmentBuilder, PyVEnvConfiguration
    from pkm.api.packages.package_installation_info import PackageInstallationInfo, StoreMode
    from pkm.api.packages.package_metadata import PackageMetadata
    from pkm.api.versions.version import Version
    from pkm.api.versions.version_specifiers import AllowAllVersions, VersionSpecifier
    from pkm.utils.entrypoints import EntryPoint, ObjectReference
    from pkm.utils.hashes import HashSignature

    rng = ctx.rng
    ctx.rule = RULE
    ctx.assumptions = ["standard readers: packaging.metadata, importlib.metadata, csv, site and the interpreter itself",
                       "values hold what the formats can express: single-line fields have no line breaks, names of entry points have no '='"]
    ctx.required_events = ["METADATA written", "METADATA of other tools", "WHEEL", "RECORD", "entry points", "REQUESTED", "INSTALLATION_MODE", "pyvenv.cfg", "site links", "environments started"]
    root = Path("info")
    root.mkdir()
    n = [0]

    def distdir(name="foo", version="1.0"):
        n[0] += 1
        d = root / f"d{n[0]}" / f"{name}-{version}.dist-info"
        d.mkdir(parents=True)
        return d

    def guarded(key, msg, fn, **replay):
        st, r = outcome(fn)
        if st == "err":
            ctx.violation(key, f"{msg}: {short_tb(r)}", **replay)
            return None
        return r

    # ------------------------------------------------------------------ METADATA
    def meta_fields():
        f = {"Name": rng.choice(PKG_NAMES), "Version": rng.choice(["1.0", "2!1.0.post3", "1.0a1.dev2", "0.0.1", "1.0+local.1"]), "Summary": line(rng)}
        for k, opts in SINGLE.items():
            if rng.random() < .4:
                f[k] = rng.choice(opts) if opts else line(rng)
        if rng.random() < .6:
            f["License"] = rng.choice(LICENSES)
        for k, opts in MULTI.items():
            if rng.random() < .4:
                f[k] = rng.sample(opts, rng.randrange(1, len(opts) + 1))
        f["Requires-Dist"] = dep_texts(rng, rng.choice([0, 1, 3]))
        if rng.random() < .6:
            f["Requires-Python"] = rng.choice([">=3.6", ">=3.6, !=3.7.*, <4", "~=3.8", "==3.*", ">=2.7,!=3.0.*,!=3.1.*"])
        f["Description"] = description(rng)
        return f

    def undent(v):
        first, *more = v.split("\n")
        return "\n".join([first, *(l[8:] if l.startswith(" " * 8) else l.lstrip() for l in more)])

    def judge_loaded(tag, m, f, text):
        bad = []
        eq = lambda name, a, b: a == b or bad.append((name, a, b))
        eq("Name", m.package_name, f["Name"])
        eq("Version", m.package_version, Version.parse(f["Version"]))
        eq("Summary", m.summary, f["Summary"])
        eq("Description", (m.description or "").rstrip("\n"), f["Description"].rstrip("\n"))
        eq("Requires-Dist", [req_key(str(d)) for d in m.dependencies], [req_key(t) for t in f["Requires-Dist"]])
        spec = f.get("Requires-Python")
        want = VersionSpecifier.parse(spec) if spec else AllowAllVersions
        for v in ("2.7", "3.0", "3.0.5", "3.1.2", "3.6", "3.7.9", "3.8", "3.10.1", "4.0"):
            eq(f"Requires-Python {v}", m.required_python_spec.allows_version(Version.parse(v)), want.allows_version(Version.parse(v)))
        for k, v in f.items():
            if k in SINGLE or k in MULTI or k == "License":
                eq(k, m.leftovers.get(k), v)
        if bad:
            ctx.violation(f"METADATA:{tag}:{bad[0][0]}", f"METADATA {tag}: field {bad[0][0]} is {bad[0][1]!r}, expected {bad[0][2]!r}\n{text[:1500]}", text=text)
        return not bad

    def judge_standard(f, text):
        raw, unparsed = pmd.parse_email(text.encode())
        bad = []
        eq = lambda name, a, b: a == b or bad.append((name, a, b))
        eq("unparsed", {k: v for k, v in unparsed.items()}, {})
        eq("name", raw.get("name"), f["Name"])
        eq("version", raw.get("version"), f["Version"])
        eq("summary", raw.get("summary"), f["Summary"])
        eq("description", (raw.get("description") or "").rstrip("\n"), f["Description"].rstrip("\n"))
        eq("requires_dist", [req_key(t) for t in raw.get("requires_dist", [])], [req_key(t) for t in f["Requires-Dist"]])
        for k, name in (("Author", "author"), ("Author-email", "author_email"), ("Maintainer", "maintainer"), ("Home-page", "home_page"), ("Download-URL", "download_url"),
                        ("Description-Content-Type", "description_content_type")):
            eq(k, raw.get(name), f.get(k))
        for k, name in (("Classifier", "classifiers"), ("Provides-Extra", "provides_extra"), ("Platform", "platforms"), ("Requires-External", "requires_external"),
                        ("Obsoletes-Dist", "obsoletes_dist"), ("Provides-Dist", "provides_dist"), ("Supported-Platform", "supported_platforms"), ("Dynamic", "dynamic")):
            eq(k, raw.get(name, []), f.get(k, []))
        if "License" in f:
            eq("License", undent(raw.get("license", "")), f["License"].replace("\t", "\t"))
        dist = im.PathDistribution(None)  # only for its message parser
        msg = im._adapters.Message(__import__("email").message_from_string(text))
        eq("importlib requires", [req_key(t) for t in (msg.get_all("Requires-Dist") or [])], [req_key(t) for t in f["Requires-Dist"]])
        if bad:
            ctx.violation(f"METADATA:standard-reader:{bad[0][0]}", f"a standard reader sees {bad[0][0]} as {bad[0][1]!r}, written was {bad[0][2]!r}\n{text[:1500]}", text=text)

    def render_meta(f):
        """as setuptools / flit / hatch write it"""
        style = rng.choice(["setuptools", "old", "plain"])
        ls = ["Metadata-Version: 2.1"]
        for k, v in f.items():
            if k == "Description":
                continue
            for x in v if isinstance(v, list) else [v]:
                ls.append(f"{k}: " + x.replace("\n", "\n" + " " * 8))
        if style != "plain":
            tail = [l for l in ls[3:]]
            rng.shuffle(tail)
            ls = ls[:3] + [l for l in ls[3:]] if rng.random() < .5 else ls[:3] + _stable(tail, ls[3:])
        text = "\n".join(ls) + "\n"
        d = f["Description"]
        if style == "old" and d and not d.startswith("\n") and "\n\n" not in d and not any(l.startswith((" ", "\t")) for l in d.split("\n")):
            text += "Description: " + d.rstrip("\n").replace("\n", "\n" + " " * 8) + "\n"
        elif d:
            text += "\n" + d
        elif rng.random() < .5:
            text += "\n"
        if rng.random() < .1:
            text = text.replace("\n", "\r\n")
        return text

    more = ctx.budget(6, 240)
    while more():
        f = meta_fields()
        di = DistInfo.load(distdir())
        # written by pkm
        m = PackageMetadata.from_config({"Metadata-Version": "2.1", **{k: list(v) if isinstance(v, list) else v for k, v in f.items()}})
        ctx.event("METADATA written")
        ctx.evaluated(("METADATA", repr(f)), sample={"fields": {k: v for k, v in f.items() if k != "Description"}})
        if guarded("METADATA:write-crash", f"metadata {f} cannot be written", lambda: m.save(di.metadata_path()) or True, fields=f):
            text = di.metadata_path().read_text(encoding="utf-8")
            back = guarded("METADATA:read-crash", "written metadata cannot be read", di.load_metadata_cfg, text=text)
            if back:
                judge_loaded("read back", back, f, text)
                judge_standard(f, text)
                again = guarded("METADATA:rewrite-crash", "loaded metadata cannot be saved", lambda: back.save(di.path / "M2") or True, text=text)
                if again:
                    m2 = (di.path / "M2").read_text(encoding="utf-8")
                    third = PackageMetadata.load(di.path / "M2")
                    judge_loaded("rewritten", third, f, m2)
                    third.save(di.path / "M3")
                    m3 = (di.path / "M3").read_text(encoding="utf-8")
                    ctx.check(m3 == m2, "METADATA:rewrite", f"saving loaded metadata changes the file\n{m2}\n---\n{m3}", text=text)
        # written by others
        text = render_meta(f)
        di.metadata_path().write_bytes(text.encode())
        ctx.event("METADATA of other tools")
        ctx.evaluated(("METADATA", text))
        back = guarded("METADATA:foreign-crash", "metadata of another tool cannot be read", di.load_metadata_cfg, text=text)
        if back:
            judge_loaded("of another tool", back, f, text)

    # ------------------------------------------------------------------ WHEEL
    more = ctx.budget(1, 30)
    while more():
        di = DistInfo.load(distdir())
        tags = rng.sample(["py3-none-any", "py2-none-any", "cp39-cp39-manylinux_2_17_x86_64", "cp39-abi3-linux_x86_64", "py3-none-win32"], rng.choice([1, 1, 2, 3]))
        ver, gen, pure = rng.choice(["1.0", "1.9", "1.1"]), rng.choice(["pkm", "bdist_wheel (0.37.1)", "flit 3.9: x", "Ünï 1"]), rng.random() < .5
        build = rng.choice([None, "1", "20210101"])
        text = f"Wheel-Version: {ver}\nGenerator: {gen}\nRoot-Is-Purelib: {rng.choice(['true', 'True']) if pure else 'false'}\n" + "".join(f"Tag: {t}\n" for t in tags) + (f"Build: {build}\n" if build else "")
        text = rng.choice([text, text + "\n", text.replace("\n", "\r\n"), text.rstrip("\n")])
        di.wheel_path().write_bytes(text.encode())
        ctx.event("WHEEL")
        ctx.evaluated(("WHEEL", text), sample={"WHEEL": text})
        w = guarded("WHEEL:read-crash", "WHEEL cannot be read", di.load_wheel_cfg, text=text)
        if w:
            ctx.check((str(w.version), w.generator, w.root_is_purelib) == (ver, gen, pure), "WHEEL:read", f"WHEEL is read as {w.version, w.generator, w.root_is_purelib}:\n{text}", text=text)
            guarded("WHEEL:write-crash", "WHEEL cannot be saved", w.save, text=text)
            msg = __import__("email").message_from_string(di.wheel_path().read_text(encoding="utf-8"))
            got = (msg["Wheel-Version"], msg["Generator"], (msg["Root-Is-Purelib"] or "").lower(), msg.get_all("Tag"), msg["Build"])
            ctx.check(got == (ver, gen, str(pure).lower(), tags, build), "WHEEL:rewrite", f"a saved WHEEL says {got}, it was\n{text}", text=text)
        w = WheelFileConfiguration.create(gen, pure)
        w.save(di.path / "W2")
        r = WheelFileConfiguration.load(di.path / "W2")
        ctx.check((r.version, r.generator, r.root_is_purelib) == (Version.parse("1.0"), gen, pure), "WHEEL:create", f"created WHEEL reads back as {r}")

    # ------------------------------------------------------------------ RECORD
    names = ["a/b.py", "a b/c.py", "x,y.py", 'q"uote.py', "ünï.py", "../../../bin/tool", "foo-1.0.dist-info/RECORD", "a'b.py", "tab\tname", "/abs/path.py", " lead.py", "new\nline.py", "#hash.py", "日本/語.txt"]
    more = ctx.budget(1.5, 40)
    while more():
        di = DistInfo.load(distdir())
        rows = [(nm, rng.choice(["", "sha256=" + "Ab-_" * 10 + "xyz", "sha512=qq", "md5=abc", "sha256=a=="[:-2]]), rng.choice(["", "0", "12", str(2 ** 40)])) for nm in rng.sample(names, rng.randrange(len(names)))]
        ctx.event("RECORD")
        ctx.evaluated(("RECORD", repr(rows)), sample={"rows": rows[:3]})
        # standard -> pkm
        out = io.StringIO()
        csv.writer(out, lineterminator=rng.choice(["\n", "\r\n"])).writerows(rows)
        di.record_path().write_bytes(out.getvalue().encode())
        rec = guarded("RECORD:read-crash", f"RECORD {rows} cannot be read", di.load_record_cfg, rows=rows)
        if rec is None:
            continue
        got = [(r.file, str(r.hash_signature or ""), "" if r.length is None else str(int(r.length))) for r in rec.records]
        ctx.check(got == rows, "RECORD:read", f"RECORD rows {rows} are read as {got}", rows=rows)
        # pkm -> standard
        rec2 = RecordsFileConfiguration.load(di.path / "none")
        rec2.records.extend(Record(f, HashSignature.parse_urlsafe_base64_nopad_encoded(h) if h else None, int(s) if s else None) for f, h, s in rows)
        guarded("RECORD:write-crash", f"RECORD {rows} cannot be written", lambda: rec2.save(di.path / "R2"), rows=rows)
        if (di.path / "R2").exists():
            with (di.path / "R2").open(newline="", encoding="utf-8") as fd:
                ctx.check([tuple(r) for r in csv.reader(fd)] == rows, "RECORD:write", f"a csv reader sees other rows than {rows}", rows=rows)
            again = RecordsFileConfiguration.load(di.path / "R2")
            ctx.check([(r.file, str(r.hash_signature or ""), r.length) for r in again.records] == [(f, h, int(s) if s else None) for f, h, s in rows], "RECORD:back", f"RECORD reads back as {again.records}", rows=rows)
        # signing real files
        base = di.path.parent / "files"
        base.mkdir()
        data = {}
        for nm in rng.sample(["a.py", "sub/a.py", "sub/b.py", "other/b.py", "sub/deep/c d.txt", "ü.bin", "empty"], 5):
            p = base / nm
            p.parent.mkdir(parents=True, exist_ok=True)
            data[nm] = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 9000])))
            p.write_bytes(data[nm])
        signed = RecordsFileConfiguration.load(di.path / "R3")
        signed.sign_recursive(base)
        signed.save()
        import base64
        import hashlib
        want = {nm: ("sha256=" + base64.urlsafe_b64encode(hashlib.sha256(c).digest()).rstrip(b"=").decode(), str(len(c))) for nm, c in data.items()}
        with (di.path / "R3").open(newline="", encoding="utf-8") as fd:
            got = {r[0]: (r[1], r[2]) for r in csv.reader(fd)}
        ctx.check(got == want, "RECORD:sign", f"signed record {got} does not describe the files {want}")

    # ------------------------------------------------------------------ entry points
    mods, objs = ["pkg.main", "a", "a.b_c.d2"], ["main", "Cls.method", "run_2", None]
    more = ctx.budget(1.5, 40)
    while more():
        eps = []
        for g in rng.sample(["console_scripts", "gui_scripts", "pytest11", "my.group-x_1", "a b", "Group"], rng.choice([1, 2, 3])):
            for nm in rng.sample(["run", "Run", "my-tool", "tool.x", "a:b", "with space", "x_y", "ünï", "default"], rng.choice([1, 2, 3])):
                script = g.endswith("_scripts")
                eps.append((g, nm, rng.choice(mods), rng.choice(objs[:3] if script else objs), rng.choice([None, None, ["x"], ["x", "y_z"]])))
        ctx.event("entry points")
        ctx.evaluated(("entry points", repr(eps)), sample={"entry points": eps})
        # standard text -> pkm
        di = DistInfo.load(distdir())
        sp = lambda: rng.choice(["", " "])
        groups = {}
        for g, nm, md, ob, ex in eps:
            ref = md + (f"{sp()}:{sp()}{ob}" if ob else "") + ((rng.choice([" ", ""]) + "[" + (sp() + "," + sp()).join(ex) + "]") if ex else "")
            eq = rng.choice([" = ", "=", "= "])
            groups.setdefault(g, []).append(f"{nm}{eq}{ref}")
        text = rng.choice(["", "# comment\n", "\n"]) + "\n".join(f"[{g}]\n" + "".join(f"{rng.choice(['', '', chr(10)])}{l}\n" for l in ls) for g, ls in groups.items())
        path = di.path / "entry_points.txt"
        path.write_text(text, encoding="utf-8")
        cfg = guarded("entry_points:read-crash", f"entry points cannot be read\n{text}", lambda: list(di.load_entrypoints_cfg().entrypoints), text=text)
        want = sorted((g, nm, md, ob, tuple(ex or ())) for g, nm, md, ob, ex in eps)
        key = lambda es: sorted(((e.group, e.name, e.ref.module_path, e.ref.object_path or None, tuple(e.ref.extras or ())) for e in es), key=repr)
        want = sorted(want, key=repr)
        if cfg is not None:
            ctx.check(key(cfg) == want, "entry_points:read", f"entry points are read as {key(cfg)}:\n{text}", text=text)
        # pkm -> standard and pkm
        c = EntrypointsConfiguration.load(di.path / "ep2.txt")
        c.entrypoints = [EntryPoint(g, nm, ObjectReference(md, ob, ex)) for g, nm, md, ob, ex in eps]
        if guarded("entry_points:write-crash", f"entry points {eps} cannot be written", lambda: c.save() or True, eps=eps):
            text = (di.path / "ep2.txt").read_text(encoding="utf-8")
            std = sorted(((e.group, e.name, e.module, e.attr or None, tuple(e.extras)) for e in im.EntryPoints._from_text_for(text, None)), key=repr)
            ctx.check(std == want, "entry_points:standard-reader", f"importlib.metadata reads {std}, written was {want}:\n{text}", text=text)
            back = guarded("entry_points:back-crash", "written entry points cannot be read", lambda: key(EntrypointsConfiguration.load(di.path / "ep2.txt").entrypoints), text=text)
            ctx.check(back is None or back == want, "entry_points:back", f"entry points {want} read back as {back}:\n{text}", text=text)

    # ------------------------------------------------------------------ REQUESTED, INSTALLATION_MODE
    more = ctx.budget(1, 30)
    while more():
        di = DistInfo.load(distdir())
        t = dep_texts(rng, 1)[0]
        dep = Dependency.parse(t)
        ctx.event("REQUESTED")
        ctx.evaluated(("REQUESTED", t))
        ctx.check(not di.is_user_requested(), "REQUESTED:fresh", "a fresh dist-info is marked as requested")
        di.mark_as_user_requested(dep)
        back = di.load_user_requested_dependency()
        ctx.check(di.is_user_requested() and back is not None and (back == dep or "<0.dev0" in str(back)) and req_key(str(back)) == req_key(t), "REQUESTED:back", f"the request {t!r} reads back as {back}", text=t)
        di.unmark_as_user_requested()
        ctx.check(not di.is_user_requested(), "REQUESTED:unmark", "a removed mark is still there")
    for cont in (False, True):
        for mode in StoreMode:
            for tag in ("", "cp39-abi3-linux_x86_64", "py3-none-any", "ü\"\\"):
                di = DistInfo.load(distdir())
                ctx.event("INSTALLATION_MODE")
                ctx.evaluated(("INSTALLATION_MODE", cont, mode, tag))
                ctx.check(di.load_installation_info() is None and not di.is_app_container(), "INSTALLATION_MODE:none", "information without a file")
                di.save_installation_info(PackageInstallationInfo(cont, mode, tag))
                b = di.load_installation_info()
                ctx.check((b.containerized, b.store_mode, b.compatibility_tag) == (cont, mode, tag) and bool(di.is_app_container()) == cont, "INSTALLATION_MODE:back", f"{cont, mode, tag} reads back as {b}")
                json.loads(di.installation_info_path().read_text())
                b.save(di.path / "x.json")
                b = PackageInstallationInfo.load(di.path / "x.json")
                ctx.check((b.containerized, b.store_mode, b.compatibility_tag) == (cont, mode, tag), "INSTALLATION_MODE:save", f"saved {cont, mode, tag} reads back as {b}")

    # ------------------------------------------------------------------ pyvenv.cfg
    more = ctx.budget(.5, 10)
    while more():
        d = distdir().parent
        vals = {"home": rng.choice(["/usr/bin", "/opt/py thon/bin", "/opt/é/bin", "/x=y/bin", "C:\\Python"]), "include-system-site-packages": rng.choice(["true", "false"]), "version": rng.choice(["3.12.3", "3.8.10", "3.13.0rc1"])}
        extra = {k: v for k, v in {"executable": "/usr/bin/python3.12", "command": "/usr/bin/python3 -m venv /x=1", "prompt": "'my env: x'"}.items() if rng.random() < .5}
        text = "".join(f"{k} = {v}\n" for k, v in {**vals, **extra}.items())
        (d / "pyvenv.cfg").write_text(text)
        ctx.event("pyvenv.cfg")
        ctx.evaluated(("pyvenv.cfg", text), sample={"pyvenv.cfg": text})
        c = guarded("pyvenv:read-crash", f"pyvenv.cfg cannot be read\n{text}", lambda: PyVEnvConfiguration.load(d / "pyvenv.cfg"), text=text)
        if c:
            ctx.check((str(c.home), str(c.version), c.include_system_site_packages) == (vals["home"], vals["version"], vals["include-system-site-packages"] == "true"), "pyvenv:read", f"pyvenv.cfg is read as {c}:\n{text}", text=text)
            guarded("pyvenv:write-crash", "pyvenv.cfg cannot be saved", c.save, text=text)
            std = {}
            for l in (d / "pyvenv.cfg").read_text().splitlines():
                k, eq, v = l.partition("=")
                if eq:
                    std[k.strip().lower()] = v.strip()
            ctx.check(std == {**vals, **extra}, "pyvenv:rewrite", f"a saved pyvenv.cfg says {std}, it was\n{text}", text=text)
    env_path = Path("envs/e1").absolute()
    e = guarded("env:create-crash", "an environment cannot be created", lambda: EnvironmentBuilder.create(env_path, Path(sys.executable)))
    if e:
        ctx.event("environments started")
        ctx.evaluated("environment created by pkm")
        p = subprocess.run([str(env_path / "bin/python"), "-c", "import sys, json, site; print(json.dumps([sys.prefix, sys.base_prefix, sys.path, site.getsitepackages()]))"],
                           capture_output=True, text=True, env={k: v for k, v in os.environ.items() if not k.startswith("PYTHON")})
        if p.returncode:
            ctx.violation("env:start", f"the interpreter of a created environment fails: {p.stderr[-300:]}")
        else:
            prefix, base, path, _ = json.loads(p.stdout)
            ctx.check(os.path.realpath(prefix) == os.path.realpath(env_path) and base != prefix, "env:prefix", f"a created environment runs with prefix {prefix}, base {base}")
            foreign = [x for x in path if x.endswith(("site-packages", "dist-packages")) and not os.path.realpath(x).startswith(os.path.realpath(env_path))]
            ctx.check(not foreign, "env:isolated", f"a created environment without system packages sees {foreign}")
            ctx.check(any(x.endswith("site-packages") and os.path.realpath(x).startswith(os.path.realpath(env_path)) for x in path), "env:site", f"a created environment has no site directory of its own: {path}")

    # ------------------------------------------------------------------ site links
    more = ctx.budget(1.5, 20)
    while more():
        d = distdir().parent / "site"
        (d / "rel").mkdir(parents=True)
        targets = []
        for i, nm in enumerate(rng.sample(["plain", "with space", "ünï", "quo'te", "im port", "a#b", "x=y"], rng.choice([0, 1, 2, 3]))):
            t = (d.parent / f"t{i}" / nm).absolute()
            t.mkdir(parents=True)
            targets.append(t)
        imports = rng.sample(["sys", "os; os.environ['VMON_PTH'] = 'x'", "json as j"], rng.choice([0, 0, 1, 2]))
        ctx.event("site links")
        ctx.evaluated(("site links", [str(t.name) for t in targets], imports))
        PthLink(d / "l.pth", targets, list(imports)).save()
        std = _site_paths(d)
        ctx.check(std == [str(t) for t in targets], "pth:standard-reader", f"site adds {std} for a link to {targets}")
        b = PthLink.load(d / "l.pth")
        ctx.check(list(b.links) == targets and list(b.imports) == imports, "pth:back", f"a link to {targets} importing {imports} reads back as {b.links} importing {b.imports}")
        # of other tools
        (d / "importance").mkdir()
        lines = ["# comment", "", "rel", "importance", *[str(t) for t in targets], "import\tsys"]
        rng.shuffle(lines)
        (d / "l.pth").write_text("\n".join(lines) + rng.choice(["", "\n"]), encoding="utf-8")
        std = _site_paths(d)
        b = PthLink.load(d / "l.pth")
        b.save()
        ctx.check(_site_paths(d) == std and [str(Path(x)) for x in std] == [str(Path(d.absolute()) / x) for x in b.links], "pth:foreign", f"a link file with {lines} adds {std}, pkm reads {b.links} and saves one that adds {_site_paths(d)}")


def _stable(shuffled, original):
    """shuffled order of fields, with the values of one field in their original order"""
    by = {}
    for l in original:
        by.setdefault(l.split(":", 1)[0], []).append(l)
    return [by[l.split(":", 1)[0]].pop(0) for l in shuffled]


def _site_paths(d):
    old, env = list(sys.path), dict(os.environ)
    try:
        site.addpackage(str(d.absolute()), "l.pth", set())
        return [p for p in sys.path if p not in old]
    finally:
        sys.path[:] = old
        os.environ.clear()
        os.environ.update(env)
