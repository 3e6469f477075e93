"""U03: real renders of generated templates into prepared directories; the trees before and after are compared with a model."""
import contextlib
import io
import os
import pathlib
import re
import shutil
import stat
import string
import sys
import tempfile

from vmon.core import short_tb

VALUES = ["", "x", "two words", "a-b_c", "\u00e9\u4e2d", "0", "v1.2", "UPPER", ".dot", "name.tmpl.x", "p/q", "p/q/r", "<&\"'>", "{notjinja}", "%s", "# c"]
NAMES = [v for v in VALUES if not set(v) & set("<&\"'>")]


class Node:
    def __init__(self, kind, name, content=None, children=(), preserve=False, ignores=()):
        self.kind, self.name, self.content, self.children = kind, name, content, list(children)   # name, content: list of parts
        self.preserve, self.ignores = preserve, list(ignores)

    def raw(self):
        return "".join(f"{{{{{p[1]}}}}}" if isinstance(p, tuple) else p for p in self.name)


def render_parts(parts, ctx):
    """the model of rendering, independent of jinja"""
    out = ""
    for p in parts:
        if isinstance(p, str):
            out += p
        elif p[0] == "var":
            out += str(ctx.get(p[1], ""))
        elif p[0] == "if":
            out += render_parts(p[2] if ctx.get(p[1]) else p[3], ctx)
        elif p[0] == "for":
            for x in ctx.get(p[1], []):
                out += render_parts(p[2], {**ctx, "it": x})
        elif p[0] == "upper":
            out += str(ctx.get(p[1], "")).upper()
    return out


def source(parts):
    out = ""
    for p in parts:
        if isinstance(p, str):
            out += p
        elif p[0] == "var":
            out += "{{%s}}" % p[1] if len(p[1]) % 2 else "{{ %s }}" % p[1]
        elif p[0] == "if":
            out += "{% if " + p[1] + " %}" + source(p[2]) + "{% else %}" + source(p[3]) + "{% endif %}"
        elif p[0] == "for":
            out += "{% for it in " + p[1] + " %}" + source(p[2]) + "{% endfor %}"
        elif p[0] == "upper":
            out += "{{ " + p[1] + "|upper }}"
        elif p[0] == "fail":
            out += p[1]
    return out


class Gen:
    def __init__(self, r):
        self.r, self.n = r, 0
        self.vars = {}
        for i in range(r.randint(1, 4)):
            self.vars[f"v{i}"] = r.choice(NAMES)
        self.content_vars = {f"c{i}": r.choice(VALUES) for i in range(3)}
        self.flags = {"yes": True, "no": False}
        self.lists = {"items": [r.choice(VALUES) for _ in range(r.randint(0, 3))]}

    def context(self):
        return {**self.vars, **self.content_vars, **self.flags, **self.lists}

    def uid(self):
        self.n += 1
        return f"n{self.n}"

    def name(self, ext=""):
        r = self.r
        x = r.random()
        if x < .55:
            return [self.uid() + ext]
        v = r.choice([*self.vars, "undefined"])
        if x < .75:
            return [self.uid(), ("var", v), ext]
        if x < .9:
            return [("var", v), self.uid() + ext] if not self.vars.get(v, "").startswith("/") else [self.uid() + ext]
        # a name that is only a value: must not collide with others, so each value is used once
        self.n += 1
        v = f"only{self.n}"
        self.vars[v] = r.choice(["", "", f"only-{self.n}", f"deep{self.n}/{self.n}"])
        return [("var", v), *([ext] if ext in (".tmpl",) else [])]

    def parts(self, depth=0):
        r = self.r
        out = []
        for _ in range(r.randint(0, 5)):
            x = r.random()
            v = r.choice([*self.content_vars, *self.vars, "undefined"])
            if x < .4:
                out.append(r.choice(["text ", "\nline\n", "x = ", "\u00e9", "  ", "a < b & c\n", "}} ", "$v ", "'q'", "\n\n"]))
            elif x < .7:
                out.append(("var", v))
            elif x < .78:
                out.append(("upper", r.choice(list(self.content_vars))))
            elif x < .9 and depth < 2:
                out.append(("if", r.choice(["yes", "no", "undefined"]), ["(", *self.parts(depth + 1)], ["[", *self.parts(depth + 1)]))
            elif depth < 2:
                out.append(("for", r.choice(["items", "undefined"]), [("var", "it"), ",", *self.parts(depth + 1)]))
        return out

    def blob(self):
        r = self.r
        return r.choice([b"", b"plain {{v0}} {% if %}\n", bytes(range(256)), b"\r\n\r\n", os.urandom(0) + r.randbytes(50), b"#!/bin/sh\n"])

    def tree(self, depth=0):
        r = self.r
        out = []
        for _ in range(r.randint(1 if depth == 0 else 0, 4)):
            x = r.random()
            if x < .25 and depth < 3:
                preserve = r.random() < .25
                out.append(Node("dir", self.name(), children=self.tree(depth + 1), preserve=preserve))
            elif x < .65:
                out.append(Node("tmpl", self.name(".tmpl"), content=self.parts()))
            else:
                out.append(Node("file", self.name(r.choice(["", ".txt", ".bak", ".py"])), content=self.blob()))
        if depth and r.random() < .15:
            out.append(Node("file", [r.choice(["render.py", "__init__.py"])], content=b"# nested {{v0}}\n"))
        r.shuffle(out)
        return out


def write(node_list, folder, ignores=()):
    folder.mkdir(parents=True, exist_ok=True)
    if ignores:
        (folder / ".templateignore").write_text("\n".join(ignores) + "\n")
    for n in node_list:
        p = folder / n.raw()
        if n.kind == "dir":
            write(n.children, p, n.ignores)
            if n.preserve:
                (p / ".templatepreserve").write_text("")
        elif n.kind == "tmpl":
            p.write_text(source(n.content))
        else:
            p.write_bytes(n.content)


def matches(pattern, rel):
    """the patterns used are: a name, */*.ext forms, dir/name, **/*.ext; rel: tuple of raw names below the ignore file's folder"""
    if pattern.startswith("**/*"):
        return rel[-1].endswith(pattern[4:])
    if "/" in pattern:
        a, b = pattern.split("/", 1)
        return len(rel) == 2 and rel[0] == a and (b == "*" or rel[1] == b)
    if pattern.startswith("*"):
        return len(rel) == 1 and rel[0].endswith(pattern[1:])
    return rel == (pattern,)


def expected(nodes, ctx, prefix="", rules=()):
    """-> {relative path: bytes | None for folders | str for rendered text}; rules: (patterns, rel tuple so far)"""
    out = {}
    for n in nodes:
        raw = n.raw()
        here = [(pats, (*rel, raw)) for pats, rel in rules]
        if any(matches(p.strip(), rel) for pats, rel in here for p in pats if p.strip()):
            continue
        name = render_parts(n.name, ctx)
        if not name or name == ".tmpl":
            continue
        path = os.path.normpath(os.path.join(prefix, name))
        for parent in pathlib.PurePath(path).parents:
            if str(parent) not in (".", prefix):
                out.setdefault(str(parent), None)
        if n.kind == "dir":
            out[path] = None
            if n.preserve:
                out.update(verbatim(n, path))
            else:
                out.update(expected(n.children, ctx, path, [*here, (n.ignores, ())]))
        elif n.kind == "tmpl":
            out[path[:-len(".tmpl")]] = render_parts(n.content, ctx)
        else:
            out[path] = n.content
    return out


def verbatim(n, path):
    out = {os.path.join(path, ".templatepreserve"): b""}
    if n.ignores:
        out[os.path.join(path, ".templateignore")] = ("\n".join(n.ignores) + "\n").encode()
    for c in n.children:
        p = os.path.join(path, c.raw())
        if c.kind == "dir":
            out[p] = None
            if not c.preserve:
                out.update({k: v for k, v in verbatim(c, p).items() if os.path.basename(k) != ".templatepreserve" or os.path.dirname(k) != p})
            else:
                out.update(verbatim(c, p))
        elif c.kind == "tmpl":
            out[p] = source(c.content).encode()
        else:
            out[p] = c.content
    return out


def snapshot(folder, modes=True):
    out = {}
    for root, dirs, files in os.walk(folder):
        for n in [*dirs, *files]:
            p = os.path.join(root, n)
            s = os.lstat(p)
            rel = os.path.relpath(p, folder)
            if stat.S_ISLNK(s.st_mode):
                out[rel] = ("link", os.readlink(p))
            elif stat.S_ISDIR(s.st_mode):
                out[rel] = ("dir", stat.S_IMODE(s.st_mode) if modes else 0)
            else:
                with open(p, "rb") as f:
                    out[rel] = ("file", stat.S_IMODE(s.st_mode) if modes else 0, f.read())
        dirs[:] = [d for d in dirs if not os.path.islink(os.path.join(root, d))]
    if os.path.isdir(folder):
        out["."] = ("dir", stat.S_IMODE(os.lstat(folder).st_mode))
    return out


def add_ignores(g, nodes, depth=0):
    """patterns for the folder of these nodes, taken from what is in it"""
    r = g.r
    for n in nodes:
        if n.kind == "dir":
            n.ignores = add_ignores(g, n.children, depth + 1) if r.random() < .3 else []
    out = []
    for _ in range(r.randint(1, 3)):
        x = r.random()
        plain = [n for n in nodes if not set(n.raw()) & set("[]*?/")]
        dirs = [n for n in plain if n.kind == "dir" and n.children]
        if x < .3 and plain:
            out.append(r.choice(plain).raw())
        elif x < .5:
            out.append(r.choice(["*.bak", "*.txt", "*.py"]))
        elif x < .7 and dirs:
            d = r.choice(dirs)
            out.append(d.raw() + "/" + r.choice(["*", r.choice(d.children).raw()]))
        elif x < .85:
            out.append("**/*.bak")
        else:
            out.append(r.choice(["", "nothing-like-this", "  "]))
    return out


def depth_first_files(exp):
    return [k for k, v in exp.items() if v is not None]


class Case:
    def __init__(self, ctx, mod, cp, r, folder, i):
        self.ctx, self.mod, self.cp, self.r, self.folder, self.i = ctx, mod, cp, r, folder, i
        self.g = Gen(r)
        self.nodes = self.g.tree()
        self.ignores = add_ignores(self.g, self.nodes) if r.random() < .4 else []
        self.name = f"tpl_{i}"
        self.dir = folder / self.name
        self.target = folder / "target"
        self.log = folder / "post.log"

    def make(self, fail=None):
        g, r = self.g, self.r
        write(self.nodes, self.dir, self.ignores)
        values = g.context()
        given = {k: v for k, v in values.items() if isinstance(v, str) and r.random() < .5}
        self.args = given
        params = ", ".join([f"{k}: str" for k in given])
        body = {k: v for k, v in values.items() if k not in given}
        src = f"'''doc of {self.name}'''\nimport pathlib\n\n\ndef setup({params}):\n"
        if fail == "setup":
            src += "    raise ValueError('no')\n"
        src += f"    return dict({', '.join([f'{k}={k}' for k in given] + [f'{k}={v!r}' for k, v in body.items()])})\n\n\n"
        src += f"def post_render(context):\n    with open({str(self.log)!r}, 'a') as f:\n        f.write(str(sorted(p.name for p in pathlib.Path(target_dir).iterdir())) + '|' + context['c0'] + '\\n')\n"
        (self.dir / "render.py").write_text(src)
        if fail == "jinja":
            bad = r.choice(["{{ 1/0 }}", "{{ v0|no_such_filter }}", "{% if %}", "{{ v0.x.y }}", "{% for %}"])
            where = self.dir
            (where / f"zz{r.randint(0, 9)}bad.tmpl").write_text("some text\n" + bad)

    def prepare_target(self, exp, conflict):
        """fills the target; -> whether rendering without / with permission must fail"""
        r, t = self.r, self.target
        how = r.choice(["missing", "empty", "others", "others"]) if not conflict else "others"
        if how == "missing":
            return
        t.mkdir(mode=0o755)
        t.chmod(r.choice([0o755, 0o775, 0o750]))
        if how == "others":
            for _ in range(r.randint(1, 4)):
                # inside the folders of the template as well
                base = r.choice(["", *[k for k, v in exp.items() if v is None]])
                p = t / base / f"own{r.randrange(10 ** 6)}.txt"
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_bytes(r.randbytes(10))
                p.chmod(r.choice([0o644, 0o600, 0o755]))
            for k, v in exp.items():
                if v is None and (t / k).is_dir():
                    (t / k).chmod(r.choice([0o755, 0o775, 0o700]))
        if not conflict:
            return
        files = depth_first_files(exp)
        if conflict == "file":
            p = t / r.choice(files)
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(b"precious")
        elif conflict == "files":
            for k in r.sample(files, r.randint(1, len(files))):
                p = t / k
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_bytes(b"precious")
        elif conflict == "dir-for-file":
            p = t / r.choice(files)
            p.mkdir(parents=True, exist_ok=True)
            if r.random() < .5:
                (p / "inside").write_text("own")
        elif conflict == "link":
            p = t / r.choice(files)
            p.parent.mkdir(parents=True, exist_ok=True)
            p.symlink_to(self.folder / "elsewhere")
        elif conflict == "file-for-dir":
            p = t / r.choice([k for k, v in exp.items() if v is None])
            if p.is_dir():
                shutil.rmtree(p)
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(b"precious")

    def render(self, overwrite):
        """-> ("ok"|"err", value)"""
        r = self.r
        runner = self.mod.TemplateRunner()
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                with runner.load_template(self.name) as t:
                    self.described = t.describe()
                    if r.random() < .5:
                        self.via = "execute"
                        t.execute(self.target, dict(self.args), overwrite)
                    else:
                        self.via = "command"
                        cdef = t.as_command(self.name, self.target)
                        pos, opts = [], []
                        for k, v in self.args.items():
                            pos.append(v)
                        line = [self.name, *pos, *(["--overwrite"] if overwrite else [])]
                        cmd = self.cp.DynamicCommandLine.create([cdef], line).parse()
                        if cmd.parse_error:
                            return "parse", cmd.parse_error
                        cmd.execute()
                return "ok", None
            except Exception as e:
                return "err", e


def one(ctx, mod, cp, r, folder, i):
    case = Case(ctx, mod, cp, r, folder, i)
    exp = expected(case.nodes, case.g.context(), "", [(case.ignores, ())])
    # names that meet (through values with slashes) are not the subject
    fail = r.choice([None, None, None, None, "jinja", "setup"]) if r.random() < .6 else None
    files, dirs = depth_first_files(exp), [k for k, v in exp.items() if v is None]
    options = [None, None]
    if files:
        options += ["file", "files", "dir-for-file", "link"]
    if dirs:
        options.append("file-for-dir")
    conflict = None if fail else r.choice(options)
    overwrite = r.random() < .4
    case.make(fail)
    case.prepare_target(exp, conflict)
    if conflict == "link":
        (folder / "elsewhere").unlink(missing_ok=True)
    if any(v.startswith(("-", "+")) and v != "-" for v in case.args.values()):
        return
    before = snapshot(case.target) if case.target.exists() else None
    tpl_before = {k: v for k, v in snapshot(case.dir).items() if "__pycache__" not in k}
    tmp_before = set(os.listdir(tempfile.gettempdir()))
    st, v = case.render(overwrite)
    after = snapshot(case.target) if case.target.exists() else None
    posts = case.log.read_text().splitlines() if case.log.exists() else []
    replay = dict(template={k: (x[2] if x[0] == "file" else x[0]) for k, x in tpl_before.items()}, arguments=case.args, conflict=conflict,
                  overwrite=overwrite, fail=fail, before=sorted(before or {}), via=getattr(case, "via", ""))
    ctx.event("renders")
    ctx.evaluated((case.i, ctx.seed), f"conflict={conflict} overwrite={overwrite} fail={fail} files={len(files)}")
    if st == "parse":
        return ctx.violation("command-line", f"the template's command rejects its arguments: {v}", **replay)
    must_fail = bool(fail) or (conflict and not overwrite) or conflict in ("dir-for-file", "file-for-dir")
    tpl_after = {k: x for k, x in snapshot(case.dir).items() if "__pycache__" not in k}
    ctx.check(tpl_after == tpl_before, "template-changed", "rendering changed the template", **replay)
    leaked = set(os.listdir(tempfile.gettempdir())) - tmp_before
    ctx.check(not leaked, "left-behind", f"left in the temporary directory: {leaked}", **replay)
    if must_fail:
        ctx.event("failures")
        if st == "ok":
            return ctx.violation(f"no-failure:{conflict or fail}", "rendering succeeded", **replay)
        if after != before:
            changed = [k for k in {*(after or {}), *(before or {})} if (after or {}).get(k) != (before or {}).get(k)]
            return ctx.violation(f"changed-on-failure:{conflict or fail}", f"the failed rendering changed {changed[:5]}", **replay)
        if os.path.lexists(folder / "elsewhere"):
            return ctx.violation("wrote-elsewhere", "the failed rendering wrote through a link", **replay)
        ctx.check(not posts, "post-render-on-failure", f"post_render ran {len(posts)} times", **replay)
        return
    ctx.event("successes")
    if st != "ok":
        return ctx.violation("render-fails", short_tb(v), **replay)
    want = dict(before or {})
    problems = []
    for k in {*exp, *want, *(after or {})}:
        a = (after or {}).get(k)
        if k in exp:
            e = exp[k]
            if a is None:
                problems.append(f"{k} is missing")
            elif e is None:
                if a[0] == "link" and want.get(k) == a:
                    continue
                if a[0] != "dir":
                    problems.append(f"{k} is no folder")
                elif k in want and want[k] != a:
                    problems.append(f"existing folder {k} went from {want[k]} to {a}")
            else:
                if a[0] == "link":
                    with open(case.target / k, "rb") as f:
                        data = f.read()
                elif a[0] == "file":
                    data = a[2]
                else:
                    problems.append(f"{k} is a folder")
                    continue
                if isinstance(e, str):
                    if data.decode(errors="replace").rstrip("\n") != e.rstrip("\n"):
                        problems.append(f"{k} contains {data[:120]!r}, defined as {e[:120]!r}")
                elif data != e:
                    problems.append(f"{k} contains {data[:80]!r}, defined as {e[:80]!r}")
                ctx.event("files compared")
        elif k == "." and before is None:
            continue
        elif a != want.get(k):
            problems.append(f"{k}: {'created' if k not in want else 'changed'} though the template does not define it")
    if problems:
        return ctx.violation("tree-differs", "; ".join(sorted(problems))[:500], **replay)
    ctx.check(case.described == f"doc of {case.name}", "description", f"described as {case.described!r}", **replay)
    if len(posts) != 1:
        return ctx.violation("post-render", f"post_render ran {len(posts)} times", **replay)
    names, _, c0 = posts[0].rpartition("|")
    top = sorted({k.split("/")[0] for k in after if k != "."})
    ctx.check(names == str(top), "post-render", f"post_render saw {names}, rendered is {top}", **replay)
    # rendering again without permission must refuse and change nothing, with permission give the same
    if files and r.random() < .5:
        for again in (False, True):
            st, v = case.render(again)
            now = snapshot(case.target)
            if not again and st == "ok":
                return ctx.violation("no-failure:again", "rendering over the own files succeeded without permission", **replay)
            if again and st != "ok":
                return ctx.violation("render-fails", f"rendering again: {short_tb(v)}", **replay)
            if now != after:
                return ctx.violation("again-differs", f"rendering again (overwrite={again}) changed {[k for k in now if now[k] != after.get(k)][:5]}", **replay)
            ctx.event("renders repeated")


def nested(ctx, mod, folder):
    """a template that renders another one from its setup"""
    for i in range(ctx.pick(3, 20)):
        d = folder / f"nest{i}"
        (d / "outer").mkdir(parents=True)
        (d / "inner").mkdir()
        (d / "outer" / "render.py").write_text("def setup(a: str):\n    render_template('inner', b=a + '1')\n    assert (target_dir / 'in.txt').exists()\n    return locals()\n")
        (d / "outer" / "out.txt.tmpl").write_text("{{a}}")
        (d / "inner" / "render.py").write_text("def setup(b: str):\n    return locals()\n")
        (d / "inner" / "in.txt.tmpl").write_text("{{b}}")
        os.chdir(d)
        try:
            with mod.TemplateRunner().load_template("outer") as t:
                t.execute(d / "target", {"a": f"v{i}"}, bool(i % 2))
            got = {p.name: p.read_text() for p in (d / "target").iterdir()}
            ctx.check(got == {"out.txt": f"v{i}", "in.txt": f"v{i}1"}, "nested", f"rendered {got}")
        except Exception as e:
            ctx.violation("nested", short_tb(e))
        ctx.evaluated(("nested", i))
        try:
            with mod.TemplateRunner().load_template("no-such-template"):
                pass
            ctx.violation("missing-template", "a template that does not exist is loaded")
        except FileNotFoundError:
            pass
        except Exception as e:
            ctx.violation("missing-template", short_tb(e))


class Answer:
    def __init__(self, value):
        self.value = value

    def unsafe_ask(self):
        return self.value


class Asker:
    """stands in for the terminal: answers the templates' questions by their text, else with the default"""

    def __init__(self, answers):
        self.answers = answers

    def __getattr__(self, kind):
        return lambda prompt, **kw: Answer(self.answers.get(prompt, kw.get("default")))


def shipped(ctx, mod, work):
    """the templates that come with the tool: what they render is what its own readers read the answers back from"""
    from pkm.api.projects.project import Project
    from pkm.api.projects.project_group import ProjectGroup
    rng = ctx.sub_rng("shipped")
    real, mod.q = mod.q, Asker({})
    path = os.environ.get("PATH", "")
    os.environ["PATH"] = os.path.dirname(sys.executable)      # the template looks for interpreters in it
    try:
        for i in range(ctx.pick(4, 40)):
            d = work / f"shipped{i}"
            d.mkdir(parents=True)
            os.chdir(d)
            name = "".join(rng.choice(string.ascii_lowercase) for _ in range(5)) + rng.choice(["", "-x", "_y", ".z", "-2"])
            asked = {"Version": f"{rng.randint(0, 9)}.{rng.randint(0, 99)}.0", "Short description": rng.choice(["", "some thing", "it's \u00e9"]),
                     "Readme type": rng.choice(["Markdown", "reStructuredText"]), "Author": rng.choice(["Me", "J. D\u00f6e"]), "License": rng.choice(["MIT License", "zlib"]),
                     "Project Name": name, "Group Name": name, "Zoo Name": name}
            mod.q = Asker(asked)
            replay = dict(answers=asked)
            ctx.evaluated(("shipped", i))
            for kind, args in [("project", rng.choice([{}, {"project_name": name}])), ("pgroup", {}), ("envzoo", {})]:
                out = d / kind
                try:
                    with contextlib.redirect_stdout(io.StringIO()), mod.TemplateRunner().load_template(kind) as t:
                        t.execute(out, dict(args))
                    if kind == "project":
                        cfg = Project.load(out / name).config.project
                        got = (cfg.name, str(cfg.version), cfg.description or "", [a.name for a in cfg.authors], str(cfg.license))
                        want = (name, asked["Version"], asked["Short description"], [asked["Author"]], asked["License"])
                        ctx.check(got == want, "shipped-project", f"the project rendered reads as {got}, answered was {want}", **replay)
                        readme = "README." + ("md" if asked["Readme type"] == "Markdown" else "rst")
                        src = re.sub(r"[-_.]+", "_", name)
                        ctx.check((out / name / readme).is_file() and (out / name / "src" / src / "__init__.py").is_file(), "shipped-project",
                                  f"rendered: {sorted(snapshot(out))}", **replay)
                    elif kind == "pgroup":
                        ctx.check(ProjectGroup.is_valid(out / name) and list(ProjectGroup.load(out / name).children) == [], "shipped-group",
                                  "no valid empty group was rendered", **replay)
                    ctx.event("shipped templates rendered")
                    leaked = [p for p in out.rglob("*") if p.name in ("render.py", "__pycache__") or p.suffix == ".tmpl" or "{{" in p.name]
                    ctx.check(not leaked, "shipped-leaks", f"rendered as well: {leaked}", **replay)
                    before = snapshot(out)
                    try:
                        with contextlib.redirect_stdout(io.StringIO()), mod.TemplateRunner().load_template(kind) as t:
                            t.execute(out, dict(args))
                        ctx.violation("no-failure:again", f"template {kind} overwrote its own files without permission", **replay)
                    except OSError:
                        ctx.check(snapshot(out) == before, "changed-on-failure:again", f"refusing to render {kind} again changed files", **replay)
                except Exception as e:
                    ctx.violation("shipped-fails", f"template {kind}: {short_tb(e)}", **replay)
            os.chdir(work)
    finally:
        mod.q = real
        os.environ["PATH"] = path


def run(ctx):
    from pkm_cli.api.templates import template_runner as mod
    from pkm_cli.api.dynamic_cli import command_parser as cp
    ctx.rule = ("after a successful render the target is what it was plus exactly the entries that the model derives from template and values (existing "
                "folders keep their mode); after a failed one it is byte for byte what it was; post_render runs once on success, never on failure")
    ctx.required_events = ["renders", "failures", "successes", "files compared", "renders repeated", "shipped templates rendered"]
    ctx.min_evaluations = 100
    rng = ctx.sub_rng("templates")
    work = ctx.scratch / "work"
    nested(ctx, mod, work / "nested")
    shipped(ctx, mod, work)
    more = ctx.budget(14, 300)
    for i in range(ctx.pick(1500, 60000)):
        if not more() or sum(ctx._vkeys.values()) > 10:
            break
        folder = work / f"t{i}"
        folder.mkdir(parents=True)
        os.chdir(folder)
        one(ctx, mod, cp, rng, folder, i)
        os.chdir(work)
        for m in [m for m in sys.modules if m.startswith("tpl_")]:
            del sys.modules[m]
        shutil.rmtree(folder)
