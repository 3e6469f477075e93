"""D02: parse/print events of dependency strings judged by packaging's PEP 508 reader over generated and mutated texts."""
import re

from packaging.requirements import InvalidRequirement, Requirement
from packaging.version import Version as PV

from vmon import refver
from vmon.core import outcome, short_tb
from vmon.props import d01
from vmon.props.v04 import above

NAMES = ["a", "A", "name", "pyOpenSSL", "zope.interface", "ruamel.yaml", "typing_extensions", "my-pkg", "My--Pkg", "a.b-c_d", "x1", "3to2", "2captcha",
         "Foo.-_Bar", "b2", "PyYAML", "e3-core"]
EXTRAS = ["test", "security", "a.b", "x-y", "x_y", "Dev", "s3", "e1", "2fa", "3d-plot"]
URLS = ["https://example.com/pkg-1.0.tar.gz", "http://foo.com", "https://h.io/Path/To?q=1&b=2#egg=Name", "git+https://github.com/u/Repo.git@v1.0",
        "file:///tmp/a%20b/x.whl", "https://user@host:8080/x.zip#sha256=abc"]
BOUNDS = ["1", "1.0", "2.0", "1.2.3", "1.5", "3", "0.9", "1.0a1", "2.0rc1", "1.0.dev2", "1!1.0", "1.10", "1.0.post2"]
SAMPLE = [str(p) for p in sorted({PV(t) for t in ("0.1 0.9 0.9.1 1.0.dev1 1.0.dev2 1.0a1 1.0a2 1.0 1.0.1 1.1 1.2.2 1.2.3 1.2.3.1 1.3 1.5 1.6 1.9 1.10 1.11 2.0.dev1 2.0b1 "
                                                "2.0rc1 2.0rc2 2.0 2.1 2.9 3 3.0.1 4 9 1!0.5 1!1.0 1!2").split()})]


def norm(name):
    return re.sub(r"[-_.]+", "-", name).lower()


def gen(rng):
    """returns (text, expected) from the PEP 508 grammar"""
    ws = lambda: rng.choice(["", "", "", " ", "  ", "\t"])
    name = rng.choice(NAMES)
    text = ws() + name + ws()
    extras = []
    if rng.random() < .4:
        extras = rng.sample(EXTRAS, rng.choice([0, 1, 1, 2, 3]))
        text += "[" + ws() + (ws() + "," + ws()).join(extras) + ws() + "]" + ws()
    url, clauses = None, None
    k = rng.random()
    if k < .2:
        url = rng.choice(URLS)
        text += "@" + ws() + url
    elif k < .8:
        clauses = [refver.gen_clause(rng, BOUNDS, ops=["==", "!=", "<", "<=", ">", ">=", "~=", "==.*", "!=.*", ">=", "<"]) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
        body = (ws() + "," + ws()).join(c.text(rng) for c in clauses)
        text += f"({ws()}{body}{ws()})" if rng.random() < .25 else body
    expr = None
    if rng.random() < .45:
        expr = d01.gen_expr(rng, 1)
        text += (" " if url else ws()) + ";" + ws() + d01.render(rng, expr)
    text += ws() if not url or expr else ""
    return text, name, extras, url, clauses, expr


def mutate(rng, text):
    """one edit; returns a new text"""
    k = rng.random()
    i = rng.randrange(len(text) + 1)
    if k < .3 and text:
        return text[:i] + text[i + 1:]
    if k < .6:
        return text[:i] + rng.choice(list("!=<>~()[];,@. '\"-_x1\\{}#é")) + text[i:]
    if k < .75:
        return text + rng.choice([" foo", " and", " or x", ")", "]", ",", " 1.0", ";", " ; ;", ">", "==", " ,<2 x", " or", " @", " extra"])
    if k < .85:
        return rng.choice(["", " ", "-", ".", ">=1", "(", "[x]", "==", ";"]) + text
    j = rng.randrange(len(text) + 1)
    return text[:min(i, j)] + text[max(i, j):]


BAD = [  # texts that are not PEP 508 requirements under any reading
    "", " ", ">=1.0", "[x]", ";os_name=='nt'", "name foo", "name 1.0", "name >=1.0 foo", "name >=1.0 <2.0", "name >=1.0 ,<2.0 bar", "name (>=1.0", "name >=1.0)",
    "name [x", "name x]", "name[x]]", "name[x y]", "name[,x]", "name >=", "name ==, <2", "name >=1.0; os_name", "name; os_name ==", "name; os_name == 'nt' and",
    "name; os_name == 'nt' or", "name; os_name == 'nt' garbage", "name; (os_name == 'nt'", "name; os_name == 'nt')", "name; os_name = 'nt'", "name; os_name 'nt'",
    "name; 'nt'", "name; os_name == 'nt", "name; os_name == nt'", "name; os_name == 'nt' os_name == 'nt'", "name; and os_name == 'nt'", "name~1.0", "name=1.0",
    "name >=x.y", "name >=1.0foo", "name ~=1", "name !1.0", "-name", "name-", "name- >=1", ".name", "na me", "na!me", "name @", "name >=1.0 @ https://x.io/a", "name; os_name is 'nt'",
    "name; not os_name == 'nt'", "name; os_name not 'nt'", "name; ()", "name ,>=1", "name ;; os_name=='nt'", "n\u00e4me", "name >=1.0; os_name=='nt'; os_name=='x'",
]


def run(ctx):
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.packages.package import PackageDescriptor
    from pkm.api.versions.version import Version
    from pkm.api.environments.environment import Environment
    from pathlib import Path

    class Env(Environment):
        def __init__(self, markers):
            super().__init__(Path("."))
            self._m = markers

        @property
        def markers(self):
            return self._m

    sample = [(t, PV(t), Version.parse(t)) for t in SAMPLE]
    ctx.rule = "each distinct requirement text parsed, compared field by field with what it denotes, printed and parsed again; each distinct malformed text"
    ctx.assumptions = ["post-releases are only used as bounds, not as candidates (see V03)",
                       "deliberate leniencies of the tool are not counted as malformed: '*' as any version, .* after an ordering operator, quoted or parenthesised versions, empty parentheses or marker, "
                       "names starting or legacy-ending in '_', trailing commas, relative paths after @"]
    ctx.required_events = ["parsed", "reprinted", "extras", "url", "specifier", "marker", "extra marker", "rejected", "edge bounds", "name equivalence", "mutant rejected", "mutant accepted"]
    ctx.min_evaluations = ctx.pick(2000, 12000)

    def denotes(dep, text, name, extras, url, clauses, expr, envs, label):
        ok = True

        def bad(what, msg):
            nonlocal ok
            ok = False
            ctx.violation(what, f"{label} {text!r}: {msg}", text=text)

        if norm(dep.package_name) != norm(name):
            bad("name", f"name is {dep.package_name!r}")
        if dep.package_name_key != PackageDescriptor.package_name_key(name):
            bad("name", f"name key is {dep.package_name_key!r}")
        if list(dep.extras or []) != extras:
            bad("extras", f"extras are {dep.extras!r}")
        got_url = dep.required_url()
        if (str(got_url) if got_url else None) != url:
            bad("url", f"url is {got_url}")
        if url is None:
            for t, p, v in sample:
                want = all(c.admits(p) for c in clauses or ())
                if bool(dep.version_spec.allows_version(v)) != want:
                    bad("specifier", f"{t} admitted={not want}, expected {want}")
                    break
        if (dep.env_marker is not None) != (expr is not None):
            bad("marker", f"marker is {dep.env_marker}")
        for env, ex in envs:
            try:
                want = expr is None or d01.value(expr, env, ex)
            except d01.Undefined:
                continue
            kind, got = outcome(dep.is_applicable_for, Env(env), list(ex))
            if kind == "err" or bool(got) != want:
                bad("applicable", f"applicable for extras {ex}: {got if kind == 'ok' else short_tb(got)}, expected {want}")
                break
        return ok

    def env_of(rng):
        env = {v: rng.choice(d01.VERSIONS) for v in d01.VERSION_VARS}
        env.update({v: rng.choice(d01.STRINGS[v]) for v in d01.STRING_VARS})
        return env

    more = ctx.budget(25, 150)
    i = 0
    while more() and i < ctx.pick(2500, 40000):
        i += 1
        r = ctx.sub_rng("gen", i)
        text, name, extras, url, clauses, expr = gen(r)
        if not ctx.quick or i % 10 == 0:
            try:
                Requirement(text)
            except InvalidRequirement as e:
                assert False, f"generator produced {text!r}: {e}"
        ats = list(d01.atoms(expr)) if expr else []
        envs = []
        for _ in range(2):
            ex = r.choice([[], [r.choice(d01.EXTRAS)], r.sample(d01.EXTRAS, 2)])
            if any(a.extra and a.op == "!=" for a in ats):
                ex = ex[:1]
            envs.append((env_of(r), ex))
        kind, dep = outcome(Dependency.parse, text)
        ctx.evaluated(text, sample=text)
        ctx.event("parsed")
        for flag, ev in ((extras, "extras"), (url, "url"), (clauses, "specifier"), (expr, "marker"), (any(a.extra for a in ats), "extra marker")):
            if flag:
                ctx.event(ev)
        ctx.distinct("shape", (bool(extras), bool(url), len(clauses or ()), bool(expr), "(" in text))
        if kind == "err":
            ctx.violation("parse", f"{text!r} is a PEP 508 requirement but failed: {short_tb(dep)}", text=text)
            continue
        if not denotes(dep, text, name, extras, url, clauses, expr, envs, "parsing"):
            continue
        printed = str(dep)
        kind, again = outcome(Dependency.parse, printed)
        ctx.event("reprinted")
        if kind == "err":
            ctx.violation("reprint", f"{text!r} printed as {printed!r}, which fails: {short_tb(again)}", text=text, printed=printed)
            continue
        ctx.check(again == dep or "<0.dev0" in printed, "reprint-equal", f"{text!r} printed as {printed!r} parses to a different dependency {again!r}", text=text)
        denotes(again, printed, name, extras, url, clauses, expr, envs, f"reprint of {text!r}:")
        if not (url and url.startswith("file")):
            kind, std = outcome(Requirement, printed)
            if kind == "err":
                ctx.violation("reprint-standard", f"{text!r} printed as {printed!r}, which a PEP 508 reader rejects: {std}", text=text)
            else:
                ctx.check(norm(std.name) == norm(name) and std.extras == set(extras) and std.url == url and bool(std.marker) == bool(expr), "reprint-standard",
                          f"{text!r} printed as {printed!r}, which a PEP 508 reader takes for {std!r}", text=text)

        # one edit: if a PEP 508 reader rejects it, so must the code (unless it is one of the leniencies); if it accepts it, name/extras/url must agree
        m = mutate(r, text)
        kind, std = outcome(Requirement, m)
        k2, got = outcome(Dependency.parse, m)
        if kind == "err":
            if k2 == "err":
                ctx.event("mutant rejected")
                ctx.evaluated(("mutant", m))
                ctx.check(isinstance(got, (ValueError, AssertionError)), "mutant-crash", f"{m!r} failed with {short_tb(got)} and not as a malformed requirement", text=m)
            else:
                # accepted: nothing of the text may have been dropped
                ctx.event("mutant tolerated")
                back = str(got).lower()
                ctx.distinct("tolerated", m)
                tokens = set(re.findall(r"[a-z]{3,}", m.lower())) - {"dev", "alpha", "beta", "rev", "post", "preview", "pre"}
                lost = {t for t in tokens if t not in back}
                ctx.check(not lost or "@" in m or "\u00e9" in m, "partial", f"malformed {m!r} was read as {str(got)!r}, dropping {sorted(lost)}", text=m)
        elif k2 == "ok" and not std.url:
            ctx.event("mutant accepted")
            ctx.check(norm(got.package_name) == norm(std.name) and {norm(e) for e in got.extras or ()} == {norm(e) for e in std.extras}
                      and bool(got.env_marker) == bool(std.marker), "mutant-fields", f"{m!r} read as {got!r}, a PEP 508 reader reads {std!r}", text=m)

    # every pairing of bounds around family edges (1.2 / 1.3 / 2.0 ...), where the printer has short forms to choose from
    grid = []
    for lo in ["1", "1.2", "1.2.0", "1.2.3", "1.0", "0.9", "1!1.2", "1.2a1", "1.2.dev1"]:
        rel = list(PV(lo).release)
        ep = f"{PV(lo).epoch}!" if PV(lo).epoch else ""
        his = {lo}
        for j in range(len(rel)):
            up = rel[:j] + [rel[j] + 1]
            his |= {ep + ".".join(map(str, up + [0] * z)) for z in range(3)}
            his |= {ep + ".".join(map(str, up)) + t for t in ("a1", ".dev0")}
        for hi in his:
            for o1 in (">=", ">", "==", "!=", "~="):
                for o2 in ("<", "<=", "!=", "=="):
                    if o1 == "~=" and len(rel) < 2:
                        continue
                    grid.append((o1, lo, o2, hi))
    ctx.sub_rng("grid").shuffle(grid)
    for o1, lo, o2, hi in grid[:ctx.pick(700, len(grid))]:
        cl = [refver.Clause(o1, lo), refver.Clause(o2, hi)]
        text = f"foo {o1}{lo}, {o2}{hi}"
        kind, dep = outcome(Dependency.parse, text)
        ctx.evaluated(text)
        ctx.event("edge bounds")
        if kind == "err":
            ctx.violation("parse", f"{text!r}: {short_tb(dep)}", text=text)
            continue
        kind, again = outcome(Dependency.parse, str(dep))
        if kind == "err":
            ctx.violation("reprint", f"{text!r} printed as {str(dep)!r}, which fails: {short_tb(again)}", text=text)
            continue
        for v in {t for b in (lo, hi) for t in (b, above(b))} | {"0.1", "1.2.2", "1.2.5", "1.5", "1.99", "2.5", "1!1.99", "1!9"}:
            if PV(v).post is not None:
                continue
            want = all(c.admits(PV(v)) for c in cl)
            got = [bool(d.version_spec.allows_version(Version.parse(v))) for d in (dep, again)]
            if got != [want, want]:
                ctx.violation("specifier", f"{text!r} (printed as {str(dep)!r}): {v} admitted={got[0]} and after printing {got[1]}, expected {want}", text=text)
                break

    for text in BAD:
        k, got = outcome(Dependency.parse, text)
        ctx.evaluated(("bad", text))
        if k == "ok":
            ctx.violation("malformed", f"malformed requirement {text!r} was read as {got!r}", text=text)
        else:
            ctx.event("rejected")
            ctx.check(isinstance(got, (ValueError, AssertionError)), "malformed-crash", f"{text!r} failed with {short_tb(got)}", text=text)

    # names that normalise alike
    rng = ctx.sub_rng("names")
    for _ in range(ctx.pick(400, 3000)):
        parts = [rng.choice(["a", "Foo", "b2", "x", "LIB", "9z"]) for _ in range(rng.randrange(1, 4))]
        spell = lambda: "".join(p if j == 0 else "".join(rng.choice("-_.") for _ in range(rng.choice([1, 1, 2]))) + p for j, p in enumerate(rng.choice([str.lower, str.upper, str])(p) for p in parts))
        a, b = spell(), spell()
        if rng.random() < .3:
            b = b + rng.choice(["1", "-c", "x"])
        want = norm(a) == norm(b)
        ctx.event("name equivalence")
        ctx.evaluated(("names", a, b))
        k, res = outcome(lambda: (Dependency.parse(a).package_name_key == Dependency.parse(b + ">=1").package_name_key,
                                  PackageDescriptor(a, Version.parse("1")).name_key == PackageDescriptor(b, Version.parse("1")).name_key,
                                  PackageDescriptor(a, Version.parse("1")).name_key == Dependency.parse(b).package_name_key))
        if k == "err":
            ctx.violation("names", f"names {a!r}, {b!r}: {short_tb(res)}", a=a, b=b)
        else:
            ctx.check(all(x == want for x in res), "names", f"names {a!r} and {b!r} same package: {res}, expected {want}", a=a, b=b)
