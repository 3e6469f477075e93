"""V03: membership events of real specifiers judged clause by clause by vmon.refver's evaluator."""
from packaging.specifiers import SpecifierSet
from packaging.version import Version as PV

from vmon import refver
from vmon.core import outcome, short_tb

POOL = ["0.9", "0.9.1", "1", "1.0", "1.0.0", "1.0.1", "1.1", "1.1.0", "1.9", "1.10", "2.0", "2", "2.1", "2.3.4", "3.0.0", "10.0",
        "1.0a1", "1.0a2", "1.0b1", "1.0rc1", "1.0.dev1", "2.0a1", "2.0.dev0", "2.0rc2.dev3", "1!0.5", "1!1.0", "0!1.0",
        "1.0+l", "1.0+l.2", "2.0+cu117", "2.3.4rc1", "2012.10", "1.2.3.4", "2.0.0.0", "1.2.3.4.5"]
POSTS = ["1.0.post1", "1.0.post2", "2.0.post0", "0.9.post1.dev1", "1.1.post1"]


def neighbours(v):
    p = PV(v)
    base = f"{p.epoch}!" + ".".join(map(str, p.release))
    pub = p.public
    out = {v, base, base + ".0", base + ".0.1", base + ".dev0", base + "a0", base + "a1", base + "rc1", base + ".0.dev1", base + ".9"}
    rel = list(p.release)
    for i in range(len(rel)):
        up = rel[:i] + [rel[i] + 1]
        out.add(f"{p.epoch}!" + ".".join(map(str, up)))
        out.add(f"{p.epoch}!" + ".".join(map(str, up)) + ".dev0")
        out.add(f"{p.epoch}!" + ".".join(map(str, up)) + "a1")
        if rel[i]:
            out.add(f"{p.epoch}!" + ".".join(map(str, rel[:i] + [rel[i] - 1])) + ".99")
    if p.pre:
        out.add(f"{base}{p.pre[0]}{p.pre[1] + 1}")
    out |= {pub, pub.split("+")[0] + "+l", pub + "+zz.1"} if p.dev is None else {pub, pub + "+l"}
    return out


def run(ctx):
    from pkm.api.versions.version import Version
    from pkm.api.versions.version_specifiers import VersionSpecifier, AllowAllVersions, RestrictAllVersions
    from pkm.api.dependencies.dependency import Dependency

    ctx.rule = "each distinct (specifier text, version) membership that the reference decides"
    ctx.assumptions = [
        "an interval or wildcard is taken by version order (a wildcard or ~= from the given version to the next one of its prefix)",
        "post-releases are judged on single clauses only, local versions on single clauses and on == and != lists; versions with a local part in a bound of a range are not generated"]
    ctx.required_events = ["admitted", "refused", "equal specs", "boundary version", "local version", "post version", "written"]
    ctx.min_evaluations = 20000
    rng = ctx.sub_rng("spec")
    cache = {}

    def ver(text):
        if text not in cache:
            cache[text] = (Version.parse(text), PV(text))
        return cache[text]

    def members(spec, texts):
        return [bool(spec.allows_version(ver(t)[0])) for t in texts]

    def judge(clauses, texts, text):
        kind, spec = outcome(VersionSpecifier.parse, text)
        if kind == "err":
            ctx.violation("unreadable", f"{text!r} failed: {short_tb(spec)}", text=text)
            return None
        got = members(spec, texts)
        for t, g in zip(texts, got):
            want = all(c.admits(ver(t)[1]) for c in clauses)
            ctx.event("admitted" if want else "refused")
            if any(c.v is not None and ver(t)[1] == c.v for c in clauses):
                ctx.event("boundary version")
            if ver(t)[1].local:
                ctx.event("local version")
            if ver(t)[1].post is not None:
                ctx.event("post version")
            ctx.evaluated((text, t), {"spec": text, "version": t, "admitted": want})
            if g != want:
                ctx.violation(f"membership:{'+'.join(sorted(c.op + ('.*' if c.wild else '') for c in clauses)) if len(clauses) == 1 else 'conjunction'}",
                              f"{text!r} {'admits' if g else 'refuses'} {t}", spec=text, version=t)
        return spec

    def written(spec, texts, text):
        """written out (as a requirement), the text must be a PEP 440 specifier of the same meaning"""
        dep = str(Dependency("x", spec))
        kind, again = outcome(Dependency.parse, dep)
        ctx.event("written")
        if kind == "err":
            ctx.violation("write", f"{text!r} is written as {dep!r}, which fails to parse: {short_tb(again)}", spec=text)
            return
        if members(again.version_spec, texts) != members(spec, texts) or again.env_marker:
            ctx.violation("write", f"{text!r} is written as {dep!r}, which admits other versions", spec=text)
        pep = dep[1:].strip()
        if outcome(SpecifierSet, pep)[0] == "err":
            ctx.violation("write", f"{text!r} is written as {pep!r}, which is not PEP 440", spec=text)

    more = ctx.budget(25, 900)
    seen = []
    for i in range(ctx.pick(2500, 100000)):
        if not more():
            break
        n = rng.choice([1, 1, 1, 2, 2, 3, 4])
        clauses = [refver.gen_clause(rng, POOL + POSTS if n == 1 else POOL) for _ in range(n)]
        text = rng.choice([",", ", ", " , "]).join(c.text(rng) for c in clauses)
        if rng.random() < .1:
            text = f"({text})"
        near = set()
        for c in clauses:
            if c.v is not None:
                near |= neighbours(c.version.split("+")[0]) | {c.version}
        texts = sorted(near | set(rng.sample(POOL, 6)))
        if n == 1:
            texts += rng.sample(POSTS, 3)
            if clauses[0].v is not None and clauses[0].v.post is None and clauses[0].v.dev is None:
                texts.append(clauses[0].v.public.split("+")[0] + ".post1")
        else:
            texts = [t for t in texts if PV(t).post is None]
            if not all(c.op in ("==", "!=") and not c.wild for c in clauses):
                texts = [t for t in texts if PV(t).local is None]
        spec = judge(clauses, texts, text)
        if spec is None:
            continue
        if not any(c.op == "===" for c in clauses):
            # PEP 440: arbitrary equality cannot be re-expressed by every reader
            written(spec, [t for t in texts if PV(t).post is None], text)
        seen.append((spec, text, texts))

        # specs that compare equal admit the same versions
        other, otext, otexts = rng.choice(seen[-60:])
        pairs = [(other, otext, otexts)]
        if n == 1 and clauses[0].op in ("==", ">=", "<", "~=") and not clauses[0].wild:
            v = clauses[0].version
            alt = clauses[0].op + (v + ".0" if "+" not in v and PV(v).pre is None and PV(v).dev is None and PV(v).post is None and clauses[0].op != "~=" else v)
            pairs.append((VersionSpecifier.parse(alt), alt, texts))
        for o, ot, ots in pairs:
            if (o == spec) is True:
                ctx.event("equal specs")
                both = [t for t in {*texts, *ots} if PV(t).post is None]
                if members(o, both) != members(spec, both):
                    ctx.violation("equality", f"{text!r} == {ot!r} but they admit different versions", a=text, b=ot)
                if hash(o) != hash(spec):
                    ctx.violation("equality-hash", f"{text!r} == {ot!r} but they hash differently", a=text, b=ot)

    for t in ("*", ""):
        kind, s = outcome(VersionSpecifier.parse, t)
        if kind == "err" or s is not AllowAllVersions:
            ctx.violation("any", f"{t!r} is not the any-version specifier")
    for t in (">2,<1", "==1,==2", "==1,!=1", ">1,<1", "==1.0.*,==1.1.*", ">=2,!=2,<=2"):
        kind, s = outcome(VersionSpecifier.parse, t)
        if kind == "err" or s is not RestrictAllVersions:
            ctx.violation("none", f"{t!r} is not recognised as admitting nothing", text=t)
        else:
            written(s, POOL, t)

    # names
    for name in ("Foo-Bar", "latest", "2004d"):
        s = VersionSpecifier.parse(f"==={name}")
        if not s.allows_version(Version.parse(name)) or s.allows_version(Version.parse(name + "x")):
            ctx.violation("arbitrary", f"==={name} does not admit exactly the version named {name}", name=name)
