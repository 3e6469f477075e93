"""V02: parse / print / bump events judged by packaging's reader over generated spellings and mutations."""
import string

from packaging.version import Version as PV

from vmon import refver
from vmon.core import outcome, short_tb


def run(ctx):
    from pkm.api.versions.version import Version, StandardVersion, UrlVersion, NamedVersion
    ctx.rule = "each distinct text; spellings, mutations, bumps and URLs are counted separately in events"
    ctx.assumptions = ["packaging.version is the reference PEP 440 reader",
                       "texts wrapped in quotes or parentheses, with an empty local part or non-ASCII digits are not generated"]
    ctx.required_events = ["spelling", "mutation: not a version", "mutation: version", "bump", "url"]
    ctx.min_evaluations = 3000
    rng = ctx.sub_rng("spell")

    def key(v):
        return PV(str(v))

    def check_text(text, label):
        ref = refver.pv(text)
        kind, v = outcome(Version.parse, text)
        ctx.evaluated(text, {"text": text, "read": str(v)})
        if ref is None:
            ctx.event("mutation: not a version")
            if kind == "ok" and isinstance(v, StandardVersion):
                ctx.violation("read-garbage", f"{text!r} is not a version but was read as {v}", text=text)
            kind2, v2 = outcome(StandardVersion.parse, text)
            if kind2 == "ok":
                ctx.violation("read-garbage", f"{text!r} is not a version but StandardVersion.parse read {v2}", text=text)
            if kind == "ok" and isinstance(v, NamedVersion) and str(v) != text:
                ctx.violation("name-changed", f"{text!r} became the named version {str(v)!r}", text=text)
            return
        ctx.event(label)
        if kind == "err":
            ctx.violation("unreadable", f"{text!r} failed: {short_tb(v)}", text=text)
            return
        if not isinstance(v, StandardVersion):
            ctx.violation("unreadable", f"{text!r} is version {ref} but was read as {v!r}", text=text)
            return
        printed = str(v)
        again = Version.parse(printed)
        rp = refver.pv(printed)
        fields = (v.epoch or 0, tuple(v.release), v.pre_release, v.post_release, v.dev_release, v.local_label)
        want = (ref.epoch, ref.release, ref.pre, ref.post, ref.dev, ref.local)
        if fields != want:
            ctx.violation("fields", f"{text!r} read as {fields}, means {want}", text=text)
        if rp is None or rp != ref or rp.release != ref.release:
            ctx.violation("print", f"{text!r} (means {ref}) prints as {printed!r}", text=text)
        if again != v or str(again) != printed or hash(again) != hash(v):
            ctx.violation("roundtrip", f"{text!r}: {printed!r} parses back to {again!r}", text=text)
        if v.is_pre_or_dev_release() != ref.is_prerelease or v.is_post_release() != ref.is_postrelease \
                or v.is_local() != (ref.local is not None):
            ctx.violation("kind", f"{text!r}: pre/post/local classification is wrong", text=text)
        wl = v.without_local()
        if key(wl) != PV(ref.public):
            ctx.violation("without-local", f"{text!r} without its local part gave {wl}", text=text)

    more = ctx.budget(15, 600)
    n = ctx.pick(6000, 200000)
    for i in range(n):
        if not more():
            break
        p = refver.gen_parts(rng, small=rng.random() < .5)
        check_text(refver.spell(rng, p), "spelling")

    # systematic: every single part name x separators
    for names, base in ((sum(refver.PRE.values(), []), ""), (refver.POST, ""), (["dev", "DEV"], "")):
        for name in names:
            for s1 in ("", ".", "-", "_"):
                for s2 in ("", ".", "-", "_"):
                    for num in ("", "0", "1", "12"):
                        check_text(f"1.2{s1}{name}{s2 if num else ''}{num}", "spelling")
                        check_text(f"1.2{s1}{name}{s2 if num else ''}{num}+l1", "spelling")
                        if name.lower() in ("post", "rev", "r"):
                            check_text(f"1.2a1{s1}{name}{s2 if num else ''}{num}.dev3", "spelling")

    rng = ctx.sub_rng("mutate")
    alphabet = "0123456789.abrcdevpost-_+!v* xXyzgw"
    more = ctx.budget(10, 400)
    for i in range(ctx.pick(6000, 200000)):
        if not more():
            break
        text = refver.spell(rng, refver.gen_parts(rng, small=True))
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.randint(0, len(text))
            r = rng.random()
            if r < .4:
                text = text[:k] + rng.choice(alphabet) + text[k:]
            elif r < .7:
                text = text[:k] + text[k + 1:]
            elif text:
                k = min(k, len(text) - 1)
                text = text[:k] + rng.choice(alphabet) + text[k + 1:]
        loc = text.strip().split("+", 1)[1] if "+" in text else None
        if loc is not None and (not all(loc.replace("-", ".").replace("_", ".").split("."))):
            continue  # empty local segments: see assumptions
        if not text.strip():
            continue
        check_text(text, "mutation: version")

    for word in ["latest", "1.0garbage", "1.0 x", "1..0", "1.0.", "1.0a1b2", "1_0", "x1", "1.0.post1.post2", "1.0dev1a1",
                 "master", "1.0-foo", "release-1.0", "1.0.0-alpha.beta", "2004d", "1!", "!1", "1.0++l"]:
        if refver.pv(word) is None and word != "1.0++l":
            check_text(word, "mutation: version")

    # bump
    rng = ctx.sub_rng("bump")
    for i in range(ctx.pick(400, 10000)):
        rel = [rng.choice([0, 1, 2, 9, 10, 99]) for _ in range(3)]
        p = dict(epoch=rng.choice([None, None, 1]), release=rel, pre=rng.choice([None, None, ("a", 1), ("rc", 0), ("b", 9)]),
                 post=rng.choice([None, None, 1]), dev=rng.choice([None, None, 3]), local=rng.choice([None, None, "l.1"]))
        text = refver.canonical(p)
        v = Version.parse(text)
        part = rng.choice(["major", "minor", "patch", "pre"])
        e = f"{p['epoch']}!" if p["epoch"] else ""
        want = {"major": [rel[0] + 1, 0, 0], "minor": [rel[0], rel[1] + 1, 0], "patch": [rel[0], rel[1], rel[2] + 1]}
        ctx.event("bump")
        if part == "pre":
            if not p["pre"] or p["post"] is not None or p["dev"] is not None or p["local"]:
                continue
            kind, got = outcome(v.bump, p["pre"][0])
            expect = PV(e + ".".join(map(str, rel)) + f"{p['pre'][0]}{p['pre'][1] + 1}")
        else:
            kind, got = outcome(v.bump, part)
            expect = PV(e + ".".join(map(str, want[part])))
        ctx.evaluated(("bump", text, part), {"bump": text, "part": part, "got": str(got)})
        if kind == "err" or key(got) != expect:
            ctx.violation("bump", f"bumping {part} of {text} gave {got!r}, expected {expect}", text=text, part=part)
        if str(v) != text:
            ctx.violation("bump-mutates", f"bumping changed {text} into {v}", text=text)
        kind, got = outcome(v.bump, rng.choice(["x", "", "Major", "release", "alpha1"]))
        if kind == "ok":
            ctx.violation("bump-unknown", f"bumping an unknown part of {text} gave {got}", text=text)

    # urls
    rng = ctx.sub_rng("url")
    word = lambda: "".join(rng.choice(string.ascii_letters + string.digits + "-_.~") for _ in range(rng.randint(1, 8)))
    for i in range(ctx.pick(300, 5000)):
        scheme = rng.choice(["http", "https", "git+https", "git+ssh", "hg+http", "file"])
        host = "" if scheme == "file" else "Host" + word() + ".example" + rng.choice(["", ":8080"])
        url = f"{scheme}://{host}/" + "/".join(word() for _ in range(rng.randint(1, 4))) \
              + rng.choice(["", "?q=" + word(), "#sha256=" + word(), "@" + word() + "#egg=" + word()])
        kind, v = outcome(Version.parse, url)
        ctx.event("url")
        ctx.evaluated(url, {"url": url, "read": str(v)})
        if kind == "err" or not isinstance(v, UrlVersion) or str(v) != url:
            ctx.violation("url", f"{url!r} was read as {v!r}", url=url)
        elif v.protocol != scheme.split("+")[0] or Version.parse(str(v)) != v:
            ctx.violation("url", f"{url!r}: protocol {v.protocol}, or does not round trip", url=url)
        elif "q=" in url and Version.parse(url + "x") == v:
            ctx.violation("url", f"two different URLs compare equal: {url}", url=url)
