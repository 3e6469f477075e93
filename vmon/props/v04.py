"""V04: every set operation on real specifiers is recorded with membership bitmaps and judged by boolean algebra."""
from packaging.version import Version as PV

from vmon import refver
from vmon.core import outcome, short_tb
from vmon.props.v03 import neighbours

BOUNDS = ["0.9", "1", "1.0", "1.0.1", "1.1", "1.5", "2", "2.0", "2.1", "3.0", "1.10", "1.0a1", "1.0rc1", "2.0.dev1", "2.0b2", "1!0.5",
          "0.9.1", "2.0.1.2"]
PREFIXES = ["0", "1", "2", "1.0", "1.1", "0.9", "1.0.1", "2.0", "1.10", "1!0"]


def above(v):
    """a version just above v: below every other bound that is above v"""
    p = PV(v)
    base = f"{p.epoch}!" + ".".join(map(str, p.release))
    if p.dev is not None:
        pre = "".join(map(str, p.pre)) if p.pre else ""
        return f"{base}{pre}.dev{p.dev + 1}"
    if p.pre:
        return f"{base}{p.pre[0]}{p.pre[1] + 1}.dev0"
    return base + ".0.0.0.1.dev0"


def run(ctx):
    from pkm.api.versions.version import Version
    from pkm.api.versions.version_specifiers import VersionSpecifier, AllowAllVersions, RestrictAllVersions

    ctx.rule = "each distinct operation expression (operand texts and operators) whose result is compared on the whole sample"
    ctx.assumptions = ["the sample holds every bound, a version between each two neighbouring bounds, and versions below and above all",
                       "post-releases and local versions (which ranges treat by special rules) are set aside, except == and != with local parts"]
    ctx.required_events = ["intersection", "union", "difference", "complement", "any", "all", "empty result", "full result",
                           "operands rechecked", "chained operand", "local operand", "small scope pair"]
    ctx.min_evaluations = 3000

    ups = set()
    for pfx in PREFIXES:
        c = refver.Clause("==", pfx, wild=True)
        ups.add(str(c._upper()))
    for b in BOUNDS:
        if len(PV(b).release) > 1:
            ups.add(str(refver.Clause("~=", b)._upper()))
    all_bounds = {*BOUNDS, *PREFIXES, *ups}
    texts = {"0.dev0", "0.0.1", "99", "9!9"}
    for b in all_bounds:
        texts |= {b, above(b)}
    for b in ("1.0", "2.0", "1.1"):
        texts |= {t for t in neighbours(b)}
    sample_pv = sorted({PV(t) for t in texts if PV(t).local is None and PV(t).post is None})
    sample = [Version.parse(str(p)) for p in sample_pv]
    lsample_pv = sorted({PV(t) for b in ("1.0", "2.0", "1.1") for t in (b, b + "+l", b + "+l.2", b + "+z", b + ".1")} | {PV("3"), PV("0.1"), PV("1.0a1")})
    lsample = [Version.parse(str(p)) for p in lsample_pv]
    ctx.distinct("sample versions", tuple(map(str, sample_pv)))

    def bitmap(spec, smp):
        return tuple(bool(spec.allows_version(v)) for v in smp)

    def fresh(rng, local):
        n = rng.choice([1, 1, 1, 2, 2, 3])
        if local:
            cl = [refver.Clause(rng.choice(["==", "!="]), rng.choice(["1.0", "2.0", "1.1"])) for _ in range(n)]
            if rng.random() < .3:
                cl = [refver.Clause("==", rng.choice(["1.0+l", "2.0+l", "1.0+l.2"]))]
        else:
            cl = [refver.gen_clause(rng, BOUNDS, ops=["==", "!=", "<", "<=", ">", ">=", "~=", "==.*", "!=.*", "!=", "==", "*"][:11 if rng.random() < .97 else 12],
                                    prefix_pool=PREFIXES) for _ in range(n)]
        text = ", ".join(c.text() for c in cl)
        kind, s = outcome(VersionSpecifier.parse, text)
        if kind == "err":
            ctx.violation("parse", f"{text!r} failed: {short_tb(s)}", text=text)
            return None
        return s, text, cl

    OPS = {
        "intersection": (lambda a, b: a.intersect_with(b), lambda x, y: x and y, "&"),
        "union": (lambda a, b: a.union_with(b), lambda x, y: x or y, "|"),
        "difference": (lambda a, b: a.difference_from(b), lambda x, y: x and not y, "-"),
    }

    def play(rng, local, smp, smp_pv):
        pool = []
        for _ in range(rng.choice([2, 2, 3])):
            f = fresh(rng, local)
            if f is None:
                return
            s, text, cl = f
            bm = bitmap(s, smp)
            want = tuple(all(c.admits(v) for c in cl) for v in smp_pv)
            if bm != want:
                ctx.violation("parse-membership", f"{text!r} does not admit what its clauses admit", text=text)
                return
            pool.append((s, f"[{text}]", bm, str(s), "+" in text))
        for step in range(rng.choice([2, 4, 6])):
            a, b = rng.choice(pool), rng.choice(pool)
            ops = ["intersection", "any"] if a[4] or b[4] else \
                ["intersection", "union", "difference", "complement", "any", "all", "intersection", "union"]
            op = rng.choice(ops)
            name = f"({a[1]} {OPS[op][2] if op in OPS else op} {b[1]})" if op != "complement" else f"~{a[1]}"
            ctx.event(op)
            if a[1][0] != "[" or b[1][0] != "[":
                ctx.event("chained operand")
            if a[4] or b[4]:
                ctx.event("local operand")
            if op == "complement":
                kind, r = outcome(a[0].inverse)
                want = tuple(not x for x in a[2])
            elif op in OPS:
                kind, r = outcome(OPS[op][0], a[0], b[0])
                want = tuple(bool(OPS[op][1](x, y)) for x, y in zip(a[2], b[2]))
            elif op == "any":
                kind, r = outcome(a[0].allows_any, b[0])
                want = any(x and y for x, y in zip(a[2], b[2]))
            else:
                kind, r = outcome(a[0].allows_all, b[0])
                want = all(x or not y for x, y in zip(a[2], b[2]))
            ctx.evaluated(name, {"expr": name, "result": str(r)})
            if kind == "err":
                ctx.violation(f"{op}:error", f"{name} failed: {short_tb(r)}", expr=name)
                return
            for p in pool:
                if bitmap(p[0], smp) != p[2] or str(p[0]) != p[3]:
                    ctx.violation("mutation", f"{name} changed its operand {p[1]} from {p[3]} to {p[0]}", expr=name)
                    return
            ctx.event("operands rechecked")
            if op in ("any", "all"):
                if bool(r) != want:
                    ctx.violation(f"{op}:{want}", f"{name} gave {r}", expr=name)
                continue
            got = bitmap(r, smp)
            if got != want:
                diff = [str(v) for v, x, y in zip(smp, got, want) if x != y]
                ctx.violation(f"{op}", f"{name} = {r} is wrong about {diff[:8]}", expr=name, wrong=diff)
                return
            if not any(want):
                ctx.event("empty result")
                if r is not RestrictAllVersions:
                    ctx.violation(f"{op}:none", f"{name} = {r} admits nothing but is not recognised as none", expr=name)
            if all(want):
                ctx.event("full result")
                if not local and not r.allows_all(VersionSpecifier.parse(">=0.dev0")):
                    ctx.violation(f"{op}:any", f"{name} = {r} admits everything but does not contain everything", expr=name)
            if len(name) < 240:
                pool.append((r, name, got, str(r), "+" in name))

    more = ctx.budget(15, 700)
    rng = ctx.sub_rng("algebra")
    for i in range(ctx.pick(6000, 300000)):
        if not more():
            break
        local = i % 6 == 5
        play(rng, local, lsample if local else sample, lsample_pv if local else sample_pv)

    # exhaustive small scope: every pair of simple specifiers whose bounds coincide or neighbour each other
    pts = ctx.pick(["1", "2", "3"], ["1", "2", "3", "4"])
    small_pv = sorted({PV(t) for b in pts for t in (b, above(b), b + "a1")} | {PV("0.dev0"), PV("99")})
    small = [Version.parse(str(p)) for p in small_pv]
    atoms = ["*"] + [op + b for b in pts for op in ("==", "!=", "<", "<=", ">", ">=")]
    atoms += [f"{lo}{a}, {hi}{b}" for i, a in enumerate(pts) for b in pts[i + 1:] for lo in (">", ">=") for hi in ("<", "<=")]
    atoms += [f"!={a}, !={b}" for i, a in enumerate(pts) for b in pts[i + 1:]] + [f"!={a}, {hi}{b}" for a in pts for b in pts for hi in (">=", "<=") if a != b]
    known = []
    for t in atoms:
        s = VersionSpecifier.parse(t)
        known.append((s, t, bitmap(s, small)))
        inv = s.inverse()
        known.append((inv, f"~[{t}]", tuple(not x for x in known[-1][2])))
    combos = [(a, b) for a in known for b in known]
    if ctx.quick:
        ctx.sub_rng("small").shuffle(combos)
    more = ctx.budget(20, 400)
    for n, (a, b) in enumerate(combos):
        if n % 64 == 0 and not more():
            break
        for op, (fn, ref, sym) in OPS.items():
            name = f"({a[1]} {sym} {b[1]})"
            want = tuple(bool(ref(x, y)) for x, y in zip(a[2], b[2]))
            kind, r = outcome(fn, a[0], b[0])
            ctx.evaluated(name)
            ctx.event("small scope pair")
            got = bitmap(r, small) if kind == "ok" else None
            if kind == "err" or got != want:
                what = short_tb(r) if kind == "err" else f"{r}, wrong about {[str(v) for v, x, y in zip(small, got, want) if x != y][:8]}"
                ctx.violation(op, f"{name} = {what}", expr=name)
        want_any, want_all = any(x and y for x, y in zip(a[2], b[2])), all(x or not y for x, y in zip(a[2], b[2]))
        got_any, got_all = outcome(lambda: bool(a[0].allows_any(b[0]))), outcome(lambda: bool(a[0].allows_all(b[0])))
        ctx.check(got_any == ("ok", want_any), "any", f"{a[1]} meets {b[1]}: {got_any}, expected {want_any}")
        ctx.check(got_all == ("ok", want_all), "all", f"{a[1]} contains {b[1]}: {got_all}, expected {want_all}")
    for s, t, bm in known:
        ctx.check(bitmap(s, small) == bm, "mutation", f"{t} was changed by operations on it: {s}")

    # the trivial specifiers
    some = [VersionSpecifier.parse(t) for t in (">=1", "<2", "==1.0", "!=1.0", "!=1.0.*", "!=1,!=2,<3", "*")]
    for s in some:
        facts = [
            (s.union_with(AllowAllVersions) is AllowAllVersions, "s | any"), (AllowAllVersions.union_with(s) is AllowAllVersions, "any | s"),
            (s.intersect_with(RestrictAllVersions) is RestrictAllVersions, "s & none"),
            (RestrictAllVersions.intersect_with(s) is RestrictAllVersions, "none & s"),
            (s.union_with(RestrictAllVersions) == s, "s | none"), (RestrictAllVersions.union_with(s) == s, "none | s"),
            (s.intersect_with(AllowAllVersions) == s, "s & any"), (AllowAllVersions.intersect_with(s) == s, "any & s"),
            (s.difference_from(s) is RestrictAllVersions, "s - s"), (AllowAllVersions.allows_all(s), "any contains s"),
            (s.allows_all(s), "s contains s"), (s.allows_any(s), "s meets s"), (not s.allows_any(RestrictAllVersions), "s meets none"),
            (not RestrictAllVersions.allows_any(s), "none meets s"), (not RestrictAllVersions.allows_all(s), "none contains s"),
            (s.allows_all(RestrictAllVersions), "s contains none"),
        ]
        for ok, fact in facts:
            ctx.evaluated((str(s), fact))
            if not ok:
                ctx.violation("trivial", f"'{fact}' is wrong for s = {s}", spec=str(s))
