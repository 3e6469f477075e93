"""V01: every comparison of the real version objects is recorded and judged by packaging's order."""
import operator

from packaging.version import Version as PV

from vmon import refver
from vmon.core import outcome

OPS = [("<", operator.lt), ("<=", operator.le), (">", operator.gt), (">=", operator.ge), ("==", operator.eq), ("!=", operator.ne)]


def run(ctx):
    from pkm.api.versions.version import Version
    ctx.rule = "a pair counts when the two versions differ in text; distinct pairs of texts are counted"
    ctx.assumptions = ["packaging.version implements the PEP 440 order", "text is parsed in canonical spelling (V02 judges parsing)"]
    ctx.required_events = ["compared pairs", "equal pairs", "pre vs dev", "post vs dev", "local vs local", "epoch differs", "sorted lists", "mixed kinds"]
    ctx.min_evaluations = 10000

    def make(text):
        kind, v = outcome(Version.parse, text)
        if kind == "err" or str(getattr(v, "release", None)) == "None":
            ctx.violation("unreadable", f"{text!r} is not read as a version: {v!r}", text=text)
            return None
        return v

    rels = ["1", "1.0", "1.0.0", "1.1", "0.9", "1.0.1", "10", "1.9", "1.10"]
    grid = [f"{e}{r}{p}{po}{d}{l}" for e in ("", "0!", "1!") for r in rels for p in ("", "a1", "a2", "b1", "rc1", "rc10")
            for po in ("", ".post0", ".post1", ".post10") for d in ("", ".dev0", ".dev1", ".dev9", ".dev10")
            for l in ("", "+abc", "+1", "+1.a", "+1.10", "+1.9", "+abd.1", "+10")]
    rng = ctx.sub_rng("grid")

    def judge(pool, label):
        for t1, v1, p1 in pool:
            for t2, v2, p2 in pool:
                bad = None
                for name, op in OPS:
                    try:
                        got = op(v1, v2)
                    except Exception as e:  # noqa
                        got = repr(e)
                    if got is not op(p1, p2):
                        bad = (name, got)
                        break
                ctx.event("compared pairs")
                if p1 == p2:
                    ctx.event("equal pairs")
                    if hash(v1) != hash(v2):
                        ctx.violation("hash", f"{t1} and {t2} are the same version but hash differently", pair=[t1, t2])
                if bad:
                    ctx.violation(f"order:{bad[0]}", f"{t1} {bad[0]} {t2} gave {bad[1]}, PEP 440 says otherwise", pair=[t1, t2])
                if p1.epoch != p2.epoch:
                    ctx.event("epoch differs")
                elif p1.release == p2.release:
                    if p1.pre and p2.dev is not None:
                        ctx.event("pre vs dev")
                    if p1.post is not None and p2.dev is not None:
                        ctx.event("post vs dev")
                    if p1.local and p2.local:
                        ctx.event("local vs local")
                ctx.evaluated((t1, t2) if t1 != t2 else None, {"pair": [t1, t2], "less": p1 < p2})

    def pooled(texts):
        out = []
        for t in texts:
            v = make(t)
            if v is not None:
                out.append((t, v, PV(t)))
        return out

    more = ctx.budget(25, 900)
    # a: dense blocks: all versions of one release
    blocks = 0
    while more() and blocks < ctx.pick(6, 200):
        blocks += 1
        base = rng.choice(rels)
        same = [g for g in grid if g.split("!")[-1].startswith(base) and not g.split("!")[-1][len(base):][:1].isdigit()]
        judge(pooled(rng.sample(same, min(len(same), 110))), "dense")
        judge(pooled(rng.sample(grid, 90)), "wide")
        big = [refver.canonical(refver.gen_parts(rng)) for _ in range(60)]
        judge(pooled(big), "random")

    # b: sort / min / max over lists
    for _ in range(ctx.pick(300, 10000)):
        if not more():
            break
        pool = pooled(rng.sample(grid, rng.randint(2, 25)))
        want = [p for _, _, p in sorted(pool, key=lambda it: it[2])]
        got = [PV(str(v)) for v in sorted(v for _, v, _ in pool)]
        rev = [PV(str(v)) for v in sorted((v for _, v, _ in pool), reverse=True)]
        ctx.event("sorted lists")
        ctx.evaluated(("sort", tuple(t for t, _, _ in pool)))
        if got != want or rev != want[::-1]:
            ctx.violation("sort", f"sorting {[t for t, _, _ in pool]} gave {list(map(str, got))}", texts=[t for t, _, _ in pool])
        if PV(str(max(v for _, v, _ in pool))) != want[-1] or PV(str(min(v for _, v, _ in pool))) != want[0]:
            ctx.violation("minmax", f"min/max of {[t for t, _, _ in pool]} is wrong", texts=[t for t, _, _ in pool])
        # equal versions are one key
        keys = {v for _, v, _ in pool}
        if len(keys) != len({p for _, _, p in pool}):
            ctx.violation("hash", f"set of {[t for t, _, _ in pool]} has {len(keys)} members", texts=[t for t, _, _ in pool])

    # c: versions that are urls or plain names are not PEP 440 versions, but lists holding them are sorted too: the order must be total
    others = ["https://x.io/a", "git+https://x.io/a", "hg+https://x.io/a", "git+https://x.io/b", "http://x.io/a", "file:///a.whl", "https://x.io/A", "git+ssh://x.io/a@v1.0",
              "latest", "Latest", "2004d", "main", "release-x"]
    kinds = [(t, Version.parse(t)) for t in others + rng.sample(grid, 6)]
    for t1, v1 in kinds:
        for t2, v2 in kinds:
            same = t1 == t2 if t1 in others or t2 in others else PV(t1) == PV(t2)
            kind, got = outcome(lambda: (v1 < v2, v1 == v2, v2 < v1, v1 > v2, v1 != v2))
            ctx.evaluated(("kinds", t1, t2))
            ctx.event("mixed kinds")
            if kind == "err" or got[1] != same or got[4] == same or (got[0] + got[2] != (0 if same else 1)) or got[3] != got[2]:
                ctx.violation("kinds", f"{t1} and {t2}: (<, ==, reversed <, >, !=) gave {got}", pair=[t1, t2])
            elif same and hash(v1) != hash(v2):
                ctx.violation("hash", f"{t1} hashes differently each time", pair=[t1, t2])
    for _ in range(ctx.pick(200, 3000)):
        a, b, c = rng.sample(kinds, 3)
        if a[1] < b[1] and b[1] < c[1]:
            ctx.check(a[1] < c[1], "transitive", f"{a[0]} < {b[0]} < {c[0]} but not {a[0]} < {c[0]}")
        order = [rng.sample(kinds, len(kinds)) for _ in range(2)]
        keys = [[str(v) for _, v in sorted(o, key=lambda it: it[1])] for o in order]
        pv = lambda t: PV(t) if t[0].isdigit() and t not in others else t
        ctx.check([pv(t) for t in keys[0]] == [pv(t) for t in keys[1]], "sort-kinds", f"sorting the same versions gave {keys[0]} and {keys[1]}")
