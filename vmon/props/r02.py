"""R02: verdicts of the real solver compared with exhaustive search; CPU watchdog for termination; preference oracle."""
import re

from packaging.version import Version as PV

from vmon import solving, world
from vmon.core import short_tb
from vmon.props import r01
from vmon.refver import Clause


def verdicts(ctx, n, cap, label, pool, npk, **kw):
    more = ctx.budget(*cap)
    for i in range(n):
        if not more():
            break
        rng = ctx.sub_rng("solver", label, i)
        g = solving.gen_index(rng, rng.randint(*npk), pool, **kw)
        verdict, value = solving.run_solver(g)
        ctx.event(f"solver:{verdict}")
        if verdict == "timeout":
            ctx.violation("endless", f"[{label} {i}] no answer after 20 s of CPU time; index {solving.show(g)}")
        elif verdict == "crash":
            ctx.violation("crash", f"[{label} {i}] solving failed with {short_tb(value)}; index {solving.show(g)}")
        elif verdict == "unsat":
            sol = solving.brute(g)
            if sol == "unknown":
                ctx.event("brute-force-gave-up")
            else:
                ctx.event("unsat-confirmed" if sol is None else "unsat-refuted")
                ctx.check(sol is None, "wrong-unsat", f"[{label} {i}] reported unsolvable, but {sol} satisfies everything; index {solving.show(g)}")
        ctx.evaluated((label, i) if verdict == "unsat" else None, sample={"index": solving.show(g), "verdict": verdict})


def hard(ctx):
    """families known to need real conflict-driven search: deep chains, pigeon-hole and mutually exclusive diamonds"""
    ge = lambda v: solving.Spec([Clause(">=", v)])
    lt = lambda v: solving.Spec([Clause("<", v)])
    eq = lambda v: solving.Spec([Clause("==", v)])
    cases = {}
    for n in ctx.pick((3, 6), (3, 6, 10, 14)):
        g = {("root", "1.0"): [("c0", solving.ANY)]}
        for i in range(n):
            for v in range(1, 7):
                g[(f"c{i}", f"{v}.0")] = [(f"c{i + 1}", ge(f"{v}.0"))] if i + 1 < n else [("end", eq("1.0" if v > 5 else "2.0"))]
        g[("end", "2.0")] = []
        cases[f"chain{n}"] = g
        g2 = dict(g)
        g2[("end", "2.0")] = [("c0", lt("1.0"))]
        cases[f"dead-chain{n}"] = g2
    for n in ctx.pick((2, 3), (2, 3, 4)):
        g = {("root", "1.0"): [(f"h{i}", solving.ANY) for i in range(n + 1)]}
        for i in range(n + 1):
            for v in range(n):
                g[(f"h{i}", f"{v + 1}.0")] = [(f"slot{v}", eq(f"{i + 1}.0"))]
        for v in range(n):
            for i in range(n + 1):
                g[(f"slot{v}", f"{i + 1}.0")] = []
        cases[f"pigeons{n}"] = g
    for n in ctx.pick((4, 8), (4, 8, 16)):
        g = {("root", "1.0"): [(f"d{i}", solving.ANY) for i in range(n)] + [("shared", solving.ANY)]}
        for i in range(n):
            g[(f"d{i}", "2.0")] = [("shared", ge("2.0")), ("other", lt("2.0"))]
            g[(f"d{i}", "1.0")] = [("shared", lt("2.0"))]
        g[("shared", "1.0")], g[("shared", "2.0")] = [], [("other", ge("2.0"))]
        g[("other", "1.0")], g[("other", "2.0")] = [], []
        cases[f"diamond{n}"] = g
    for n in ctx.pick((30,), (30, 60, 90)):
        # newest versions all conflict with the root's pin of the last package; a long walk back is needed
        g = {("root", "1.0"): [("a", solving.ANY), ("b", eq("1.0"))]}
        for v in range(1, n + 1):
            g[("a", f"{v}.0")] = [("b", eq("1.0") if v == 1 else ge("2.0"))]
        g[("b", "1.0")], g[("b", "2.0")] = [], []
        cases[f"walkback{n}"] = g
    for name, g in cases.items():
        verdict, value = solving.run_solver(g, cpu=60)
        ctx.event(f"hard:{verdict}")
        known_sat = not name.startswith(("pigeons", "dead"))
        want = "solved" if known_sat else "unsat"
        ok = verdict == want and (verdict != "solved" or solving.closure_error(g, value) is None)
        ctx.check(ok, f"hard:{name.rstrip('0123456789')}", f"{name}: {verdict} ({short_tb(value) if verdict == 'crash' else value}), expected {want}")
        ctx.evaluated(("hard", name))


def agreeing_index(rng, order_of=None, keep=()):
    """an index in which nothing conflicts: every constraint on p admits the preferred version t(p) and nothing more preferred.
    returns (g, order, expected)"""
    npk = rng.randint(2, 7)
    names = [f"p{i}" for i in range(npk)]
    order, goal = {}, {}
    for p in names:
        vs = rng.sample(solving.DEEP, rng.randint(1, 6))
        vs.sort(key=PV, reverse=True)
        order[p] = order_of(rng, p, vs) if order_of else vs
        goal[p] = order[p][0] if (keep is not None and p in keep) or rng.random() < .4 else rng.choice(order[p])

    def spec(p):
        for _ in range(60):
            s = solving.gen_spec(rng, order[p], .3)
            if next((v for v in order[p] if s.admits(v)), None) == goal[p]:
                return s
        return solving.Spec([Clause("==", goal[p])])

    def deps(me, root=False):
        others = [q for q in names if q != me]
        return [(q, spec(q)) for q in rng.sample(others, min(len(others), rng.choice([1, 2, 3] if root else [0, 0, 1, 2, 2])))]

    g = {("root", "1.0"): deps(None, True)}
    for p in names:
        for v in order[p]:
            g[(p, v)] = deps(p)
    expected, todo = {"root": "1.0"}, ["root"]
    while todo:
        p = todo.pop()
        for q, _ in g[(p, expected[p])]:
            if q not in expected:
                expected[q] = goal[q]
                todo.append(q)
    return g, order, expected


def preferences(ctx, n, cap):
    more = ctx.budget(*cap)
    for i in range(n):
        if not more():
            break
        rng = ctx.sub_rng("pref", i)

        def order_of(rng, p, vs):
            if rng.random() < .5:
                first = rng.choice(vs)  # a preferred (locked / installed) version comes first
                return [first] + [v for v in vs if v != first]
            return vs

        g, order, expected = agreeing_index(rng, order_of)
        verdict, value = solving.run_solver(g, order=order)
        ctx.event(f"preference:{verdict}")
        ctx.check(verdict == "solved" and value == expected, "preference",
                  f"[pref {i}] nothing conflicts, expected {expected}, got {verdict} {short_tb(value) if verdict == 'crash' else value}; order {order}; index {solving.show(g)}")
        ctx.evaluated(("pref", i), sample={"expected": expected, "order": order})


def norm(name):
    return re.sub(r"[-_.]+", "-", name).lower()


class IndexRepo:
    """builds a real repository serving an index"""

    @staticmethod
    def create(g):
        from pkm.api.dependencies.dependency import Dependency
        from pkm.api.packages.package import Package, PackageDescriptor
        from pkm.api.repositories.repository import AbstractRepository
        from pkm.api.versions.version import Version

        class P(Package):
            def __init__(self, n, v):
                self.key, self._d = (n, v), PackageDescriptor(n, Version.parse(v))

            @property
            def descriptor(self):
                return self._d

            def dependencies(self, target, extras=None):
                return [Dependency.parse(f"{q} {'' if s.text == '*' else s.text}") for q, s in g[self.key]]

            def is_compatible_with(self, env):
                return True

            def install_to(self, *a, **k):
                raise AssertionError("must not install")

        class R(AbstractRepository):
            def _do_match(self, dependency, env):
                return self._sorted_by_version([P(n, v) for n, v in g if n == norm(dependency.package_name) and dependency.version_spec.allows_version(Version.parse(v))])

        return R("index")


def update_closure(g):
    """what the newest admitted versions give; False when anything conflicts on the way"""
    want, todo = {"root": "1.0"}, ["root"]
    newest = lambda q: [v for v in sorted((v for n_, v in g if n_ == q), key=PV, reverse=True) if all(s.admits(v) for d in g.values() for q2, s in d if q2 == q)]
    ok = True
    while todo:
        p = todo.pop()
        for q, _ in g[(p, want[p])]:
            if q not in want:
                vs = newest(q)
                top = sorted((v for n_, v in g if n_ == q), key=PV, reverse=True)
                # only judge when nothing conflicts in the natural order either
                firsts = {next((v for v in top if s.admits(v)), None) for d in g.values() for q2, s in d if q2 == q}
                if not vs or firsts != {vs[0]}:
                    ok = False
                    vs = vs or [top[0]]
                want[q] = vs[0]
                todo.append(q)
    return want, ok


def locked_and_installed(ctx, n, cap):
    """the locked version, else the installed one unless an update is asked for, else the newest: through the real lock and planner"""
    import shutil
    from pkm.api.dependencies.dependency import Dependency
    from pkm.resolution.packages_lock import LockPrioritizingRepository, PackagesLock
    from pkm.resolution.pubgrub import UnsolvableProblemException
    env = world.make_env(ctx, "plan-env")
    site = env.site_packages.purelib_path
    more = ctx.budget(*cap)
    for i in range(n):
        if not more():
            break
        rng = ctx.sub_rng("plan", i)
        mode = rng.choice(["lock", "installed", "update"])
        chosen_first = {}

        def order_of(rng, p, vs):
            if rng.random() < .5:
                chosen_first[p] = rng.choice(vs)
                return [chosen_first[p]] + [v for v in vs if v != chosen_first[p]]
            return vs

        # what is installed is only kept when it fits: replacing it would be a conflict, so installed versions always fit here
        g, order, expected = agreeing_index(rng, order_of, chosen_first if mode == "installed" else ())
        shutil.rmtree(site)
        site.mkdir()
        reqs = [Dependency.parse(f"{q} {'' if s.text == '*' else s.text}") for q, s in g[("root", "1.0")]]
        repo = IndexRepo.create(g)
        updates = None
        asked = [p for p in chosen_first if rng.random() < .3]      # requested by the user earlier
        if mode == "update":
            # an earlier request is for any version: it must name what would be installed anyway, and pull it in no other order
            natural = update_closure(g)[0]
            asked = [p for p in asked if natural.get(p) == max((v for n_, v in g if n_ == p), key=PV)]
        for p, v in chosen_first.items():
            world.fake_installed(site, p, v, [f"{q} {'' if s.text == '*' else s.text}" for q, s in g[(p, v)]], requested=p if p in asked else None)
        env.reload()
        env.installation_target.reload()
        if mode == "lock":
            lock = PackagesLock().update_lock(env)
            shutil.rmtree(site)
            site.mkdir()
            env.reload()
            env.installation_target.reload()
            repo = LockPrioritizingRepository("locked", repo, lock)
            reqs = [Dependency.parse("root ==1.0")]  # the lock is consulted for a project's dependencies: 'root' is the project
        elif mode == "update":
            # every package with an installed version is updated: the newest admitted version is preferred
            updates = list(chosen_first)
            want, ok = update_closure(g)
            if not ok:
                ctx.event("update-conflicting-skipped")
                continue
            expected = want
        try:
            with solving.cpu_limit(20), solving.quiet():
                plan = env.installation_target.plan_installation(reqs, repo, updates=updates)
            got = {norm(p.name): str(p.version) for p in plan.packages if norm(p.name) != "installation-request"}
        except solving.CpuTimeout:
            ctx.violation("plan-endless", f"[plan {i}] no plan after 20 s of CPU")
            continue
        except UnsolvableProblemException as e:
            got = f"unsolvable: {e}"
        want = {p: v for p, v in expected.items() if p != "root"}
        if isinstance(got, dict):
            got.pop("root", None)
        if mode == "installed" and isinstance(got, dict):
            got = {p: v for p, v in got.items() if p in want or p not in chosen_first}  # other installed packages stay
        elif mode == "update" and isinstance(got, dict):
            got = {p: v for p, v in got.items() if p in want or p not in chosen_first}
        ctx.event(f"plan:{mode}")
        ctx.check(got == want, f"plan-{mode}", f"[plan {i}] {mode} {chosen_first}: expected {want}, got {got}; requested {[str(r) for r in reqs]}; index {solving.show(g)}")
        ctx.evaluated(("plan", i), sample={"mode": mode, "first": chosen_first, "expected": want})


def resolver_verdicts(ctx, n, cap):
    env = world.make_env(ctx)
    more = ctx.budget(*cap)
    for i in range(n):
        if not more():
            break
        rng = ctx.sub_rng("resolver", i)
        w = solving.World(rng, env)
        verdict, sol, info = r01.resolve(ctx, w, rng, env.installation_target)
        ctx.event(f"resolver:{verdict}")
        if verdict == "unsat":
            best = w.brute()
            if best != "unknown":
                ctx.event("resolver-unsat-confirmed" if best is None else "resolver-unsat-refuted")
                ctx.check(best is None, "resolver-wrong-unsat", f"[resolver {i}] reported unsolvable, but {best} satisfies everything; requested {info['root']}; index {w.show()}")
        elif verdict == "timeout":
            ctx.violation("resolver-endless", f"[resolver {i}] no answer after 20 s of CPU time; index {w.show()}")
        elif verdict == "crash":
            ctx.violation("resolver-crash", f"[resolver {i}] failed with {short_tb(info['exc'])}; requested {info['root']}; index {w.show()}")
        ctx.evaluated(("resolver", i) if verdict == "unsat" else None)


def findings(ctx):
    """inputs recorded in known_findings.txt: reported under their own keys so that nothing else hides behind them"""
    S = lambda *cl: solving.Spec([Clause(*c) for c in cl])
    g = {("root", "1.0"): [("p1", S(("<", "2.0"))), ("p2", S(("~=", "2.0"), ("!=", "2.0")))], ("p1", "1.0"): [], ("p1", "1.0+a"): [("p2", S(("!=", "2.0")))],
         ("p1", "2.0+b.1"): [("p0", S((">=", "1.0")))], ("p0", "2.0"): [], ("p0", "2.0+b"): [("p2", S(("<", "1.0"))), ("p1", S((">=", "1.0")))],
         ("p0", "2.0+b.1"): [("p2", S(("<=", "2.0"))), ("p1", S(("<", "1.0")))], ("p2", "1.0+a"): [], ("p2", "2.0+b.1"): [("p0", solving.ANY)], ("p2", "2.0"): []}
    verdict, value = solving.run_solver(g)
    ctx.event("finding-replayed")
    if verdict not in ("solved", "unsat"):
        ctx.violation("local-versions-index-1", f"{verdict}: {short_tb(value) if value else ''}")
    w = {("root", "1.0"): [("foo", S(("==", "2.0a1")))], ("foo", "2.0a1"): [], ("foo", "1.0"): []}
    from pkm.api.dependencies.dependency import Dependency
    from pkm.resolution.pubgrub import UnsolvableProblemException
    env = world.make_env(ctx, "finding-env")
    try:
        with solving.quiet():
            plan = env.installation_target.plan_installation([Dependency.parse("foo ==2.0a1")], IndexRepo.create(w))
        ctx.check({str(p.version) for p in plan.packages if p.name == "foo"} == {"2.0a1"}, "explicit-pre-release", f"{plan.packages}")
    except UnsolvableProblemException:
        ctx.violation("explicit-pre-release", "`foo ==2.0a1` is reported unsolvable although foo 2.0a1 is offered (next to a final release)")


def run(ctx):
    ctx.rule = "an index whose 'unsolvable' verdict was confirmed by exhaustive search, a hard family member, or a conflict-free index whose choice was predicted"
    ctx.required_events = ["unsat-confirmed", "solver:solved", "hard:solved", "hard:unsat", "preference:solved", "resolver-unsat-confirmed",
                           "plan:lock", "plan:installed", "plan:update"]
    ctx.min_evaluations = 500
    ctx.assumptions = ["termination restated as: an answer within 20 s of CPU time (answers take milliseconds)",
                       "indexes of final and pre-release versions; post-release and local versions are recorded findings"]
    q = ctx.pick
    verdicts(ctx, q(700, 8000), (12, 120), "small", solving.FINALS, (2, 4))
    verdicts(ctx, q(500, 6000), (12, 150), "dense", solving.FINALS, (4, 7), density=(0, 1, 2, 2, 3, 4))
    verdicts(ctx, q(300, 4000), (8, 100), "pre", solving.MIXED, (2, 5))
    verdicts(ctx, q(150, 3000), (10, 150), "large", solving.DEEP, (6, 11), maxv=8)
    hard(ctx)
    preferences(ctx, q(400, 5000), (10, 80))
    resolver_verdicts(ctx, q(400, 4000), (20, 160))
    locked_and_installed(ctx, q(150, 1500), (20, 120))
    findings(ctx)
