"""R01: every answer of the real solver and resolver judged by an independent constraint checker over generated indexes."""
import re

from vmon import solving, world
from vmon.core import short_tb


def norm(name):
    return re.sub(r"[-_.]+", "-", name).lower()


def solver_phase(ctx, n, cap, label, pool, npk, **kw):
    more = ctx.budget(*cap)
    for i in range(n):
        if not more():
            break
        rng = ctx.sub_rng("solver", label, i)
        g = solving.gen_index(rng, rng.randint(*npk), pool, **kw)
        verdict, value = solving.run_solver(g)
        ctx.event(f"solver:{verdict}")
        key = None
        if verdict == "solved":
            err = solving.closure_error(g, value)
            ctx.check(err is None, "invalid", f"[{label} {i}] the chosen set is wrong: {err}; chosen {value}; index {solving.show(g)}")
            key = (label, sorted(value.items()), len(g))
            ctx.event("chosen-packages", len(value) - 1)
        elif verdict == "crash":
            ctx.violation("crash", f"[{label} {i}] solving failed with {short_tb(value)}; index {solving.show(g)}")
        ctx.evaluated(key, sample={"index": solving.show(g), "verdict": verdict, "chosen": value if verdict == "solved" else None})


def resolver_phase(ctx, n, cap):
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.packages.package import PackageDescriptor
    from pkm.resolution.dependency_resolver import resolve_dependencies
    from pkm.resolution.pubgrub import UnsolvableProblemException
    env = world.make_env(ctx)
    target = env.installation_target
    more = ctx.budget(*cap)
    for i in range(n):
        if not more():
            break
        rng = ctx.sub_rng("resolver", i)
        w = solving.World(rng, env)
        verdict, sol, info = resolve(ctx, w, rng, target)
        ctx.event(f"resolver:{verdict}")
        if verdict == "solved":
            err = w.error(sol)
            if not err and info["names"] != len(sol):
                err = f"a package was chosen twice: {info['list']}"
            ctx.check(err is None, "resolver-invalid", f"[resolver {i}] the chosen set is wrong: {err}; chosen {info['list']}; index {w.show()}; requested {info['root']}")
            ctx.evaluated(("resolver", i, sorted(sol.items())), sample={"index": w.show(), "root": info["root"], "chosen": info["list"]})
            if any(ex for _, ex, _ in w.root_deps()):
                ctx.event("solved-with-extras")
        elif verdict == "crash":
            ctx.violation("resolver-crash", f"[resolver {i}] failed with {short_tb(info['exc'])}; index {w.show()}; requested {info['root']}")
            ctx.evaluated()
        else:
            ctx.evaluated()


def resolve(ctx, w, rng, target, repo_wrap=None):
    """the real resolve_dependencies over the world; a root package carries the root requirements"""
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.packages.package import Package, PackageDescriptor
    from pkm.api.repositories.repository import AbstractRepository
    from pkm.api.versions.version import Version
    from pkm.resolution.dependency_resolver import resolve_dependencies
    from pkm.resolution.pubgrub import UnsolvableProblemException
    repo, packages = w.repository(rng)
    inner = repo_wrap(repo) if repo_wrap else repo
    root_texts = [w.text(rng, d) for d in w.root]

    class Root(Package):
        descriptor = PackageDescriptor("the-root", Version.parse("1.0"))

        def dependencies(self, target, extras=None):
            return [Dependency.parse(t) for t in root_texts]

        def is_compatible_with(self, env):
            return True

        def install_to(self, *a, **k):
            pass

    root = Root()

    class WithRoot(AbstractRepository):
        def _do_match(self, dependency, env):
            if norm(dependency.package_name) == "the-root":
                return [root]
            return inner.match(dependency, env)

    info = {"root": root_texts, "list": None}
    try:
        with solving.cpu_limit(20), solving.quiet():
            try:
                res = resolve_dependencies(Dependency.parse("the-root ==1.0"), target, WithRoot("with-root"))
            except UnsolvableProblemException as e:
                return "unsat", None, {**info, "exc": e}
    except solving.CpuTimeout:
        return "timeout", None, info
    except Exception as e:  # noqa
        return "crash", None, {**info, "exc": e}
    res = [p for p in res if norm(p.name) != "the-root"]
    by_norm = {norm(n): n for n in w.names}
    info["list"] = [f"{p.name} {p.version}" for p in res]
    info["names"] = len(res)
    return "solved", {by_norm.get(norm(p.name), p.name): str(p.version) for p in res}, info


def overrides_phase(ctx, n):
    """an override replaces every requirement on the package, however its name is spelled"""
    from pkm.api.dependencies.dependency import Dependency
    # covered through the resolver: see run()


def run(ctx):
    ctx.rule = "an index whose resolution succeeded and whose chosen set was checked constraint by constraint"
    ctx.required_events = ["solver:solved", "solver:unsat", "resolver:solved", "solved-with-extras"]
    ctx.min_evaluations = 500
    ctx.assumptions = ["indexes of final and pre-release versions (post-release and local versions are covered by the recorded findings of R02)",
                       "markers are evaluated for one real environment"]
    q = ctx.pick
    solver_phase(ctx, q(700, 8000), (12, 120), "small", solving.FINALS, (2, 4))
    solver_phase(ctx, q(500, 6000), (12, 150), "dense", solving.FINALS, (4, 7), density=(0, 1, 2, 2, 3, 4))
    solver_phase(ctx, q(300, 4000), (8, 100), "pre", solving.MIXED, (2, 5))
    solver_phase(ctx, q(200, 3000), (10, 150), "large", solving.DEEP, (6, 11), maxv=8)
    resolver_phase(ctx, q(500, 5000), (25, 200))
