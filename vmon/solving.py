"""Package-index generator, real-solver adapters and independent oracles shared by the resolution checks."""
import contextlib
import io
import signal

from packaging.version import Version as PV

from vmon.refver import Clause

FINALS = ["1.0", "2.0", "3.0", "4.0"]
MIXED = ["1.0", "1.1", "2.0a1", "2.0.dev3", "2.0rc1", "2.0", "2.1"]
DEEP = ["0.9", "1.0", "1.0.1", "1.2", "1.10", "2.0", "2.0.5", "3.0", "10.0"]


class CpuTimeout(BaseException):
    pass


def _alarm(*_):
    raise CpuTimeout()


@contextlib.contextmanager
def cpu_limit(seconds):
    """process CPU time watchdog: independent of how loaded the machine is"""
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


class Spec:
    """conjunction of clauses: its text is what pkm reads, admits() is the reference"""

    def __init__(self, clauses):
        self.clauses = clauses
        self.text = ", ".join(c.text() for c in clauses) or "*"

    def admits(self, v):
        return all(c.admits(v if isinstance(v, PV) else PV(v)) for c in self.clauses)

    def __repr__(self):
        return self.text


ANY = Spec([])


def gen_spec(rng, versions, wide=.2):
    if rng.random() < wide:
        return ANY
    pool = list(versions) + (["5.0", "0.5"] if rng.random() < .08 else [])
    k = rng.random()
    if k < .3:
        return Spec([Clause("==", rng.choice(pool))])
    if k < .75:
        return Spec([Clause(rng.choice([">=", "<=", "<", ">", "!=", "!="]), rng.choice(pool))])
    if k < .82:
        return Spec([Clause("~=", rng.choice(pool))])
    if k < .88:
        return Spec([Clause(rng.choice(["==", "!="]), rng.choice(["1", "2", "1.0"]), wild=True)])
    lo, hi = sorted([rng.choice(pool), rng.choice(pool)], key=PV)
    return Spec([Clause(">=", lo), Clause("<=", hi)] + ([Clause("!=", rng.choice(pool))] if rng.random() < .4 else []))


def gen_index(rng, npk, pool, maxv=4, density=(0, 0, 1, 1, 2, 2, 3), dup=.15, selfdep=.02):
    """{(package, version text): [(package, Spec)]}, with ('root', '1.0') as the root"""
    names = [f"p{i}" for i in range(npk)]
    vers = {p: rng.sample(pool, rng.randint(1, min(maxv, len(pool)))) for p in names}

    def deps(me, root=False):
        others = [q for q in names if q != me or rng.random() < selfdep]
        n = rng.choice([1, 1, 2, 2, 3] if root else density)
        out = []
        for q in rng.sample(others, min(n, len(others))):
            out.append((q, gen_spec(rng, vers[q])))
            if rng.random() < dup:
                out.append((q, gen_spec(rng, vers[q], .1)))
        return out

    g = {("root", "1.0"): deps(None, True) or [(names[0], ANY)]}
    for p in names:
        for v in vers[p]:
            g[(p, v)] = deps(p)
    return g


def closure_error(g, sol):
    """independent validity check of {package: version}; None if valid"""
    for p, v in sol.items():
        if (p, v) not in g:
            return f"{p} {v} is not offered"
        for q, s in g[(p, v)]:
            if q not in sol:
                return f"{p} {v} needs {q}, which is not chosen"
            if not s.admits(sol[q]):
                return f"{p} {v} needs {q} {s}, but {sol[q]} is chosen"
    reach, todo = {"root"}, ["root"]
    while todo:
        p = todo.pop()
        for q, _ in g[(p, sol[p])]:
            if q not in reach:
                reach.add(q)
                todo.append(q)
    extra = set(sol) - reach
    return f"nothing needs {sorted(extra)}" if extra else None


def brute(g, limit=200_000):
    """complete search; a solution, None if there is none, or 'unknown' past the limit"""
    vs = {}
    for q, v in g:
        vs.setdefault(q, []).append(v)
    steps = [0]

    class Enough(Exception):
        pass

    def rec(ass, pending):
        steps[0] += 1
        if steps[0] > limit:
            raise Enough()
        while pending:
            (q, s), pending = pending[0], pending[1:]
            if q in ass:
                if not s.admits(ass[q]):
                    return None
                continue
            for v in vs.get(q, ()):
                if s.admits(v):
                    nd = g[(q, v)]
                    # cheap forward check
                    if any(d in ass and not ds.admits(ass[d]) for d, ds in nd):
                        continue
                    r = rec({**ass, q: v}, list(nd) + list(pending))
                    if r is not None:
                        return r
            return None
        return ass

    try:
        return rec({"root": "1.0"}, list(g[("root", "1.0")]))
    except Enough:
        return "unknown"


def show(g):
    return {f"{p} {v}": [f"{q} {s}" for q, s in d] for (p, v), d in g.items()}


def problem_class():
    from pkm.api.versions.version import Version
    from pkm.resolution.pubgrub import Problem, Term

    class IndexProblem(Problem):
        def __init__(self, g, order=None):
            self.g, self.calls, self.order = g, 0, order or {}

        def get_dependencies(self, package, version):
            self.calls += 1
            return [Term.create(q, s.text) for q, s in self.g[(package, str(version))]]

        def get_versions(self, package):
            self.calls += 1
            if package in self.order:
                return [Version.parse(v) for v in self.order[package]]
            return sorted((Version.parse(v) for q, v in self.g if q == package), reverse=True)

        def has_version(self, package, version):
            self.calls += 1
            return (package, str(version)) in self.g

    return IndexProblem


def run_solver(g, cpu=20, order=None):
    """('solved', {p: v}) | ('unsat', exc) | ('timeout', None) | ('crash', exc)"""
    from pkm.resolution.pubgrub import Solver, UnsolvableProblemException
    problem = problem_class()(g, order)
    try:
        with cpu_limit(cpu), quiet():
            try:
                return "solved", {p: str(v) for p, v in Solver(problem).solve().items()}
            except UnsolvableProblemException as e:
                return "unsat", e
    except CpuTimeout:
        return "timeout", None
    except Exception as e:  # noqa
        return "crash", e


# ------------------------------------------------------------------------------- the resolver over a repository
NAME_FORMS = [lambda n: n, str.upper, str.title, lambda n: n.replace("-", "_"), lambda n: n.replace("-", "."), lambda n: n.replace("-", "--")]


class World:
    """packages with name spellings, extras, markers, incompatible and pre-release versions behind a real repository interface"""

    def __init__(self, rng, env):
        self.env = env
        py = PV(str(env.interpreter_version))
        self.false_marker = f"python_version < '{py.major}.{py.minor}'"
        self.true_marker = f"python_version >= '{py.major}.{py.minor}'"
        self.names = rng.sample(["alpha", "beta-lib", "ga.mma", "del-ta-x", "eps", "ze-ta"], rng.randint(2, 5))
        self.extras = {n: rng.sample(["fast", "test", "doc"], rng.choice([0, 1, 2])) for n in self.names}
        self.offered = {}
        self.compatible = {}
        self.deps = {}  # (name, version) -> [(target, extras, Spec, marker-extra or None, applicable)]
        for n in self.names:
            vs = rng.sample(MIXED + ["3.0"], rng.randint(1, 4))
            for v in vs:
                self.compatible[(n, v)] = rng.random() > .12
            comp = [v for v in vs if self.compatible[(n, v)]]
            finals = [v for v in comp if not PV(v).is_prerelease]
            self.offered[n] = sorted(finals or comp, key=PV, reverse=True)
            self.deps.update({(n, v): None for v in vs})
        for (n, v) in list(self.deps):
            self.deps[(n, v)] = self.gen_deps(rng, n, rng.choice([0, 0, 1, 1, 2, 3]))
        self.root = [d for d in self.gen_deps(rng, None, rng.choice([1, 2, 2, 3])) if d[3] is None] or [(self.names[0], (), ANY, None, True)]

    def gen_deps(self, rng, me, n):
        out = []
        for _ in range(n):
            t = rng.choice([x for x in self.names if x != me])
            ex = tuple(rng.sample(self.extras[t], rng.randint(0, len(self.extras[t])))) if self.extras[t] else ()
            vs = [v for (q, v) in self.deps if q == t and not PV(v).is_prerelease] or ["1.0"]
            mx = rng.choice(self.extras[me]) if me and self.extras[me] and rng.random() < .5 else None
            out.append((t, ex, gen_spec(rng, vs, .45), mx, rng.random() > .15))
        return out

    def text(self, rng, dep):
        t, ex, s, mx, app = dep
        out = rng.choice(NAME_FORMS)(t)
        if ex:
            out += f"[{','.join(ex)}]"
        if s.text != "*":
            out += " " + s.text
        markers = []
        if mx:
            markers.append(f"extra == '{mx}'")
        if not app:
            markers.append(self.false_marker)
        elif rng.random() < .2:
            markers.append(self.true_marker)
        return out + (" ; " + " and ".join(markers) if markers else "")

    def expand(self, n, v, extras):
        """applicable dependencies [(target, extras, Spec)] of n==v with extras"""
        return [(t, ex, s) for t, ex, s, mx, app in self.deps[(n, v)] if app and (mx is None or mx in extras)]

    def root_deps(self):
        return [(t, ex, s) for t, ex, s, mx, app in self.root if app]

    def error(self, sol):
        """validity of {name: version}, by a fixpoint over (package, requested extras)"""
        for n, v in sol.items():
            if v not in self.offered.get(n, ()):
                return f"{n} {v} is not offered for this environment (offered: {self.offered.get(n)})"
        asked = {}
        todo = [("root requirement", d) for d in self.root_deps()]
        seen = set()
        while todo:
            who, (t, ex, s) = todo.pop()
            if t not in sol:
                return f"{who} needs {t}, which is not chosen"
            if not s.admits(sol[t]):
                return f"{who} needs {t} {s}, but {sol[t]} is chosen"
            key = (t, tuple(sorted(ex)))
            if key in seen:
                continue
            seen.add(key)
            asked.setdefault(t, set()).update(ex)
            todo += [(f"{t} {sol[t]}[{','.join(ex)}]", d) for d in self.expand(t, sol[t], ex)]
        extra = set(sol) - set(asked)
        return f"nothing needs {sorted(extra)}" if extra else None

    def brute(self, limit=100_000):
        steps = [0]

        class Enough(Exception):
            pass

        def rec(ass, done, pending):
            steps[0] += 1
            if steps[0] > limit:
                raise Enough()
            while pending:
                (t, ex, s), pending = pending[0], pending[1:]
                if t in ass:
                    if not s.admits(ass[t]):
                        return None
                    key = (t, tuple(sorted(ex)))
                    if key not in done:
                        done = done | {key}
                        pending = self.expand(t, ass[t], ex) + pending
                    continue
                for v in self.offered[t]:
                    if s.admits(v):
                        r = rec({**ass, t: v}, done | {(t, tuple(sorted(ex)))}, self.expand(t, v, ex) + pending)
                        if r is not None:
                            return r
                return None
            return ass

        try:
            return rec({}, frozenset(), self.root_deps())
        except Enough:
            return "unknown"

    def show(self):
        return {"root": [f"{t}{list(ex)} {s}" for t, ex, s in self.root_deps()], "offered": self.offered,
                "deps": {f"{n} {v}": [f"{t}{list(ex)} {s}{' if extra ' + mx if mx else ''}" for t, ex, s, mx, app in d if app]
                         for (n, v), d in self.deps.items() if v in self.offered[n]}}

    # ---- the real interface
    def repository(self, rng, sorter=None):
        from pkm.api.dependencies.dependency import Dependency
        from pkm.api.packages.package import Package, PackageDescriptor
        from pkm.api.repositories.repository import AbstractRepository
        from pkm.api.versions.version import Version
        world = self
        texts = {k: [world.text(rng, d) for d in ds] for k, ds in self.deps.items()}
        spelled = {n: rng.choice(NAME_FORMS)(n) for n in self.names}

        class FakePackage(Package):
            def __init__(self, name, version):
                self.key = (name, version)
                self._d = PackageDescriptor(spelled[name], Version.parse(version))

            @property
            def descriptor(self):
                return self._d

            def dependencies(self, target, extras=None):
                all_ = [Dependency.parse(t) for t in texts[self.key]]
                return [d for d in all_ if d.is_applicable_for(target.env, extras)]

            def is_compatible_with(self, env):
                return world.compatible[self.key]

            def install_to(self, *a, **k):
                raise AssertionError("must not install")

        packages = {}
        for (n, v) in self.deps:
            packages.setdefault(norm(n), []).append(FakePackage(n, v))

        class FakeRepo(AbstractRepository):
            def __init__(self):
                super().__init__("fake")
                self.lookups = 0

            def _do_match(self, dependency, env):
                self.lookups += 1
                found = [p for p in packages.get(norm(dependency.package_name), ()) if dependency.version_spec.allows_version(p.version)]
                return self._sorted_by_version(found)

        return FakeRepo(), packages


def norm(name):
    import re
    return re.sub(r"[-_.]+", "-", name).lower()
