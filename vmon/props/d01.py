"""D01: marker evaluation events of the real evaluator judged by a reference evaluator written from PEP 508."""
import operator
import os
import re

from packaging.markers import Marker as PMarker, default_environment
from packaging.version import InvalidVersion, Version as PV

from vmon import refver
from vmon.core import outcome, short_tb

VERSION_VARS = ["python_version", "python_full_version", "implementation_version"]
STRING_VARS = ["os_name", "sys_platform", "platform_system", "platform_machine", "platform_python_implementation",
               "implementation_name", "platform_release", "platform_version"]
VERSIONS = ["2.7", "3.0", "3.6", "3.7.0", "3.7.1", "3.8", "3.9", "3.9.10", "3.10", "3.10.0", "3.11.2", "3.12", "4.0"]
STRINGS = {
    "os_name": ["posix", "nt", "java", ""],
    "sys_platform": ["linux", "linux2", "win32", "darwin", "cygwin", "JVM"],
    "platform_system": ["Linux", "Windows", "Darwin", "Java", "JUNOS"],
    "platform_machine": ["x86_64", "AMD64", "aarch64", "arm64", "i386"],
    "platform_python_implementation": ["CPython", "PyPy", "Jython"],
    "implementation_name": ["cpython", "pypy", "jython"],
    "platform_release": ["5.15.0-1019-aws", "20.6.0", "10", "4.18.0", "3.10.0-1160.el7.x86_64", "6"],
    "platform_version": ["#1 SMP Debian", "10.0.19041", "Darwin Kernel Version 20.6.0: x; root:xnu~1/J", "2"],
}
EXTRAS = ["test", "dev", "Doc_s", "doc-s", "a.b", "all"]
OPS = ["==", "!=", "<", "<=", ">", ">=", "~=", "===", "in", "not in"]
PYOPS = {"==": operator.eq, "===": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}


class Undefined(Exception):
    pass


def pv(text):
    try:
        return PV(text)
    except InvalidVersion:
        return None


def norm(name):
    return re.sub(r"[-_.]+", "-", name).lower()


def ref_compare(left, op, right):
    """PEP 508: the version operators use version rules when both sides are valid, else Python's, else it is an error"""
    if op == "in":
        return left in right
    if op == "not in":
        return left not in right
    if op == "===":
        return left == right
    wild = op in ("==", "!=") and right.endswith(".*")
    lv, rv = pv(left), pv(right[:-2] if wild else right)
    if lv is None or rv is None or (op == "~=" and len(rv.release) < 2):
        if op == "~=":
            raise Undefined
        return PYOPS[op](left, right)
    return refver.Clause(op, right[:-2] if wild else right, wild=wild).admits(lv)


class Atom:
    def __init__(self, rng):
        self.extra = rng.random() < .18
        if self.extra:
            self.op = rng.choice(["==", "==", "==", "!="])
            self.left, self.right = ("var", "extra"), ("str", rng.choice(EXTRAS))
        else:
            var = rng.choice(VERSION_VARS * 3 + STRING_VARS)
            self.op = rng.choice(OPS)
            lit = rng.choice(VERSIONS) if var in VERSION_VARS or (var in ("platform_release", "platform_version") and rng.random() < .4) \
                else rng.choice(STRINGS.get(var, ["x"]))
            if var in VERSION_VARS:
                if self.op in ("==", "!=") and rng.random() < .3:
                    lit = rng.choice(["3.*", "2.*", "3.7.*", "3.1.*", "3.10.*"])
                elif self.op == "~=":
                    lit = rng.choice(["3.6", "3.7.0", "2.7", "3.9.1", "3.0"])
                elif "in" in self.op.split():
                    lit = rng.choice(["2.7, 3.0", "3.8,3.9 3.10", "3.7.0 3", "2.6 2.7 3.12"])
                elif rng.random() < .05:
                    lit = rng.choice(["unknown", "3.8-special build", ""])
            elif "in" in self.op.split():
                lit = rng.choice(["linux darwin", "posix, nt", "CPython PyPy Jython", "x86_64 AMD64", "win32"])
            elif rng.random() < .1:
                lit = "".join(rng.choice("aZJ09 .{}-_*#:;,/?[]!~`@$%^&=+|<>()") for _ in range(rng.randrange(0, 8)))
            self.left, self.right = ("var", var), ("str", lit)
            if rng.random() < .06:
                self.right = ("var", rng.choice(VERSION_VARS + STRING_VARS))
            elif rng.random() < .04:
                self.left = ("str", rng.choice(VERSIONS + ["linux"]))
        if rng.random() < .25:
            self.left, self.right = self.right, self.left

    def side(self, rng, s):
        if s[0] == "var":
            return s[1]
        q = rng.choice("'\"")
        return q + s[1] + q

    def text(self, rng):
        word = self.op in ("in", "not in")
        sp = " " if word else rng.choice(["", " ", " ", "  "])
        op = self.op if self.op != "not in" else rng.choice(["not in", "not  in"])
        l, r = self.side(rng, self.left), self.side(rng, self.right)
        sp2 = " " if word else rng.choice(["", " ", " "])
        return f"{l}{sp}{op}{sp2}{r}"

    def ref(self, env, extras):
        if self.extra:
            lit = self.right[1] if self.right[0] == "str" else self.left[1]
            return (norm(lit) in {norm(e) for e in extras}) == (self.op == "==")
        l = env[self.left[1]] if self.left[0] == "var" else self.left[1]
        r = env[self.right[1]] if self.right[0] == "var" else self.right[1]
        return ref_compare(l, self.op, r)


def gen_expr(rng, depth):
    """or of and of (atom | parenthesised expr): a tree ('or'|'and', [..])"""
    def term(d):
        if d > 0 and rng.random() < .3:
            return ("paren", gen_expr(rng, d - 1))
        return Atom(rng)
    ors = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        ors.append([term(depth) for _ in range(rng.choice([1, 1, 2, 2, 3]))])
    return ors


def render(rng, e):
    def t(x):
        if isinstance(x, Atom):
            return x.text(rng)
        sp = rng.choice(["", " "])
        return "(" + sp + render(rng, x[1]) + sp + ")"
    return " or ".join(rng.choice([" and ", "  and "]).join(t(x) for x in ands) for ands in e)


def atoms(e):
    for ands in e:
        for x in ands:
            if isinstance(x, Atom):
                yield x
            else:
                yield from atoms(x[1])


def value(e, env, extras):
    def t(x):
        return x.ref(env, extras) if isinstance(x, Atom) else value(x[1], env, extras)
    return any([all([t(x) for x in ands]) for ands in e])  # lists: every atom is evaluated, so Undefined is noticed


def run(ctx):
    from pathlib import Path
    from pkm.api.dependencies.env_markers import EnvironmentMarker
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.environments.environment import Environment

    class Env(Environment):
        def __init__(self, markers):
            super().__init__(Path("."))
            self._m = markers

        @property
        def markers(self):
            return self._m

    ctx.rule = "each distinct (marker text, environment, extras) evaluated by the code and by the reference evaluator"
    ctx.assumptions = ["`in`/`not in` with extra is left to the tool by PEP 508 and not generated",
                       "`extra != x` is generated with at most one requested extra (PEP 508 does not say more)",
                       "environment versions are final releases (pre-releases of bounds: see V03)"]
    ctx.required_events = ["true", "false", "undefined", "version comparison", "string comparison", "reversed operands",
                           "parenthesised", "extra", "reprinted", "real environment", "in dependency", "agrees with packaging"]
    ctx.min_evaluations = ctx.pick(2500, 20000)

    def gen_env(rng):
        env = {v: rng.choice(VERSIONS) for v in VERSION_VARS}
        env.update({v: rng.choice(STRINGS[v]) for v in STRING_VARS})
        return env

    def judge(expr, text, marker, envs, label):
        for env, extras in envs:
            try:
                want = value(expr, env, extras)
            except Undefined:
                want = None
            kind, got = outcome(marker.evaluate_on, Env(env), list(extras))
            if want is None:
                ctx.event("undefined")
                # an `and`/`or` may short-circuit around the undefined comparison: then the result must be a defined one
                if kind == "ok" and len(list(atoms(expr))) == 1:
                    ctx.violation("undefined", f"{text!r} has no defined value but gave {got}", text=text, env=env)
                ctx.evaluated((text, tuple(env.items()), tuple(extras)))
                continue
            ctx.event("true" if want else "false")
            ctx.evaluated((text, tuple(env.items()), tuple(extras)), sample={"marker": text, "value": want})
            if kind == "err":
                ctx.violation(f"eval-error", f"{label}: evaluating {text!r} failed: {short_tb(got)}", text=text, env=env, extras=extras)
                return False
            if bool(got) != want:
                ctx.violation("value", f"{label}: {text!r} gave {got}, PEP 508 says {want} (extras={extras}, env={ {k: env[k] for k in env if k in text} })",
                              text=text, env=env, extras=extras)
                return False
        return True

    # every operator x operand order x version pair
    rng = ctx.sub_rng("single")
    more = ctx.budget(25, 150)
    n = ctx.pick(3500, 60000)
    for i in range(n):
        if not more():
            break
        r = ctx.sub_rng("expr", i)
        expr = gen_expr(r, 2) if i % 3 else [[Atom(r)]]
        text = render(r, expr)
        ats = list(atoms(expr))
        envs = []
        for _ in range(3):
            extras = r.choice([[], [], [r.choice(EXTRAS)], r.sample(EXTRAS, 2), [r.choice(EXTRAS).upper()]])
            if any(a.extra and a.op == "!=" for a in ats):
                extras = extras[:1]
            envs.append((gen_env(r), extras))
        kind, marker = outcome(EnvironmentMarker.parse_pep508, text)
        if kind == "err":
            ctx.violation("parse", f"parsing {text!r} failed: {short_tb(marker)}", text=text)
            continue
        for a in ats:
            ctx.event("extra" if a.extra else "version comparison" if a.left[1] in VERSION_VARS or a.right[1] in VERSION_VARS else "string comparison")
            if a.right[0] == "var":
                ctx.event("reversed operands")
            ctx.distinct("operators", (a.op, a.left[0], a.right[0]))
        if "(" in text:
            ctx.event("parenthesised")
        if not judge(expr, text, marker, envs, "marker"):
            continue
        kind, again = outcome(lambda: EnvironmentMarker.parse_pep508(str(marker)))
        ctx.event("reprinted")
        if kind == "err":
            ctx.violation("reprint", f"{text!r} printed as {str(marker)!r} which does not parse: {short_tb(again)}", text=text)
        else:
            judge(expr, str(marker), again, envs[:1], "reprinted marker")
        if i % 4 == 0:
            kind, dep = outcome(Dependency.parse, f"pkg>=1 ; {text}")
            ctx.event("in dependency")
            if kind == "err":
                ctx.violation("dep-parse", f"'pkg>=1 ; {text}' failed: {short_tb(dep)}", text=text)
            else:
                for env, extras in envs[:2]:
                    try:
                        want = value(expr, env, extras)
                    except Undefined:
                        continue
                    k2, got = outcome(dep.is_applicable_for, Env(env), list(extras))
                    ctx.check(k2 == "ok" and bool(got) == want, "dep-applicable",
                              f"dependency with marker {text!r}: applicable={got if k2 == 'ok' else short_tb(got)}, expected {want}", text=text, env=env, extras=extras)
        # sanity of the oracle: packaging agrees wherever it applies version rules
        if i % 10 == 0 and all(not a.extra and (a.left[1] in VERSION_VARS) != (a.right[1] in VERSION_VARS) and {a.left[0], a.right[0]} == {"var", "str"}
                               and a.op in ("==", "!=", ">=", "<=", "in", "not in") for a in ats):
            k3, pm = outcome(PMarker, text)
            if k3 == "ok":
                env = envs[0][0]
                k4, pgot = outcome(pm.evaluate, {**env, "extra": ""})
                if k4 == "ok" and all(pv(a.left[1] if a.left[0] == "str" else env[a.left[1]]) and
                                      pv((a.right[1] if a.right[0] == "str" else env[a.right[1]]).replace(".*", "")) for a in ats if "in" not in a.op.split()):
                    assert pgot == value(expr, env, []), f"oracle disagrees with packaging on {text!r}"
                    ctx.event("agrees with packaging")

    # the environment's own marker values
    from vmon.world import make_env
    kind, env = outcome(make_env, ctx)
    if kind == "ok":
        k, got = outcome(lambda: dict(env.markers))
        if k == "err":
            ctx.violation("real-env", f"markers of the running environment: {short_tb(got)}")
        else:
            ctx.event("real environment")
            want = default_environment()
            for key, val in want.items():
                if key == "platform_version" or key == "platform_release":
                    continue
                ctx.evaluated(("real", key))
                ctx.check(got.get(key) == val, "real-env", f"marker {key} of the running environment is {got.get(key)!r}, expected {val!r}")
    else:
        ctx.violation("real-env", f"a new environment cannot be loaded: {short_tb(env)}")
