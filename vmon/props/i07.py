"""I07: verdicts and choices of real Environment objects (over the real and over staged interpreters) judged by packaging.tags."""
import os
import pathlib
import sys

from vmon.core import short_tb
from vmon.staging import LEGACY, stage_interpreter
from vmon.world import make_env

class Staged:
    """one interpreter: configuration for the wrapper and the tags packaging derives for the same facts"""

    def __init__(self, name, cfg, impl, version, abis, platforms, arch=None, musl=None, foreign_arch=(), system="Linux"):
        self.name, self.cfg, self.impl, self.version, self.abis, self.platforms = name, cfg, impl, version, abis, platforms
        self.arch, self.musl, self.foreign_arch, self.system = arch, musl, foreign_arch, system


def linux(r, py, arch, glibc=None, musl=None, bits32_on_64=False, debug=False):
    from packaging import tags
    kernel = arch
    if bits32_on_64:
        kernel = {"i686": "x86_64", "armv7l": "aarch64"}[arch]
    plats = []
    if glibc:
        low = 5 if arch in ("x86_64", "i686") else 17
        for m in range(glibc[1], low - 1, -1):
            plats.append(f"manylinux_2_{m}_{arch}")
            if (2, m) in LEGACY and (arch in ("x86_64", "i686") or m == 17):
                plats.append(f"{LEGACY[(2, m)]}_{arch}")
    if musl:
        plats += [f"musllinux_{musl[0]}_{m}_{arch}" for m in range(musl[1], -1, -1)]
    plats.append(f"linux_{arch}")
    nodot = "".join(map(str, py[:2]))
    m = "m" if py < (3, 8) else ""
    abis = [f"cp{nodot}{'d' if debug else ''}{m}"] + ([f"cp{nodot}"] if debug and not m else []) + ["abi3", "none"]
    cfg = dict(implementation="cpython", version_info=[*py, r.randint(0, 15), "final", 0], maxsize=2 ** 31 - 1 if arch in ("i686", "armv7l") else 2 ** 63 - 1,
               sys_platform="linux", system="Linux", machine=kernel, platform=f"linux-{kernel}", python_implementation="CPython",
               confstr={"CS_GNU_LIBC_VERSION": f"glibc {glibc[0]}.{glibc[1]}"} if glibc else r.choice([{}, {"CS_GNU_LIBC_VERSION": ""}]),
               vars={"Py_DEBUG": 1 if debug else 0, "WITH_PYMALLOC": 1, "SOABI": f"cpython-{nodot}{m}-{arch}-linux-gnu"})
    return Staged(f"cp{nodot}{'d' if debug else ''}-{arch}-{'glibc%d.%d' % glibc if glibc else 'musl%d.%d' % musl}{'-on-' + kernel if bits32_on_64 else ''}",
                  cfg, "cp", py, abis, plats, arch, musl, [a for a in ("x86_64", "aarch64", "i686", "s390x") if a != arch])


def mac(r, py, version, arch):
    from packaging import tags
    plats = list(tags.mac_platforms(version, arch))
    nodot = "".join(map(str, py[:2]))
    cfg = dict(implementation="cpython", version_info=[*py, r.randint(0, 15), "final", 0], maxsize=2 ** 63 - 1, sys_platform="darwin", system="Darwin",
               machine=arch, mac_ver=[".".join(map(str, version)), ["", "", ""], arch], python_implementation="CPython",
               platform=f"macosx-{r.choice(['10.9', '11.0']) if version >= (11, 0) else '10.9'}-{r.choice([arch, 'universal2'])}" if arch == "x86_64" else f"macosx-11.0-{r.choice([arch, 'universal2'])}",
               confstr={}, vars={"Py_DEBUG": 0, "WITH_PYMALLOC": 1, "SOABI": f"cpython-{nodot}-darwin"})
    return Staged(f"cp{nodot}-macos{version[0]}.{version[1]}-{arch}", cfg, "cp", py, [f"cp{nodot}{'m' if py < (3, 8) else ''}", "abi3", "none"], plats, arch, None,
                  ["x86_64"] if arch == "arm64" else ["arm64"], "Darwin")


def windows(r, py, plat):
    nodot = "".join(map(str, py[:2]))
    cfg = dict(implementation="cpython", version_info=[*py, r.randint(0, 15), "final", 0], maxsize=2 ** 31 - 1 if plat == "win32" else 2 ** 63 - 1,
               sys_platform="win32", system="Windows", machine="AMD64", platform=plat, python_implementation="CPython", confstr={},
               vars={"WITH_PYMALLOC": None, "EXT_SUFFIX": f".cp{nodot}-{plat}.pyd"}, suffixes=[f".cp{nodot}-win_amd64.pyd", ".pyd"])
    p = plat.replace("-", "_")
    return Staged(f"cp{nodot}-{p}", cfg, "cp", py, [f"cp{nodot}{'m' if py < (3, 8) else ''}", "abi3", "none"], [p], None, None,
                  [], "Windows")


def pypy(r, py, arch, glibc):
    s = linux(r, py, arch, glibc)
    nodot = "".join(map(str, py[:2]))
    abi = f"pypy{nodot}-pp73"
    s.cfg.update(implementation="pypy", python_implementation="PyPy", vars={"SOABI": abi})
    s.impl, s.abis, s.name = "pp", [abi.replace("-", "_"), "none"], f"pp{nodot}-{arch}"
    return s


def stages(r, thorough):
    def py():
        return r.choice([(3, 7), (3, 8), (3, 9), (3, 10), (3, 11), (3, 12)])

    def glibc_x86():
        v = py()
        return linux(r, v, "x86_64", glibc=(2, r.choice([17, 27, 31, 36, 39, 5, 12])), debug=v >= (3, 8) and r.random() < .3)

    def glibc_other():
        v = py()
        return linux(r, v, r.choice(["aarch64", "s390x", "ppc64le"]), glibc=(2, r.choice([17, 28, 35])), debug=v >= (3, 8) and r.random() < .2)

    def musl():
        return linux(r, py(), r.choice(["x86_64", "aarch64"]), musl=(1, r.randint(1, 5)))

    def musl32():
        return linux(r, py(), "i686", musl=(1, r.randint(1, 4)), bits32_on_64=r.random() < .5)

    def bits32():
        return linux(r, py(), r.choice(["i686", "armv7l"]), glibc=(2, r.choice([17, 31])), bits32_on_64=r.random() < .7)

    def mac_intel():
        return mac(r, py(), r.choice([(10, 9), (10, 15), (11, 0), (12, 3), (14, 1)]), "x86_64")

    def mac_arm():
        return mac(r, py(), r.choice([(11, 0), (12, 3), (13, 5), (14, 1)]), "arm64")

    def win():
        return windows(r, py(), r.choice(["win-amd64", "win32", "win-arm64"]))

    def pp():
        return pypy(r, r.choice([(3, 9), (3, 10)]), "x86_64", (2, r.choice([17, 31, 36])))

    kinds = [glibc_x86, bits32, musl, mac_arm, glibc_other, win, musl32, mac_intel, pp]
    out = [k() for k in kinds]
    return out + [r.choice([glibc_x86, *kinds])() for _ in range(180 if thorough else 24)]


def supported(s):
    """-> list of 'interpreter-abi-platform' in packaging's order"""
    from packaging import tags
    if s.impl == "cp":
        out = [str(t) for t in tags.cpython_tags(s.version, [a for a in s.abis if a not in ("abi3", "none")], s.platforms)]
    else:
        out = [f"{s.impl}{''.join(map(str, s.version))}-{a}-{p}" for a in s.abis for p in s.platforms]
    interp = f"{s.impl}{''.join(map(str, s.version))}"
    out += [str(t) for t in tags.compatible_tags(s.version, interp, s.platforms)]
    return [t for t in dict.fromkeys(out) if "_fat3" not in t]        # (the three-way binaries have two names)


def unsupported(s, r, good):
    """tags that no reading of the rules accepts -> [(why, tag)]"""
    major, minor = s.version
    mine = f"{s.impl}{major}{minor}"
    newer = f"{s.impl}{major}{minor + r.randint(1, 3)}"
    older = f"{s.impl}{major}{minor - 1}"
    other = "pp" if s.impl == "cp" else "cp"
    plat = r.choice(s.platforms)
    out = [
        ("newer interpreter", f"{newer}-{newer}-{plat}"), ("newer interpreter", f"{newer}-none-any"), ("newer interpreter", f"{newer}-abi3-{plat}"),
        ("newer python", f"py{major}{minor + 1}-none-any"), ("newer python", f"py{major}{minor + 2}-none-{plat}"),
        ("python 2", "py2-none-any"), ("python 2", "py27-none-any"), ("python 2", f"cp27-cp27mu-{plat}"), ("python 4", "py4-none-any"),
        ("other implementation", f"{other}{major}{minor}-none-any"), ("other implementation", f"jy{major}{minor}-none-any"),
        ("other abi", f"{older}-{older}-{plat}"), ("other abi", f"{mine}-{older}-{plat}"), ("other abi", f"{mine}-cp{major}{minor + 1}-{plat}"),
        ("other abi", f"{mine}-cp{major}{minor}dmu-{plat}"), ("other abi", f"{mine}-pypy310_pp73-{plat}" if s.impl == "cp" else f"{mine}-cp310-{plat}"),
        ("other platform", f"{mine}-{s.abis[0]}-freebsd_13_x86_64"),
    ]
    if s.impl == "pp":
        out.append(("abi3 on pypy", f"cp38-abi3-{plat}"))
    own = f"{mine}-{s.abis[0]}-"
    if s.system != "Windows":
        out += [("other platform", own + p) for p in ("win_amd64", "win32")] + [("other platform", "py3-none-win_amd64")]
    else:
        out += [("other platform", own + p) for p in ("win_amd64", "win32", "win_arm64") if p != s.platforms[0]]
    if s.system != "Linux":
        out += [("other platform", own + p) for p in ("linux_x86_64", "manylinux_2_17_x86_64", "manylinux2014_aarch64", "musllinux_1_1_x86_64")]
    if s.system != "Darwin":
        out += [("other platform", own + p) for p in ("macosx_10_9_x86_64", "macosx_11_0_arm64", "macosx_10_9_universal2")]
    if s.system == "Linux":
        for a in s.foreign_arch:
            out += [("other architecture", own + f"manylinux_2_17_{a}"), ("other architecture", own + f"manylinux2014_{a}"), ("other architecture", own + f"linux_{a}"),
                    ("other architecture", own + f"musllinux_1_1_{a}")]
        if s.musl:
            out += [("glibc on musl", own + f"manylinux_2_17_{s.arch}"), ("glibc on musl", own + f"manylinux2014_{s.arch}"),
                    ("newer musl", own + f"musllinux_{s.musl[0]}_{s.musl[1] + 1}_{s.arch}"), ("newer musl", own + f"musllinux_{s.musl[0] + 1}_0_{s.arch}")]
        else:
            top = max(int(p.split("_")[2]) for p in s.platforms if p.startswith("manylinux_"))
            out += [("musl on glibc", own + f"musllinux_1_1_{s.arch}"), ("newer glibc", own + f"manylinux_2_{top + 1}_{s.arch}"),
                    ("newer glibc", own + f"manylinux_2_{top + 30}_{s.arch}"), ("newer glibc", own + f"manylinux_3_0_{s.arch}")]
            if top < 17:
                out.append(("newer glibc", own + f"manylinux2014_{s.arch}"))
            if top < 12:
                out.append(("newer glibc", own + f"manylinux2010_{s.arch}"))
    if s.system == "Darwin":
        v = max(tuple(map(int, p.split("_")[1:3])) for p in s.platforms)
        for a in s.foreign_arch:
            out += [("other architecture", own + f"macosx_11_0_{a}"), ("other architecture", own + f"macosx_10_15_{a}")]
        out += [("newer macos", own + f"macosx_{v[0] + 1}_0_{s.arch}"), ("newer macos", own + f"macosx_{v[0] + 2}_0_universal2")]
        if v[0] == 10:
            out.append(("newer macos", own + f"macosx_10_{v[1] + 1}_{s.arch}"))
    good = set(good)
    return [(w, t) for w, t in dict.fromkeys(out) if t not in good]


def rank(s, tag):
    """components that every ordering respects: bigger is preferred"""
    ipt, abi, plat = tag.split("-")
    v = ipt.lstrip("cpy")
    version = s.version[1] if len(v) == 1 else int(v[1:])
    own = 1 if ipt.startswith(s.impl) and not ipt.startswith("py") else 0
    abi_rank = len(s.abis) - s.abis.index(abi)
    if plat == "any":
        p = (0, 0)
    elif plat.startswith("linux_") or s.system == "Windows":
        p = (1, 0)
    elif plat.startswith(("manylinux_", "musllinux_")):
        p = (1, int(plat.split("_")[2]) + 1)
    elif plat.startswith("manylinux"):
        p = (1, next(k[1] for k, n in LEGACY.items() if plat.startswith(n + "_")) + 1)
    else:
        p = (1, None)             # macos: formats and versions are not ordered the same way everywhere
    return abi_rank, p, own, version


def dominates(s, a, b):
    """a is to be preferred by any reading"""
    x, y = rank(s, a), rank(s, b)
    if (x[1][1] is None or y[1][1] is None) and x[1][0] == y[1][0]:
        if a.split("-")[2] != b.split("-")[2]:
            return False
        x, y = (x[0], (1, 0), *x[2:]), (y[0], (1, 0), *y[2:])
    elif x[1][1] is None or y[1][1] is None:
        x, y = (x[0], (x[1][0], 0), *x[2:]), (y[0], (y[1][0], 0), *y[2:])
    return all(p >= q for p, q in zip(x, y)) and x != y


def verdicts(ctx, s, env, r, good, bad):
    def score(tag):
        ctx.event("tag verdicts")
        try:
            return env.compatibility_tag_score(tag)
        except Exception as e:
            return ctx.violation("tag-crash", f"{s.name}: {tag}: {short_tb(e)}", tag=tag, interpreter=s.name)

    goods = good if len(good) < 400 else r.sample(good, 400)
    for t in goods:
        ctx.evaluated((s.name, t))
        if score(t) is None:
            ctx.violation("compatible-refused", f"{s.name}: {t} is refused", tag=t, interpreter=s.name, staged=s.cfg)
            break
    for why, t in bad:
        ctx.evaluated((s.name, t))
        got = score(t)
        ctx.event(f"refusable: {why}")
        if got is not None:
            ctx.violation(f"incompatible-accepted:{why.replace(' ', '-')}", f"{s.name}: {t} is accepted ({why})", tag=t, interpreter=s.name, staged=s.cfg)
    # compressed sets: what they stand for decides
    pool_i = sorted({t.split("-")[0] for t in goods})
    for _ in range(40):
        base = r.choice(goods).split("-")
        odd = r.choice(bad)[1].split("-")
        sets = [list(dict.fromkeys(r.sample([base[k], odd[k]], 2))) if r.random() < .6 else [base[k]] for k in range(3)]
        tag = "-".join(".".join(x) for x in sets)
        one_of = [f"{a}-{b}-{c}" for a in sets[0] for b in sets[1] for c in sets[2]]
        if any(x in set(good) for x in one_of):
            ctx.evaluated((s.name, tag))
            ctx.event("compressed sets")
            if score(tag) is None:
                ctx.violation("compressed-refused", f"{s.name}: {tag} is refused, it contains a compatible tag", tag=tag, interpreter=s.name)
    for _ in range(15):
        # only the platform varies: none of the set fits
        a, b = r.choice(bad), r.choice(bad)
        x, y = a[1].split("-"), b[1].split("-")
        if x[:2] == y[:2]:
            tag = f"{x[0]}-{x[1]}-{x[2]}.{y[2]}"
            if x[2] != y[2]:
                ctx.event("compressed sets")
                if score(tag) is not None:
                    ctx.violation("compressed-accepted", f"{s.name}: {tag} is accepted, nothing in it is compatible", tag=tag, interpreter=s.name)
    # ranking
    for _ in range(300):
        a, b = r.choice(goods), r.choice(goods)
        if a == b:
            continue
        if dominates(s, b, a):
            a, b = b, a
        if dominates(s, a, b):
            x, y = score(a), score(b)
            ctx.event("rankings")
            if x is not None and y is not None and not (y < x):
                ctx.violation("ranking", f"{s.name}: {a} is not preferred over {b}", better=a, worse=b, interpreter=s.name)
                break


def choices(ctx, s, env, r, good, bad, version):
    from packaging.specifiers import SpecifierSet
    from pkm.api.packages.package import PackageDescriptor
    from pkm.api.packages.standard_package import AbstractPackage, PackageArtifact
    from pkm.api.versions.version import Version
    from pkm.api.versions.version_specifiers import VersionSpecifier

    class Pkg(AbstractPackage):
        def _retrieve_artifact(self, artifact):
            raise AssertionError("not to be retrieved")

    v = ".".join(map(str, version))
    good_set = set(good)
    for _ in range(ctx.pick(60, 200)):
        arts, info = [], {}
        for k in range(r.randint(1, 6)):
            x = r.random()
            req = None
            if r.random() < .4:
                m = r.randint(s.version[1] - 2, s.version[1] + 2)
                req = r.choice([f">=3.{m}", f"<3.{m}", f">=2.7,!=3.{m}.*", f">=3.{m}.0,<4", f"==3.{m}.*", f"~=3.{m}", ">=2.7", "!=3.0.*,!=3.1.*", f">3.{m}"])
            if x < .25:
                name = f"pk-1.0{r.choice(['.tar.gz', '.zip'])}" if not any(not i[0] for i in info.values()) else f"pk-1.0.post{k}.tar.gz"
                tags = None
            else:
                pick = (lambda: r.choice(good)) if r.random() < .6 else (lambda: r.choice(bad)[1])
                parts = pick().split("-")
                if r.random() < .2:
                    other = pick().split("-")
                    parts = [a if a == b or r.random() < .5 else f"{a}.{b}" for a, b in zip(parts, other)]
                tag = "-".join(parts)
                name = f"pk-1.0-{r.choice(['', '', '1-', '2abc-'])}{tag}.whl"
                tags = [f"{a}-{b}-{c}" for a in parts[0].split(".") for b in parts[1].split(".") for c in parts[2].split(".")]
                bad_set = {t for _, t in bad}
                if not all(t in good_set or t in bad_set for t in tags):
                    continue
            if name in info:
                continue
            ok = req is None or SpecifierSet(req).contains(v)
            info[name] = (tags, ok, req)
            arts.append(PackageArtifact(name, VersionSpecifier.parse(req) if req else None))
        pkg = Pkg(PackageDescriptor("pk", Version.parse("1.0")), arts)
        replay = dict(interpreter=s.name, version=v, artifacts=[(n, i[2]) for n, i in info.items()])
        try:
            got = pkg.best_artifact_for(env)
            compatible = pkg.is_compatible_with(env)
        except Exception as e:
            ctx.violation("choice-crash", short_tb(e), **replay)
            continue
        ctx.event("artifact choices")
        ctx.evaluated((s.name, v, *info, *[i[2] for i in info.values()]), f"{s.name}: {list(info)} -> {got.file_name if got else None}"[:300])
        wheels = {n: [t for t in i[0] if t in good_set] for n, i in info.items() if i[0] is not None and i[1] and any(t in good_set for t in i[0])}
        sdists = [n for n, i in info.items() if i[0] is None and i[1]]
        ctx.check(compatible == (got is not None), "choice-inconsistent", f"is_compatible_with says {compatible}, chosen is {got}", **replay)
        if not wheels and not sdists:
            ctx.check(got is None, "choice-incompatible", f"chosen is {got and got.file_name}, nothing is compatible", **replay)
        elif got is None:
            ctx.violation("choice-none", f"nothing is chosen, compatible are {[*wheels, *sdists]}", **replay)
        elif wheels and got.file_name in sdists:
            ctx.violation("choice-source-over-wheel", f"chosen is {got.file_name}, compatible wheels are {list(wheels)}", **replay)
        elif got.file_name not in wheels and got.file_name not in sdists:
            ctx.violation("choice-incompatible", f"chosen is {got.file_name}, compatible are {[*wheels, *sdists]}", **replay)
        elif wheels:
            mine = wheels[got.file_name]
            for n, ts in wheels.items():
                if n != got.file_name and any(all(dominates(s, a, b) for b in mine) for a in ts):
                    ctx.violation("choice-not-best", f"chosen is {got.file_name}, {n} is more specific", **replay)
                    break


def run(ctx):
    from packaging import tags
    from pkm.api.environments.environment import Environment
    ctx.rule = ("a tag is accepted by the real environment iff packaging.tags lists it for the same interpreter facts (tags that the rules leave open are "
                "not tried); the artifact chosen is a compatible one, a wheel if any wheel is compatible, and no compatible wheel is better in every respect")
    ctx.required_events = ["tag verdicts", "rankings", "compressed sets", "artifact choices", "environments staged"]
    ctx.min_evaluations = 2000
    r = ctx.sub_rng("stages")
    work = ctx.scratch / "work"
    # the real interpreter
    env = make_env(ctx)
    good = [str(t) for t in tags.sys_tags()]
    glibc = max((tuple(map(int, t.rsplit("-", 1)[1].split("_")[1:3])) for t in good if "-manylinux_" in t), default=None)
    arch = os.uname().machine
    real = Staged("running", {}, "cp", tuple(sys.version_info[:2]), list(dict.fromkeys([t.split("-")[1] for t in good if t.split("-")[1] != "none"])) + ["none"],
                  list(dict.fromkeys(t.split("-")[2] for t in good if not t.endswith("-any"))), arch, None, [a for a in ("x86_64", "aarch64", "s390x") if a != arch])
    if sys.implementation.name == "cpython" and sys.platform == "linux" and glibc and not hasattr(sys, "_is_gil_enabled"):
        bad = unsupported(real, r, good)
        verdicts(ctx, real, env, r, good, bad)
        choices(ctx, real, env, r, good, bad, tuple(sys.version_info[:3]))
        ctx.event("environments staged")
    more = ctx.budget(16, 400)
    for i, s in enumerate(stages(r, not ctx.quick)):
        if not more() or sum(ctx._vkeys.values()) > 12:
            break
        try:
            fake = stage_interpreter(work / f"s{i}" / "bin", s.cfg, s.arch if s.system == "Linux" else None, s.musl)
            env = Environment.of_interpreter(fake) if i % 2 else Environment(work / f"s{i}", fake)
            v = env.interpreter_version
        except Exception as e:
            ctx.violation("introspection", f"{s.name}: {short_tb(e)}", staged=s.cfg)
            continue
        want = ".".join(map(str, s.cfg["version_info"][:3]))
        ctx.check(str(v) == want, "interpreter-version", f"{s.name}: the interpreter's version is {want}, reported is {v}")
        good = supported(s)
        bad = unsupported(s, r, good)
        ctx.event("environments staged")
        ctx.distinct("interpreters", s.name)
        verdicts(ctx, s, env, r, good, bad)
        choices(ctx, s, env, r, good, bad, s.cfg["version_info"][:3])
