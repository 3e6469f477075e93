"""I03: every file-system operation of a real installation fails in turn; the target tree is compared before and after."""
import contextlib
import errno
import importlib.util
import io
import os
import pathlib
import re
import resource
import shutil
import signal
import sys
import threading
import warnings

from vmon import core, world
from vmon.core import outcome, short_tb

EVENTS = {"open", "os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.chmod", "os.utime", "os.listdir", "os.scandir", "os.link", "os.symlink", "os.truncate"}
_PYC_TEMP = re.compile(r"\.pyc\.\d+$")


class Injector:
    """fails the n-th file-system event of the armed thread (audit hooks see every one of them, whatever code issues it)"""

    def __init__(self, scratch):
        self.scratch, self.armed, self.count, self.fail_at, self.exc, self.hit, self.thread = str(scratch), False, 0, 0, None, None, None
        sys.addaudithook(self._hook)

    def _hook(self, event, args):
        if not self.armed or event not in EVENTS or threading.get_ident() != self.thread:
            return
        p = args[0] if args else None
        if not isinstance(p, (str, bytes)) and not hasattr(p, "__fspath__"):
            return
        if not os.fsdecode(os.fspath(p)).startswith(self.scratch):
            return
        self.count += 1
        if self.count == self.fail_at:
            self.hit = (event, os.path.basename(os.fsdecode(os.fspath(p))))
            raise self.exc(errno.ENOSPC, "injected") if issubclass(self.exc, OSError) else self.exc("injected")

    @contextlib.contextmanager
    def run(self, fail_at, exc=OSError):
        self.count, self.fail_at, self.exc, self.hit, self.thread, self.armed = 0, fail_at, exc, None, threading.get_ident(), True
        try:
            yield self
        finally:
            self.armed = False


@contextlib.contextmanager
def partial_copy(nth):
    """the n-th file copy writes half of the content and then fails"""
    state = {"n": 0, "hit": False}
    real = shutil.copyfile

    def copyfile(src, dst, *, follow_symlinks=True):
        state["n"] += 1
        if state["n"] == nth:
            state["hit"] = True
            data = pathlib.Path(src).read_bytes()
            pathlib.Path(dst).write_bytes(data[:len(data) // 2])
            raise OSError(errno.ENOSPC, "injected after a partial write")
        return real(src, dst, follow_symlinks=follow_symlinks)

    shutil.copyfile = copyfile
    try:
        yield state
    finally:
        shutil.copyfile = real


@contextlib.contextmanager
def file_size_limit(n):
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    prev = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
        signal.signal(signal.SIGXFSZ, prev)


def essential(snap):
    """what has to be the same in every successful installation (compiled files are optional)"""
    out = {}
    for k, v in snap.items():
        if k.endswith(".pyc") or os.path.basename(k) == "__pycache__":
            continue
        out[k] = ("f",) if k.endswith("dist-info/RECORD") else v
    return out


def run(ctx):
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.distributions.wheel_distribution import WheelDistribution
    from pkm.api.environments.environment import Environment
    from pkm.api.packages.package import PackageDescriptor
    from pkm.api.versions.version import Version

    ctx.level = "fault_enumeration"
    ctx.rule = ("for each generated wheel and prior target content: every audited file-system operation of the installation (open, mkdir, rename, remove, rmdir, chmod, copy, "
                "listdir ...) raises ENOSPC or KeyboardInterrupt once; every copy fails once half way; write size limits; unwritable directories; wheels invalid in late steps. "
                "Verdict: error and tree identical to before, or success and tree complete")
    ctx.required_events = ["faults_hit", "partial_copies", "size_limits", "interrupts", "unwritable", "rolled_back", "overwritten_restored", "late_invalid"]
    rng = ctx.rng
    env = world.make_env(ctx)
    root = pathlib.Path(env.path)
    base = world.snapshot(root)
    wheels = pathlib.Path(ctx.scratch) / "work" / "wheels"
    inj = Injector(pathlib.Path(ctx.scratch))
    sink = io.StringIO()

    def install(name, version, whl, tgt, req):
        with warnings.catch_warnings(), contextlib.redirect_stderr(sink), contextlib.redirect_stdout(sink):
            warnings.simplefilter("ignore")
            try:
                WheelDistribution(PackageDescriptor(name, Version.parse(version)), whl).install_to(tgt, req)
                return "ok", None
            except BaseException as e:  # noqa: interrupts included
                return "err", e

    wheels_n = ctx.pick(4, 40)
    budget = ctx.budget(90, 750)
    case = 0
    while case < wheels_n and budget():
        world.reset_tree(root, base)
        env = Environment(root)
        tgt = env.installation_target
        site = pathlib.Path(tgt.purelib)
        name, version = rng.choice(["alpha", "My-Pkg", "zope.thing"]), "1.0"
        w = world.gen_wheel(rng, name, version, shared_ns="nsp" if rng.random() < .5 else None, size=.5)
        if case % 4 == 0:
            # the first wheels always exercise data schemes and scripts
            w.members[f"{w.dd}/data/share/{w.di}/x.txt"] = w.data[f"share/{w.di}/x.txt"] = b"data"
            w.members[f"{w.dd}/scripts/tool{case}"] = w.scripts[f"tool{case}"] = b"#!python\nprint(1)\n"
        whl = w.write(wheels)
        req = Dependency.parse(name) if rng.random() < .7 else None

        # prior content: files, links, directories and compiled files in the places the wheel writes to
        places = [site / k for k in w.site if f"{w.di}/" not in k] + [root / k for k in w.data] + [root / "bin" / k for k in w.scripts] + [root / "bin" / k for k in w.script_tokens]
        prior = []
        for p in places:
            k = rng.random()
            if k < .35:
                prior.append((p, "file"))
            elif k < .42:
                prior.append((p, "link"))
            elif k < .5 and p.suffix == ".py":
                prior.append((p, "pyc"))
        if rng.random() < .4:
            prior.append((site / w.di / "METADATA", "file"))
            prior.append((site / w.di / "OLD", "file"))
            prior.append((site / w.di / "RECORD", "file"))
        elsewhere = root / "share" / "elsewhere.txt"

        def make_prior():
            elsewhere.parent.mkdir(parents=True, exist_ok=True)
            elsewhere.write_text("untouched")
            (site / "nsp").mkdir(exist_ok=True)
            (site / "nsp" / "keep.py").write_text("1")
            for p, kind in prior:
                if not p.parent.exists():
                    p.parent.mkdir(parents=True)
                if os.path.lexists(p):
                    continue
                if kind == "file":
                    p.write_bytes(b"")if p.name == "RECORD" else p.write_bytes(b"previous " + p.name.encode())
                elif kind == "link":
                    p.symlink_to(elsewhere)
                else:
                    p.write_bytes(b"old = 1\n")
                    c = pathlib.Path(importlib.util.cache_from_source(str(p)))
                    c.parent.mkdir(exist_ok=True)
                    c.write_bytes(b"stale")

        make_prior()
        before = world.snapshot(root)
        tag = f"seed {ctx.seed} wheel {case} ({name}, {len(w.members)} members, {len(prior)} prior files)"
        with inj.run(0):
            k, e = install(name, version, whl, tgt, req)
        total = inj.count
        if not ctx.check(k == "ok", "install-failed", f"{tag}: valid wheel: {short_tb(e, 6) if e else ''}"):
            case += 1
            continue
        full = world.snapshot(root)
        ctx.event("operations", total)

        def restore():
            world.reset_tree(root, {k: v for k, v in before.items() if full.get(k) == v})
            make_prior()
            now = world.snapshot(root)
            assert now == before, world.tree_diff(before, now)

        def judge(what, outcome_, error, must_fail=False):
            now = world.snapshot(root)
            if isinstance(error, KeyboardInterrupt):
                # python's own py_compile leaves its temporary file behind when interrupted
                for r in [r for r in now if _PYC_TEMP.search(r)]:
                    (root / r).unlink()
                    d = os.path.dirname(r)
                    while d and d not in before and not os.listdir(root / d):
                        (root / d).rmdir()
                        d = os.path.dirname(d)
                now = world.snapshot(root)
            ctx.evaluated((case, what), {"wheel": whl.name, "fault": what, "outcome": outcome_})
            if outcome_ == "err" and isinstance(error, KeyboardInterrupt) and not world.tree_diff(essential(full), essential(now)):
                restore()  # interrupted after the installation was complete
            elif outcome_ == "err":
                ok = ctx.check(now == before, "not-rolled-back", f"{tag}: {what}: failed with {type(error).__name__} and left {world.tree_diff(before, now)}")
                ctx.event("rolled_back")
                if prior:
                    ctx.event("overwritten_restored")
                if not ok:
                    restore()
            else:
                d = world.tree_diff(essential(full), essential(now))
                ctx.check(not d and not must_fail, "silent-partial", f"{tag}: {what}: reported success with an incomplete result {d}")
                restore()

        restore()
        # 1. every operation fails once
        step = 1
        for i in range(1, total + 1, step):
            if not budget():
                break
            exc = KeyboardInterrupt if i % 5 == 4 else OSError
            with inj.run(i, exc):
                k, e = install(name, version, whl, tgt, req)
            if inj.hit is None:
                restore() if k == "ok" else None
                continue
            ctx.event("faults_hit")
            ctx.event("fault:" + inj.hit[0])
            if exc is KeyboardInterrupt:
                ctx.event("interrupts")
            judge(f"{exc.__name__} at operation {i} of {total} {inj.hit}", k, e)
        # 2. every copy fails half way
        n = 1
        while n < 400 and budget():
            with partial_copy(n) as st:
                k, e = install(name, version, whl, tgt, req)
            if not st["hit"]:
                restore() if k == "ok" else None
                break
            ctx.event("partial_copies")
            judge(f"copy {n} fails half way", k, e)
            n += 1
        # 3. the disk refuses files over a size
        sizes = sorted({len(v) for v in w.members.values()})
        for lim in [s - 1 for s in (sizes if len(sizes) < 8 else rng.sample(sizes, 8)) if s > 1]:
            with file_size_limit(lim):
                k, e = install(name, version, whl, tgt, req)
            ctx.event("size_limits")
            judge(f"file size limit {lim}", k, e)
        # 4. unwritable directories
        dirs = sorted({os.path.dirname(str(p)) for p in places if os.path.isdir(os.path.dirname(str(p)))} | {str(site), str(root / "bin")})
        for d in rng.sample(dirs, min(4, len(dirs))):
            mode = os.stat(d).st_mode
            os.chmod(d, 0o555)
            try:
                k, e = install(name, version, whl, tgt, req)
            finally:
                os.chmod(d, mode)
            ctx.event("unwritable")
            judge(f"read-only directory {os.path.relpath(d, str(root))}", k, e)
        # 5. wheels that turn out to be invalid in a late step
        for what in ("entry-point", "scheme", "script-name"):
            bad = dict(w.members)
            if what == "entry-point":
                bad[f"{w.di}/entry_points.txt"] = bad.get(f"{w.di}/entry_points.txt", b"") .replace(b"[console_scripts]", b"[console_scripts]\nzzz-bad = nofunction") or b"[console_scripts]\nok = a:b\nzzz-bad = nofunction\n"
                if b"zzz-bad" not in bad[f"{w.di}/entry_points.txt"]:
                    continue
            elif what == "scheme":
                bad[f"{w.dd}/nonsense/x.txt"] = b"x"
            else:
                bad[f"{w.di}/entry_points.txt"] = b"[console_scripts]\nok = a:b\nsub/dir/x = a:b\n"
            p = world.write_wheel(wheels / "bad", name, version, bad, tag=w.tag)
            k, e = install(name, version, p, tgt, req)
            if k == "err":
                ctx.event("late_invalid")
                judge(f"invalid {what}", k, e)
            else:
                ctx.event("late_invalid_accepted")
                world.reset_tree(root, {k: v for k, v in before.items() if world.snapshot(root).get(k) == v})
                make_prior()
            p.unlink()
        ctx.check(not core.ESCAPES, "escape", f"{tag}: touched {core.ESCAPES[:3]}")
        whl.unlink()
        case += 1
