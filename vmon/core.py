"""Shared monitor core: event counters, oracle verdicts, time budget, containment audit hook, report writing."""
import hashlib
import json
import os
import pathlib
import random
import sys
import time
import traceback
from collections import Counter


class OutOfTime(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed, scratch, limit):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, pathlib.Path(scratch)
        self.rng = random.Random(f"{prop}:{seed}")
        self.quick = tier == "quick"
        self.start = time.monotonic()
        self.limit = limit
        self.level = "exploration"
        self.rule = ""
        self.assumptions = []
        self.min_evaluations = 1
        self.required_events = []
        self._events = Counter()
        self._distinct = {}
        self._evaluations = 0
        self._nontrivial = set()
        self._samples = []
        self._violations = []
        self._vkeys = Counter()
        self.exhaustive = None

    @classmethod
    def from_env(cls):
        e = os.environ
        return cls(e["VMON_PROP"], e["VMON_TIER"], int(e["VMON_SEED"]), e["VMON_SCRATCH"], float(e["VMON_LIMIT"]))

    # ---- budget
    def elapsed(self):
        return time.monotonic() - self.start

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def budget(self, quick_s, thorough_s):
        """returns a callable that is True while the phase may go on (a time cap on top of the phase's own count)"""
        end = time.monotonic() + (quick_s if self.quick else thorough_s)
        return lambda: time.monotonic() < end

    def sub_rng(self, *names):
        return random.Random(":".join([self.prop, str(self.seed), *map(str, names)]))

    # ---- observation
    def event(self, kind, n=1):
        self._events[kind] += n

    def distinct(self, kind, key):
        self._distinct.setdefault(kind, set()).add(_digest(key))

    def evaluated(self, key=None, sample=None):
        """one case evaluated by the oracle; `key` identifies a non-trivial case (None: trivial)"""
        self._evaluations += 1
        if key is not None:
            self._nontrivial.add(_digest(key))
        if sample is not None and len(self._samples) < 12 and self._evaluations % 97 in (1, 2):
            self._samples.append(sample)

    def sample(self, obj, cap=12):
        if len(self._samples) < cap:
            self._samples.append(obj)

    # ---- verdict
    def violation(self, key, msg, **replay):
        self._vkeys[key] += 1
        if self._vkeys[key] <= 3:
            self._violations.append({"key": key, "msg": str(msg), "replay": replay})
            print(f"violation [{key}] {msg}", flush=True)

    @property
    def violated(self):
        return bool(self._violations)

    def check(self, cond, key, msg, **replay):
        if not cond:
            self.violation(key, msg, **replay)
        return cond

    def write_report(self, inconclusive):
        if not inconclusive:
            missing = [e for e in self.required_events if not self._events.get(e)]
            if missing:
                inconclusive = f"monitors never observed: {missing}"
            elif self._evaluations < self.min_evaluations:
                inconclusive = f"only {self._evaluations} evaluations (need {self.min_evaluations})"
        cov = {
            "evaluations": self._evaluations, "distinct_nontrivial": len(self._nontrivial), "rule": self.rule,
            "samples": self._samples or ["none"], "events": dict(self._events),
            "distinct_states": {k: len(v) for k, v in self._distinct.items()},
            "violation_counts": dict(self._vkeys),
        }
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        (self.scratch / "report.json").write_text(json.dumps({
            "violations": self._violations, "coverage": cov, "assumptions": self.assumptions, "level": self.level,
            "inconclusive": inconclusive}, default=str))


def _digest(key):
    return hashlib.blake2s(repr(key).encode("utf-8", "surrogatepass"), digest_size=8).digest()


def short_tb(exc, n=3):
    frames = traceback.extract_tb(exc.__traceback__)[-n:]
    return f"{type(exc).__name__}: {exc} @ " + " < ".join(f"{pathlib.Path(f.filename).name}:{f.lineno}" for f in reversed(frames))


def outcome(fn, *args, **kwargs):
    """run fn and return ('ok', value) or ('err', exception)"""
    try:
        return "ok", fn(*args, **kwargs)
    except RecursionError as e:
        return "err", e
    except Exception as e:  # noqa
        return "err", e


def timed(fn, seconds):
    """run fn in a daemon thread: ('ok', value), ('err', exception) or ('hang', None)"""
    import threading
    box = []

    def go():
        try:
            box.append(("ok", fn()))
        except BaseException as e:  # noqa
            box.append(("err", e))

    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(seconds)
    return box[0] if box else ("hang", None)


# ------------------------------------------------------------------------------------------------- containment
ESCAPES = []
_WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


class EscapeBlocked(PermissionError):
    """raised by the audit hook in place of an effect outside the scratch directory"""


def install_containment(ctx):
    scratch = os.path.realpath(str(ctx.scratch))
    allowed_prefixes = (scratch + os.sep, "/dev/")

    def inside(path, dir_fd=-1):
        try:
            if isinstance(path, int):
                return True
            p = os.fsdecode(path)
            if dir_fd not in (-1, None) and not os.path.isabs(p):
                base = os.readlink(f"/proc/self/fd/{dir_fd}")
                p = os.path.join(base, p)
            parent = os.path.realpath(os.path.dirname(os.path.abspath(p)))
            full = os.path.join(parent, os.path.basename(p))
            return full == scratch or (full + os.sep).startswith(allowed_prefixes)
        except Exception:  # noqa
            return True

    def deny(event, path):
        ESCAPES.append((event, os.fsdecode(path)))
        raise EscapeBlocked(f"[vmon containment] {event} outside scratch: {path!r}")

    def hook(event, args):
        if event == "open":
            path, mode, flags = args
            if isinstance(path, (str, bytes)) and isinstance(flags, int) and flags & _WRITE_FLAGS:
                # opening follows links: judge the real file
                try:
                    real = os.path.realpath(os.fsdecode(path))
                except Exception:  # noqa
                    return
                if not (real + os.sep).startswith(allowed_prefixes) and real != scratch:
                    deny(event, path)
        elif event in ("os.remove", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod", "os.chown", "os.utime"):
            path = args[0]
            dir_fd = args[-1] if event in ("os.remove", "os.rmdir", "os.mkdir", "os.chmod", "os.chown") else -1
            if isinstance(path, (str, bytes)) and not inside(path, dir_fd):
                deny(event, path)
        elif event in ("os.rename", "os.link"):
            if not inside(args[0], args[2]):
                deny(event, args[0])
            if not inside(args[1], args[3]):
                deny(event, args[1])
        elif event == "os.symlink":
            if not inside(args[1], args[2]):
                deny(event, args[1])
        elif event == "shutil.rmtree":
            if not inside(args[0]):
                deny(event, args[0])

    sys.addaudithook(hook)
