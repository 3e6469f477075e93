"""K02: stress histories over the real process pool; submissions, executions (marks left by the tasks) and deliveries are matched one to one."""
import contextlib
import concurrent.futures as cf
import os
import pathlib
import random
import re
import sys
import threading
import time

from vmon import core, pooltasks
from vmon.core import short_tb

WATCHDOG = 30      # seconds for all waits of one history together


class Recorder:
    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def text(self):
        return "".join(self.parts)


class Watch(threading.Thread):
    """samples the number of worker processes; ends them all when there are far too many"""

    def __init__(self, workers):
        super().__init__(daemon=True)
        self.workers, self.top, self.stop, self.samples = workers, 0, False, 0

    def run(self):
        while not self.stop:
            pids = [p for p in children() if alive(p)]
            self.samples += 1
            self.top = max(self.top, len(pids))
            if len(pids) > self.workers + 40:
                for p in pids:
                    with contextlib.suppress(OSError):
                        os.kill(p, 9)
            time.sleep(.02)


def children():
    out = []
    for t in os.listdir("/proc/self/task"):
        with contextlib.suppress(OSError):
            with open(f"/proc/self/task/{t}/children") as f:
                out += map(int, f.read().split())
    return out


def alive(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            return f.read().rsplit(")", 1)[1].split()[0] != "Z"
    except (OSError, IndexError):
        return False


def run(ctx):
    from pkm.utils.multiproc import ProcessPoolExecutor
    from pkm.utils.promises import await_all_promises_or_cancel

    os.environ["VMON_POOL_PARENT"] = str(os.getpid())
    ctx.rule = ("random histories over pools of 1-4 workers: several submitting threads; tasks that return small and large values, raise, kill or exit their worker, print, write to the standard streams directly, "
                "take or return values that cannot be sent or read; cancellations of queued, running and finished tasks; idle workers that retire; closing with work left")
    ctx.required_events = ["histories", "tasks", "delivered", "failed", "worker_died", "unsendable", "cancel_accepted", "cancel_refused", "cancelled_unstarted", "printed", "closed_with_work_left", "after_idle", "group_cancel", "large", "workers_gone"]
    rng = ctx.rng
    work = pathlib.Path(ctx.scratch) / "work"
    budget = ctx.budget(45, 600)
    i = 0
    while i < ctx.pick(45, 2000) and budget() and not (ctx.violated and i > 6):
        i += 1
        history(ctx, ctx.sub_rng(i), i, work / f"h{i}", ProcessPoolExecutor, await_all_promises_or_cancel)


class Task:
    def __init__(self, ident, kind, args, kw, expect):
        self.ident, self.kind, self.args, self.kw, self.expect = ident, kind, args, kw, expect
        self.promise = self.outcome = self.cancel = None
        self.calls = []


def make(rng, ident):
    kind = rng.choices(["echo", "wait", "big", "bigarg", "raise", "die", "print", "direct", "badresult", "unloadable", "badarg", "badload"], [6, 4, 2, 1, 3, 2, 3, 1, 1, 1, 1, 1])[0]
    n = rng.choice([10, 70000, 300000])
    if kind == "echo":
        v = rng.choice([None, 0, "x", {"a": [1, 2]}, b"\x00\xff"])
        return Task(ident, kind, ("echo", v), {"more": rng.choice([None, 3])}, None)
    if kind == "wait":
        return Task(ident, kind, ("echo", "w"), {"wait": rng.choice([.01, .05, .3])}, None)
    if kind == "big":
        return Task(ident, kind, ("big", n), {}, None)
    if kind == "bigarg":
        return Task(ident, kind, ("echo", bytes(n)), {}, None)
    if kind in ("raise", "die"):
        return Task(ident, kind, (kind, rng.choice(["plain", "odd", "key", "os"] if kind == "raise" else ["exit", "sysexit", "kill", "interrupt"])), {}, None)
    if kind == "print":
        return Task(ident, kind, ("print", rng.choice([1, 5, 200])), {}, None)
    if kind == "direct":
        return Task(ident, kind, ("direct",), {}, None)
    if kind in ("badresult", "unloadable"):
        return Task(ident, kind, (kind, n), {}, None)
    bad = (lambda: 1) if kind == "badarg" else pooltasks.UnloadableThere()
    return Task(ident, kind, ("echo", [bytes(n), bad, bytes(n)]), {}, None)


def expected(t):
    """(status, predicate)"""
    k = t.kind
    if k in ("echo", "wait", "bigarg"):
        return "ok", lambda v: v == (t.ident, t.args[1], t.kw.get("more"))
    if k == "big":
        return "ok", lambda v: v == bytes([len(str(t.ident)) % 256]) * t.args[1]
    if k == "print":
        return "ok", lambda v: v == (t.ident, t.args[1])
    if k == "direct":
        return "ok", lambda v: v == (t.ident, "direct", b"")
    if k == "raise":
        return "err", lambda e: f"failure of {t.ident}" in str(e)
    return "err", lambda e: True


def history(ctx, rng, i, d, Pool, await_or_cancel):
    d.mkdir()
    workers = rng.choice([1, 1, 2, 3, 4])
    idle = rng.choice([.05, .2, 5, 15])
    pool = Pool(max_workers=workers, max_inactivity_seconds=idle)
    nsub = rng.choice([1, 1, 2, 3])
    tag = f"seed {ctx.seed} history {i} workers={workers} idle={idle}"
    tasks, lock = [], threading.Lock()
    calm = rng.random() < .3      # nothing but plain work
    watch = Watch(workers)
    watch.start()
    deadline = time.monotonic() + WATCHDOG
    left_s = lambda: max(.2, deadline - time.monotonic())
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = rec_out, rec_err = Recorder(), Recorder()
    crashed = []
    hook, threading.excepthook = threading.excepthook, lambda a: crashed.append(f"{a.exc_type.__name__}: {a.exc_value} in {a.thread.name if a.thread else '?'}")
    try:
        def submitter(s):
            r = random.Random(f"{ctx.seed}:{i}:{s}")
            for k in range(r.randint(3, 14)):
                t = make(r, s * 100 + k)
                while calm and t.kind not in ("echo", "wait", "print", "big"):
                    t = make(r, s * 100 + k)
                t.promise = pool.execute(pooltasks.task, str(d), t.ident, *t.args, **t.kw)
                t.promise.when_completed(lambda p, t=t: t.calls.append(p.is_completed()))
                with lock:
                    tasks.append(t)
                x = r.random()
                if x < .25 and not calm:
                    v = t if r.random() < .5 else r.choice(list(tasks))
                    if r.random() < .5:
                        time.sleep(r.random() * .08)
                    if v.cancel is None:
                        v.cancel = v.promise.request_cancel()
                elif x < .3:
                    time.sleep(idle * 1.5 if idle < 1 else .05)
                    if idle < 1:
                        ctx.event("after_idle")

        ths = [threading.Thread(target=submitter, args=(s,), daemon=True) for s in range(1, nsub + 1)]
        for t in ths:
            t.start()
        for t in ths:
            t.join(left_s())
        if not ctx.check(not any(t.is_alive() for t in ths), "submitter-hangs", f"{tag}: submitting work never returned"):
            return
        group = None
        if rng.random() < .4:      # a group of which one fails: the rest is cancelled, and settled when the failure is reported
            ts = [Task(900 + k, "wait", ("echo", "w"), {"wait": rng.choice([.02, .2])}, None) for k in range(rng.randint(1, 5))]
            ts.insert(rng.randrange(len(ts)), Task(950, "raise", ("raise", "plain"), {}, None))
            for t in ts:
                t.promise = pool.execute(pooltasks.task, str(d), t.ident, *t.args, **t.kw)
                t.promise.when_completed(lambda p, t=t: t.calls.append(p.is_completed()))
                t.cancel = "group"
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                res = core.timed(lambda: await_or_cancel([t.promise for t in ts]), left_s())
            group = (res, [t.promise.is_completed() for t in ts])
            tasks += ts
        leave = rng.random() < .4
        left = sum(1 for t in tasks if not t.promise.is_completed())
        if not leave:
            for t in tasks:
                t.outcome = core.timed(t.promise.result, left_s())
        closed = core.timed(pool.close, left_s())
        for t in tasks:
            if t.outcome is None:
                t.outcome = core.timed(t.promise.result, min(3, left_s()))
        refused = core.timed(lambda: pool.execute(pooltasks.task, str(d), 999, "echo", 1).result(), 10)
        time.sleep(.01)
    finally:
        sys.stdout, sys.stderr = out, err
        threading.excepthook = hook
        watch.stop = True
    # (a worker that was killed may be listed for a moment while another takes its place)
    ctx.check(watch.top <= workers + 4, "too-many-processes", f"{tag}: {watch.top} worker processes at the same time")
    ctx.event("process_samples", watch.samples)
    ctx.distinct("processes", (workers, watch.top))
    ctx.event("histories")
    ctx.evaluated((i, tuple((t.ident, t.kind) for t in tasks)), {"workers": workers, "tasks": [t.kind for t in tasks][:12]})
    ctx.check(closed[0] == "ok", "close-hangs" if closed[0] == "hang" else "close-fails", f"{tag}: closing the pool: {closed[0]} {closed[1]!r}")
    ctx.check(refused[0] == "err", "work-after-close", f"{tag}: work given to a closed pool: {refused[0]} {refused[1]!r}")
    ctx.check(not crashed, "thread-crashed", f"{tag}: {crashed[:2]}")
    if leave and left:
        ctx.event("closed_with_work_left")
    marks = {}
    for f in d.iterdir():
        marks[int(f.name)] = [x.split() for x in f.read_text().splitlines()]
    spans, pids = [], set()
    for ms in marks.values():
        pids |= {int(m[1]) for m in ms}
        if len(ms) == 2:
            spans.append((float(ms[0][2]), float(ms[1][2])))
    for t in tasks:
        judge(ctx, tag, t, marks.get(t.ident, []), rec_out.text() if t.kind == "print" else "", rec_err.text() if t.kind == "print" else "")
    ctx.check(set(marks) <= {t.ident for t in tasks}, "unknown-execution", f"{tag}: {set(marks) - {t.ident for t in tasks}}")
    # no more tasks at the same time than workers
    points = sorted([(a, 1) for a, _ in spans] + [(b, -1) for _, b in spans])
    level = top = 0
    for _, x in points:
        level += x
        top = max(top, level)
    ctx.check(top <= workers, "too-many-workers", f"{tag}: {top} tasks ran at the same time")
    ctx.distinct("parallel", (workers, top))
    end = time.monotonic() + 5
    while time.monotonic() < end and any(map(alive, pids)):
        time.sleep(.01)
    ctx.check(not any(map(alive, pids)), "worker-left", f"{tag}: worker processes still running after close: {[p for p in pids if alive(p)]}")
    ctx.event("workers_gone", len(pids))
    if group:
        ctx.event("group_cancel")
        res, done = group
        ctx.check(res[0] == "err" and ("failure of 950" in str(res[1]) or isinstance(res[1], cf.CancelledError)), "group-outcome", f"{tag}: {res[0]} {str(res[1])[-200:]}")
        ctx.check(all(done), "group-unsettled", f"{tag}: failure of a group reported while {done.count(False)} of {len(done)} were not settled")


def judge(ctx, tag, t, ms, out, err):
    ctx.event("tasks")
    st, v = t.outcome
    starts = sum(1 for m in ms if m[0] == "start")
    tag = f"{tag} task {t.ident} ({t.kind}{t.args[1:] if t.kind in ('die', 'raise', 'print') else ''})"
    ctx.distinct("outcome", (t.kind, st, type(v).__name__, starts, str(t.cancel)))
    if not ctx.check(st != "hang", "never-settled", f"{tag}: its promise was never completed (cancel: {t.cancel})"):
        return
    ctx.check(t.calls == [True], "listener-once", f"{tag}: listener called {len(t.calls)} times")
    ctx.check(starts <= 1, "executed-twice", f"{tag}: started {starts} times")
    # (a cancellation accepted for a task that another thread cancelled as well reads the same)
    cancelled = st == "err" and isinstance(v, cf.CancelledError)
    if t.cancel is True:
        ctx.event("cancel_accepted")
        if starts == 0:
            ctx.event("cancelled_unstarted")
        ctx.check(cancelled, "cancelled-outcome", f"{tag}: cancellation was accepted but it ended with {st} {str(v)[:200]!r}")
        return
    if t.cancel == "group" and cancelled:
        ctx.event("cancel_accepted")
        return
    if t.cancel is False:
        ctx.event("cancel_refused")
    if not ctx.check(not cancelled, "spurious-cancel", f"{tag}: reported cancelled, cancel request answered {t.cancel}"):
        return
    want, pred = expected(t)
    ok = st == want and pred(v)
    if not ctx.check(ok, "outcome", f"{tag}: ended with {st} {type(v).__name__} {str(v)[-300:]!r}, executions {[m[0] for m in ms]}"):
        return
    ctx.event("delivered" if st == "ok" else "failed")
    if t.kind in ("badarg", "badload"):
        ctx.event("unsendable")
        ctx.check(starts == 0, "executed-unsendable", f"{tag}: {ms}")
        return
    ctx.check(starts == 1, "not-executed", f"{tag}: delivered {st} but was started {starts} times")
    if t.kind == "die":
        ctx.event("worker_died")
    if t.kind in ("big", "bigarg"):
        ctx.event("large")
    if t.kind == "print":
        ctx.event("printed")
        for name, text, want in (("output", out, list(range(t.args[1]))), ("error output", err, [k for k in range(t.args[1]) if k % 3 == 0])):
            got = [int(x) for x in re.findall(rf"<{t.ident}:(\d+)>", text)]
            ctx.check(got == want, "output-lost", f"{tag}: {name} has {len(got)} of {len(want)} parts, in order: {got == sorted(got)}")
