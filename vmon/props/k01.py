"""K01: multi-threaded histories over the real promises, computed-once properties and monitored operations, with delays injected at
the lines of the code under test; recorded events are checked for exactly-once, agreement and nobody left waiting."""
import concurrent.futures as cf
import dataclasses
import random
import sys
import threading
import time
import warnings

from vmon import core
from vmon.core import short_tb


class Perturb:
    """threads started inside run with random tiny delays at the lines of the given modules"""

    def __init__(self, rng, p, *modules):
        self.rng, self.p, self.files = rng, p, {m.__file__ for m in modules}
        self.points = set()

    def _line(self, frame, event, arg):
        if event == "line":
            r = random.random()
            if r < self.p:
                self.points.add((frame.f_code.co_name, frame.f_lineno))
                time.sleep(0 if r < self.p * .4 else random.random() * .0006)
        return self._line

    def __call__(self, frame, event, arg):
        return self._line if frame.f_code.co_filename in self.files else None

    def __enter__(self):
        threading.settrace(self)
        self.si = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        return self

    def __exit__(self, *a):
        threading.settrace(None)
        sys.setswitchinterval(self.si)


class Boom(Exception):
    pass


class Quiet(Exception):
    """an exception whose truth value is false"""

    def __len__(self):
        return 0


def spin(threads, ctx, tag, seconds=12):
    """start all, wait for all: False (and a violation) when one is left waiting"""
    for t in threads:
        t.daemon = True
        t.start()
    end = time.monotonic() + seconds
    for t in threads:
        t.join(max(.01, end - time.monotonic()))
    left = [t.name for t in threads if t.is_alive()]
    return ctx.check(not left, "left-waiting", f"{tag}: threads never returned: {left}")


def run(ctx):
    import pkm.utils.promises as promises
    import pkm.utils.properties as properties
    import pkm.utils.monitors as monitors

    ctx.rule = ("short multi-threaded histories (1-3 racing completers x waiters x pollers x listeners registered before/during/after, listeners that raise, block, chain or register others; waits for groups "
                "with and without cancellation; thread pool promises with cancellation; computed-once properties read by 2-8 threads with failures, cross dependencies and short-lived owners; monitored operations) "
                "with random delays injected at the executed lines of the code under test")
    ctx.required_events = ["promise_histories", "late_listeners", "early_listeners", "chained", "raced_completions", "result_waiters", "group_waits", "group_failures", "cancelled", "property_histories",
                           "property_failures", "concurrent_reads", "operations", "async_operations", "not_completed_reports"]
    budget = ctx.budget(35, 600)
    i = 0
    points = set()
    while i < ctx.pick(900, 20000) and budget() and not (ctx.violated and i > 40):
        i += 1
        rng = ctx.sub_rng(i)
        with Perturb(rng, rng.choice([.05, .2, .5]), promises, properties, monitors) as pt:
            [promise_history, promise_history, property_history, group_history, executor_history, operation_history, when_done_race][i % 7](ctx, rng, i, promises, properties, monitors)
        points |= pt.points
    ctx.event("delay_points", len(points))
    for p in points:
        ctx.distinct("delayed_line", p)


def outcome_of(p):
    st, v = core.outcome(p.result)
    return (st, v)


def when_done_race(ctx, rng, i, promises, properties, monitors):
    """many promises, each completed by one thread while another registers a single listener"""
    n = 30
    ds = [promises.Deferred() for _ in range(n)]
    called = [[] for _ in range(n)]
    derived = [None] * n
    tag = f"seed {ctx.seed} history {i} registration race"

    def completer():
        for k, d in enumerate(ds):
            d.complete(k)

    def registrar():
        for k, d in enumerate(ds):
            derived[k] = d.promise().when_completed(lambda p, k=k: called[k].append(p.result(False)) or k)

    if not spin([threading.Thread(target=completer), threading.Thread(target=registrar)], ctx, tag):
        return
    for k in range(n):
        ctx.evaluated((i, k))
        ctx.check(called[k] == [k], "listener-once", f"{tag}: listener of promise {k} was called with {called[k]}")
        ctx.check(derived[k].is_completed() and outcome_of(derived[k]) == ("ok", k), "derived-lost", f"{tag}: promise of listener {k} is not completed with its result")


def promise_history(ctx, rng, i, promises, properties, monitors):
    d = promises.Deferred()
    p = d.promise()
    tag = f"seed {ctx.seed} history {i}"
    ncomp, nwait, nlist, npoll = rng.choice([1, 1, 2, 3]), rng.randint(1, 4), rng.randint(1, 5), rng.choice([0, 1, 2])
    wins, refused, results, listeners, polls = [], [], [], [], []
    lock = threading.Lock()
    other = promises.Deferred()      # completed from within a listener
    gate = threading.Barrier(ncomp + nwait + nlist + npoll)

    def pause():
        r = random.random()
        if r < .5:
            time.sleep(random.random() * .002)

    st, e = core.outcome(p.result, False)
    ctx.check(st == "err" and isinstance(e, ValueError) and not p.is_completed() and not p.is_failed() and not p.is_succeeded(), "pending-reported-completed",
              f"{tag}: a pending promise reports {st} {e!r} completed={p.is_completed()}")
    ctx.event("not_completed_reports")

    def complete(k):
        gate.wait()
        pause()
        fail = rng.random() < .4
        out = (rng.choice([Boom(k), Quiet(k), BaseException(k)]) if fail else rng.choice([("v", k), None, 0, [k]]))
        try:
            (d.fail if fail else d.complete)(out)
        except ValueError as e:
            with lock:
                refused.append(e)
        else:
            with lock:
                wins.append(("err" if fail else "ok", out))

    def wait(k):
        gate.wait()
        pause()
        try:
            r = ("ok", p.result())
        except BaseException as e:  # noqa
            r = ("err", e)
        with lock:
            results.append(r)

    def listen(k):
        kind = rng.choice(["value", "value", "raise", "nested", "complete-other", "slow", "read"])
        gate.wait()
        pause()
        rec = {"kind": kind, "calls": [], "nested": [], "early": not p.is_completed()}

        def cb(q):
            with lock:
                rec["calls"].append((q, q.is_completed()))
            if kind == "raise":
                raise Boom(("listener", k))
            if kind == "nested":
                def inner(q2):
                    with lock:
                        rec["nested"].append(q2.is_completed())
                q.when_completed(inner)
            if kind == "complete-other":
                try:
                    other.complete(k)
                except ValueError:
                    pass
            if kind == "slow":
                time.sleep(.002)
            if kind == "read":
                return q.result(False)
            return ("listener", k)

        rec["promise"] = p.when_completed(cb)
        rec["after"] = []
        rec["second"] = rec["promise"].when_completed(lambda q: rec["after"].append(1) or "second")
        with lock:
            listeners.append((k, rec))

    def poll(k):
        gate.wait()
        end = time.monotonic() + 15
        last = False
        while time.monotonic() < end:
            done = p.is_completed()
            if last and not done:
                polls.append("completion was taken back")
            last = done
            if done:
                try:
                    r = ("ok", p.result(False))
                except ValueError as e:
                    r = ("missing", e)
                except BaseException as e:  # noqa
                    r = ("err", e)
                with lock:
                    results.append(r)
                return
            time.sleep(0)

    threads = [threading.Thread(target=f, args=(k,), name=f"{f.__name__}{k}") for f, n in ((complete, ncomp), (wait, nwait), (listen, nlist), (poll, npoll)) for k in range(n)]
    if not spin(threads, ctx, tag):
        return
    ctx.event("promise_histories")
    ctx.event("result_waiters", nwait)
    ctx.evaluated((i, ncomp, nwait, nlist, npoll, tuple(r["kind"] for _, r in listeners)), {"completers": ncomp, "waiters": nwait, "listeners": [r["kind"] for _, r in listeners], "outcome": [w[0] for w in wins]})
    if ncomp > 1:
        ctx.event("raced_completions")
    ctx.distinct("history", (ncomp, nwait, nlist, npoll, len(wins), tuple(sorted((r["kind"], r["early"]) for _, r in listeners))))
    if not ctx.check(len(wins) == 1 and len(refused) == ncomp - 1, "completed-once", f"{tag}: {ncomp} completions, {len(wins)} accepted, {len(refused)} refused"):
        return
    st, val = wins[0]
    same = lambda r: r[0] == st and r[1] is val
    ctx.check(all(map(same, results)), "waiter-outcome", f"{tag}: outcome {wins[0]!r}, waiters saw {[r for r in results if not same(r)]!r}")
    ctx.check(len(results) == nwait + npoll and not polls, "waiter-lost", f"{tag}: {nwait + npoll} waiters, {len(results)} results {polls}")
    ctx.check(p.is_completed() and bool(p.is_failed()) == (st == "err") and bool(p.is_succeeded()) == (st == "ok"), "state", f"{tag}: outcome {st}, completed={p.is_completed()} failed={p.is_failed()}")
    for k, r in listeners:
        ctx.event("early_listeners" if r["early"] else "late_listeners")
        ctx.check(len(r["calls"]) == 1 and r["calls"][0][1], "listener-once", f"{tag}: listener {k} ({r['kind']}) called {len(r['calls'])} times, completed: {[c[1] for c in r['calls']]}")
        if not r["calls"]:
            continue
        ctx.check(r["calls"][0][0] is p or same(core_outcome(r["calls"][0][0])), "listener-outcome", f"{tag}: listener {k} got another promise")
        if r["kind"] == "nested":
            ctx.check(r["nested"] == [True], "listener-once", f"{tag}: listener registered by listener {k}: {r['nested']}")
        got = core_outcome(r["promise"]) if r["promise"].is_completed() else ("pending", None)
        want = {"raise": lambda o: o[0] == "err" and isinstance(o[1], Boom) and o[1].args == (("listener", k),), "read": same}.get(r["kind"], lambda o: o == ("ok", ("listener", k)))
        ctx.check(want(got), "derived-outcome", f"{tag}: listener {k} ({r['kind']}) returned a promise with {got!r}")
        ctx.check(r["after"] == [1], "chained-listener-once", f"{tag}: listener of the promise of listener {k}: {r['after']}")
        ctx.check(r["second"].is_completed() and core_outcome(r["second"]) == ("ok", "second"), "chained-outcome", f"{tag}: second promise of listener {k}")
        ctx.event("chained")


def core_outcome(p):
    try:
        return "ok", p.result(False)
    except BaseException as e:  # noqa
        return "err", e


def group_history(ctx, rng, i, promises, properties, monitors):
    """waits for groups of promises settled by other threads"""
    n = rng.randint(1, 6)
    tag = f"seed {ctx.seed} history {i} group of {n}"
    cancel = rng.random() < .6
    asked = []
    plan = [rng.choice(["ok", "ok", "ok", "fail", "late-ok", "late-fail"] + (["cancellable"] if cancel else [])) for _ in range(n)]
    if cancel and "cancellable" in plan and not any(x.endswith("fail") for x in plan):
        plan[rng.randrange(n)] = "fail"
    # (results are waited for in order: what comes before the first failure has to settle by itself)
    for k in range(n):
        if plan[k].endswith("fail"):
            break
        if plan[k] == "cancellable":
            plan[k] = "late-ok"
    ds = []
    settled = [None] * n

    def handler(k):
        def request():
            asked.append(k)
            if plan[k] == "cancellable" and settled[k] is None:
                def later():
                    time.sleep(random.random() * .01)
                    settled[k] = time.monotonic()
                    ds[k].fail(cf.CancelledError())
                threading.Thread(target=later, daemon=True).start()
                return True
            return False
        return request

    for k in range(n):
        ds.append(promises.Deferred(handler(k)))

    def settle(k):
        if plan[k] == "cancellable":
            return
        time.sleep(random.random() * (.02 if plan[k].startswith("late") else .002))
        settled[k] = time.monotonic()
        ds[k].fail(Boom(k)) if plan[k].endswith("fail") else ds[k].complete(k)

    out = []

    def waiter():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                (promises.await_all_promises_or_cancel if cancel else promises.await_all_promises)([d.promise() for d in ds], **({"ignore_error": True} if ignore else {}))
                out.append(("ok", None, [d.promise().is_completed() for d in ds]))
            except BaseException as e:  # noqa
                out.append(("err", e, [d.promise().is_completed() for d in ds]))

    ignore = not cancel and rng.random() < .5
    if not spin([threading.Thread(target=waiter, name=f"waiter {plan}")] + [threading.Thread(target=settle, args=(k,)) for k in range(n)], ctx, tag):
        return
    ctx.event("group_waits")
    ctx.evaluated((i, tuple(plan), cancel, ignore))
    ctx.distinct("group", (tuple(plan), cancel, ignore))
    st, e, done = out[0]
    failing = any(x.endswith("fail") for x in plan)
    if failing and not ignore:
        ctx.event("group_failures")
        ctx.check(st == "err" and (isinstance(e, Boom) or (cancel and isinstance(e, cf.CancelledError))), "group-failure", f"{tag} {plan}: the wait ended with {st} {e!r}")
        if cancel:
            ctx.check(all(done), "group-unsettled", f"{tag} {plan}: failure raised while {[x for x, d in zip(plan, done) if not d]} were not settled")
    else:
        ctx.check(st == "ok", "group-failure", f"{tag} {plan}: the wait raised {e!r}")
        ctx.check(all(done), "group-unsettled", f"{tag} {plan}: the wait ended while {[x for x, d in zip(plan, done) if not d]} were not settled")
    ctx.check(not asked or cancel, "cancel-not-asked", f"{tag}: {asked} asked to cancel")


def executor_history(ctx, rng, i, promises, properties, monitors):
    """promises of thread pool work and immediate work: outcome, exactly one execution, cancellation settles"""
    n = rng.randint(2, 8)
    tag = f"seed {ctx.seed} history {i} pool work"
    runs = [0] * n
    lock = threading.Lock()
    hold = threading.Event()

    def work(k, *, fail=False):
        with lock:
            runs[k] += 1
        hold.wait(5)
        if fail:
            raise Boom(k)
        return ("done", k)

    fails = [rng.random() < .3 for _ in range(n)]
    calls = [[] for _ in range(n)]
    with cf.ThreadPoolExecutor(rng.randint(1, 3)) as pool:
        ps = [promises.Promise.execute(pool, work, k, fail=fails[k]) for k in range(n)]
        ds = [p.when_completed(lambda q, k=k: calls[k].append(q.is_completed())) for k, p in enumerate(ps)]
        cancelled = {}
        for k in rng.sample(range(n), rng.randint(0, n)):
            cancelled[k] = (ps if rng.random() < .5 else ds)[k].request_cancel()
        hold.set()
        outs = [core.timed(p.result, 20) for p in ps]
    ctx.evaluated((i, tuple(fails), tuple(sorted(cancelled.items()))))
    for k in range(n):
        if cancelled.get(k):
            ctx.event("cancelled")
            ctx.check(outs[k][0] == "err" and isinstance(outs[k][1], cf.CancelledError) and runs[k] == 0, "cancelled-outcome", f"{tag}: task {k} was cancelled but ended with {outs[k]!r}, ran {runs[k]} times")
        elif fails[k]:
            ctx.check(outs[k][0] == "err" and isinstance(outs[k][1], Boom) and runs[k] == 1, "work-outcome", f"{tag}: failing task {k}: {outs[k]!r}, ran {runs[k]} times")
        else:
            ctx.check(outs[k] == ("ok", ("done", k)) and runs[k] == 1, "work-outcome", f"{tag}: task {k}: {outs[k]!r}, ran {runs[k]} times")
        ctx.check(core.timed(ds[k].result, 20)[0] == "ok" and calls[k] == [True], "listener-once", f"{tag}: listener of task {k}: {calls[k]}")
    hold.set()
    p = promises.Promise.execute(None, work, 0, fail=False)
    ctx.check(p.is_completed() and core_outcome(p) == ("ok", ("done", 0)), "immediate", f"{tag}: immediate work {core_outcome(p)!r}")
    p = promises.Promise.execute(None, work, 0, fail=True)
    ctx.check(p.is_completed() and p.is_failed() and isinstance(core_outcome(p)[1], Boom), "immediate", f"{tag}: immediate failing work {core_outcome(p)!r}")


def property_history(ctx, rng, i, promises, properties, monitors):
    cached_property = properties.cached_property
    log = []
    lock = threading.Lock()
    running = {}

    def compute(owner, name, failures):
        key = (owner.ident, name)
        with lock:
            running[key] = running.get(key, 0) + 1
            if running[key] > 1:
                log.append(("overlap", key))
            log.append(("compute", key))
            n = sum(1 for e in log if e == ("compute", key))
        if random.random() < .7:
            time.sleep(random.random() * .002)
        with lock:
            running[key] -= 1
        if n <= failures:
            raise Boom(key)
        return object() if name != "none" else None

    class Plain:
        def __init__(self, ident):
            self.ident = ident

        @cached_property
        def one(self):
            return compute(self, "one", 0)

        @cached_property
        def two(self):
            return (compute(self, "two", 0), self.one)

        @cached_property
        def none(self):
            return compute(self, "none", 0)

        @cached_property
        def flaky(self):
            return compute(self, "flaky", 2)

    @dataclasses.dataclass(frozen=True)
    class Frozen:
        ident: int

        @cached_property
        def one(self):
            return compute(self, "one", 0)

        @cached_property
        def two(self):
            return (compute(self, "two", 0), self.one)

        @cached_property
        def none(self):
            return compute(self, "none", 0)

        @cached_property
        def flaky(self):
            return compute(self, "flaky", 2)

    cls = rng.choice([Plain, Plain, Frozen])
    n_owner, n_threads = rng.randint(1, 4), rng.randint(2, 8)
    owners = [cls(k) for k in range(n_owner)]
    seen = {}
    failures = {}
    tag = f"seed {ctx.seed} history {i} {cls.__name__} x{n_owner} read by {n_threads}"

    def reader(k):
        r = random.Random(ctx.seed * 1000 + i * 10 + k)
        for _ in range(6):
            o = r.choice(owners)
            name = r.choice(["one", "one", "two", "none", "flaky"])
            try:
                v = getattr(o, name)
            except Boom:
                with lock:
                    failures[(o.ident, name)] = failures.get((o.ident, name), 0) + 1
            else:
                with lock:
                    seen.setdefault((o.ident, name), []).append(v)
            if r.random() < .3:     # short-lived owners: identities of objects are used again
                x = cls(("short", k, _))
                try:
                    a, b = x.one, x.one
                    if a is not b:
                        log.append(("changed", x.ident))
                except Boom:
                    pass

    if not spin([threading.Thread(target=reader, args=(k,)) for k in range(n_threads)], ctx, tag):
        return
    ctx.event("property_histories")
    ctx.evaluated((i, cls.__name__, n_owner, n_threads))
    ctx.check(not [e for e in log if e[0] == "overlap"], "computed-twice", f"{tag}: computed at the same time: {[e for e in log if e[0] == 'overlap']}")
    ctx.check(not [e for e in log if e[0] == "changed"], "value-changed", f"{tag}: {log}")
    for key, vs in seen.items():
        n = sum(1 for e in log if e == ("compute", key))
        f = failures.get(key, 0)
        ctx.distinct("reads", (key[1], len(vs), f))
        if len(vs) > 1:
            ctx.event("concurrent_reads")
        ctx.check(all(v is vs[0] for v in vs), "different-values", f"{tag}: {key} gave {len(set(map(id, vs)))} different values")
        ctx.check(n - f == 1, "computed-twice", f"{tag}: {key} computed {n} times ({f} failures)")
        if key[1] == "two":
            ctx.check(vs[0][1] is seen.get((key[0], "one"), [vs[0][1]])[0], "different-values", f"{tag}: value of one inside two")
    for key, f in failures.items():
        ctx.event("property_failures")
        ctx.check(key[1] == "flaky" and f <= 2, "property-failed", f"{tag}: {key} raised {f} times")


def operation_history(ctx, rng, i, promises, properties, monitors):
    """monitored operations report enter, then failed if it failed, then leave: once each, to the listener in force"""
    tag = f"seed {ctx.seed} history {i} operations"
    log = []
    lock = threading.Lock()

    class Op(monitors.MonitoredOperation):
        def __init__(self, k):
            self.k = k

    @dataclasses.dataclass
    class Ev(monitors.MonitoredEvent):
        k: int
        n: int

    def rec(*e):
        with lock:
            log.append(e)

    def enter_op(op: Op):
        rec("enter", op.k)

    def failed_op(op: Op, err):
        rec("failed", op.k, err)

    def leave_op(op: Op):
        rec("leave", op.k)

    def on_ev(ev: Ev):
        rec("event", ev.k, ev.n)

    n = rng.randint(1, 5)
    plan = [rng.choice(["ok", "fail", "async-ok", "async-fail", "async-done"]) for _ in range(n)]
    outs = [None] * n
    pool = cf.ThreadPoolExecutor(2)

    def one(k):
        kind = plan[k]
        op = Op(k)
        if kind.startswith("async"):
            ctx.event("async_operations")
            d = promises.Deferred()
            if kind == "async-done":
                d.complete(k)
            r = op.with_async(d.promise())
            if kind == "async-ok":
                pool.submit(d.complete, k)
            elif kind == "async-fail":
                pool.submit(d.fail, Boom(k))
            try:
                outs[k] = ("ok", r.result())
            except BaseException as e:  # noqa
                outs[k] = ("err", e)
            return
        try:
            with op:
                for m in range(3):
                    op.notify(Ev(k, m)) if False else Ev(k, m).notify()
                if kind == "fail":
                    raise Boom(k)
                outs[k] = ("ok", k)
        except Boom as e:
            outs[k] = ("err", e)

    with monitors.Monitor.listen(enter_op=enter_op, failed_op=failed_op, leave_op=leave_op, on_ev=on_ev):
        ok = spin([threading.Thread(target=one, args=(k,)) for k in range(n)], ctx, tag)
    pool.shutdown()
    if not ok:
        return
    before = len(log)
    with Op(99):
        Ev(99, 0).notify()
    ctx.check(len(log) == before, "listener-stays", f"{tag}: a listener is called after it was removed: {log[before:]}")
    ctx.evaluated((i, tuple(plan)))
    for k in range(n):
        ctx.event("operations")
        mine = [e for e in log if e[1] == k]
        kinds = [e[0] for e in mine if e[0] != "event"]
        fail = plan[k].endswith("fail")
        ctx.check(kinds == (["enter", "failed", "leave"] if fail else ["enter", "leave"]), "operation-events", f"{tag}: operation {k} ({plan[k]}) reported {kinds}")
        ctx.check(outs[k] and outs[k][0] == ("err" if fail else "ok") and (isinstance(outs[k][1], Boom) if fail else outs[k][1] == k), "operation-outcome", f"{tag}: operation {k} ({plan[k]}) ended with {outs[k]!r}")
        if not plan[k].startswith("async"):
            ctx.check([e[2] for e in mine if e[0] == "event"] == [0, 1, 2], "event-order", f"{tag}: events of {k}: {mine}")
            ctx.check(mine[0][0] == "enter" and mine[-1][0] == "leave", "operation-events", f"{tag}: {mine}")
