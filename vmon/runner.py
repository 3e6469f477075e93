"""Parent process of a check: prepares a scratch directory, runs the property module in a child process that has no
privileges and no network, watches it, and turns its report into evidence, replay files and the verdict lines."""
import json
import os
import pathlib
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = pathlib.Path(__file__).resolve().parent.parent
NOBODY = 65534
LIMIT = {"quick": 600, "thorough": 5400}
MEMORY = 3 << 30
PROCESSES = 800    # and threads, of the unprivileged user


def load_known(prop: str):
    """known_findings.txt: `finding: property=<id> key=<mechanism key> :: <what fails>` (suppresses exactly that key)
    and `fixed: property=<id> <commit> <what failed>` (suppresses nothing)."""
    known = {}
    path = ROOT / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            line = line.strip()
            if line.startswith("finding:"):
                head, _, desc = line[len("finding:"):].partition("::")
                fields = dict(p.split("=", 1) for p in head.split())
                if fields.get("property") == prop:
                    known[fields["key"]] = desc.strip()
    return known


def patiently(start, *args, **kwargs):
    """processes of an earlier run may still be on their way out"""
    for _ in range(20):
        try:
            return start(*args, **kwargs)
        except BlockingIOError:
            time.sleep(1)
    return start(*args, **kwargs)


def main() -> int:
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.monotonic()
    scratch = pathlib.Path(tempfile.mkdtemp(prefix=f"vmon-{prop}-", dir="/tmp"))
    report_path = scratch / "report.json"
    env = {k: v for k, v in os.environ.items() if k in (
        "PATH", "LANG", "LC_ALL", "PYTHONDONTWRITEBYTECODE", "PYTHONHASHSEED", "PIP_NO_INDEX")}
    env.update({
        "HOME": str(scratch / "home"), "XDG_DATA_HOME": str(scratch / "data"), "TMPDIR": str(scratch / "tmp"),
        "VMON_SCRATCH": str(scratch), "VMON_PROP": prop, "VMON_TIER": tier, "VMON_SEED": str(seed),
        "VMON_LIMIT": str(LIMIT[tier]), "PYTHONPATH": str(ROOT),
    })
    for sub in ("home", "data", "tmp", "work"):
        (scratch / sub).mkdir()

    def limits():
        os.setsid()
        # code that asks for absurd amounts of memory gets an error, and the machine stays usable
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
        resource.setrlimit(resource.RLIMIT_NPROC, (PROCESSES, PROCESSES))

    def demote():
        limits()
        try:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        except OSError:
            pass

    as_nobody = os.getuid() == 0
    if as_nobody:
        for p in [scratch, *scratch.iterdir()]:
            try:
                os.chown(p, NOBODY, NOBODY)
            except OSError:
                as_nobody = False
        probe = patiently(subprocess.run, [sys.executable, "-B", "-c", f"import vmon, pkm; open({str(scratch / 'tmp/p')!r}, 'w')"],
                               env=env, cwd=str(ROOT), preexec_fn=demote if as_nobody else limits,
                               capture_output=True)
        if probe.returncode != 0:
            as_nobody = False
            for p in [scratch, *scratch.iterdir()]:
                try:
                    os.chown(p, os.getuid(), os.getgid())
                except OSError:
                    pass
    rc = None
    log = (scratch / "child.log").open("wb")
    child = patiently(
        subprocess.Popen,
        [sys.executable, "-B", "-m", "vmon.child"], env=env, cwd=str(ROOT), stdout=log, stderr=subprocess.STDOUT,
        stdin=subprocess.DEVNULL, preexec_fn=demote if as_nobody else limits)
    try:
        rc = child.wait(timeout=LIMIT[tier] + 60)
    except subprocess.TimeoutExpired:
        pass
    finally:
        try:
            os.killpg(child.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        child.wait()
        log.close()

    try:
        report = json.loads(report_path.read_text()) if report_path.exists() else None
        tail = (scratch / "child.log").read_bytes()[-6000:].decode(errors="replace")
        return finish(prop, tier, seed, start, report, rc, tail, as_nobody)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def finish(prop, tier, seed, start, report, rc, tail, as_nobody) -> int:
    if report is None:
        print(tail)
        print(f"ERROR: check {prop} gave no report (child exit {rc})")
        return 3

    known = load_known(prop)
    found = {}
    for v in report["violations"]:
        found.setdefault(v["key"], v)

    fresh = [v for k, v in found.items() if k not in known]
    cov = report["coverage"]
    cov["monitor"] = {"unprivileged_child": as_nobody, "child_exit": rc}
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": report["level"], "coverage": cov,
        "assumptions": report["assumptions"], "wall_s": round(time.monotonic() - start, 3), "violations": len(fresh),
    }
    edir = ROOT / "evidence"
    edir.mkdir(exist_ok=True)
    (edir / f"{prop}.json").write_text(json.dumps(evidence, indent=1, default=str) + "\n")

    for k, desc in known.items():
        seen = f" (observed on this run: {found[k]['msg'][:160]})" if k in found else " (not met on this run)"
        print(f"KNOWN-FINDING: property={prop} key={k} {desc}{seen}")

    if fresh:
        rdir = edir / "replay"
        rdir.mkdir(exist_ok=True)
        path = rdir / f"{prop}.json"
        path.write_text(json.dumps({"property": prop, "tier": tier, "seed": seed, "violations": fresh[:50]},
                                   indent=1, default=str) + "\n")
        for v in fresh[:10]:
            print(f"  [{v['key']}] {v['msg'][:1500]}")
        print(f"VIOLATION property={prop} replay={path.relative_to(ROOT)}")
        return 1

    if report.get("inconclusive") or rc != 0:
        print(tail)
        print(f"INCONCLUSIVE: check {prop}: {report.get('inconclusive') or f'child exit {rc}'}")
        return 3
    print(f"ok {prop} {tier} seed={seed} evaluations={cov['evaluations']} distinct={cov['distinct_nontrivial']} "
          f"wall={evidence['wall_s']}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
