"""Child process of a check: installs the containment audit hook, runs the property module and writes its report."""
import importlib
import os
import pathlib
import sys
import traceback


def main() -> int:
    from vmon import core
    ctx = core.Ctx.from_env()
    os.chdir(ctx.scratch / "work")
    core.install_containment(ctx)
    try:
        module = importlib.import_module(f"vmon.props.{ctx.prop.lower()}")
    except Exception:
        # the harness imports the code under test: if that fails the code cannot do anything the property promises
        traceback.print_exc()
        ctx.write_report("the property module could not be loaded: " + traceback.format_exc()[-800:])
        return 4
    try:
        module.run(ctx)
    except core.OutOfTime:
        ctx.write_report(None)
    except Exception as e:
        traceback.print_exc()
        last = traceback.extract_tb(e.__traceback__)[-1].filename
        if "/pkm/" in last or "/pkm_cli/" in last:
            # the code under test failed where the workload (valid by construction) requires it to succeed
            ctx.violation(f"crash:{type(e).__name__}", "unexpected failure: " + core.short_tb(e, 6))
            ctx.write_report(None)
        else:
            ctx.write_report("harness error: " + traceback.format_exc()[-1500:])
            return 4
    else:
        ctx.write_report(None)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)  # leftover threads / workers of the code under test must not delay the verdict


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
