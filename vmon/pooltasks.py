"""tasks that K02 sends to worker processes; each leaves marks of what it did"""
import os
import signal
import subprocess
import sys
import time


def mark(d, ident, what):
    fd = os.open(os.path.join(d, f"{ident}"), os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
    os.write(fd, f"{what} {os.getpid()} {time.monotonic()}\n".encode())
    os.close(fd)


class TaskError(Exception):
    def __init__(self, a, b):     # cannot be rebuilt from its args
        super().__init__(f"{a}:{b}")


class Unloadable:
    def __reduce__(self):
        return _refuse, (1,)


def _refuse(_):
    if os.environ.get("VMON_POOL_PARENT") == str(os.getpid()):
        raise TypeError("cannot be loaded here")
    return None


class UnloadableThere:
    """can be read by whoever made it, not by a worker"""

    def __reduce__(self):
        return _refuse_there, (1,)


def _refuse_there(_):
    if os.environ.get("VMON_POOL_PARENT") != str(os.getpid()):
        raise TypeError("cannot be loaded there")
    return None


def task(d, ident, kind, *args, **kw):
    mark(d, ident, "start")
    try:
        return globals()["k_" + kind](d, ident, *args, **kw)
    finally:
        mark(d, ident, "end")


def k_echo(d, ident, value, wait=0, more=None):
    if wait:
        time.sleep(wait)
    return (ident, value, more)


def k_big(d, ident, n):
    return bytes([len(str(ident)) % 256]) * n


def k_raise(d, ident, how):
    if how == "plain":
        raise ValueError(f"failure of {ident}")
    if how == "odd":
        raise TaskError(f"failure of {ident}", 2)
    if how == "key":
        raise KeyError(f"failure of {ident}")
    raise OSError(5, f"failure of {ident}")


def k_die(d, ident, how):
    if how == "exit":
        os._exit(3)
    if how == "sysexit":
        sys.exit(4)
    if how == "kill":
        os.kill(os.getpid(), signal.SIGKILL)
    raise KeyboardInterrupt()


def k_print(d, ident, n):
    for k in range(n):
        sys.stdout.write(f"<{ident}:{k}>")
        if k % 3 == 0:
            sys.stderr.write(f"<{ident}:{k}>")
    print()
    return (ident, n)


def k_direct(d, ident):
    os.write(1, b"\x80\x04junk" * 50)
    os.write(2, b"\x80\x04junk" * 50)
    subprocess.run(["sh", "-c", "echo out; echo err >&2; cat"])
    return (ident, "direct", os.read(0, 10))


def k_badresult(d, ident, n):
    return [b"x" * n, lambda: 1]


def k_unloadable(d, ident, n):
    return [b"x" * n, Unloadable(), b"y" * n]
