"""Reference reading of versions and specifiers (oracle side) and generators of version/specifier texts.

The oracle is `packaging.version` for reading and ordering; specifier membership is a small evaluator written here from
the statement of the property (it shares no code with the code under test)."""
from packaging.version import InvalidVersion, Version as PV

PRE = {"a": ["a", "alpha", "A", "Alpha"], "b": ["b", "beta", "BETA"], "rc": ["rc", "c", "pre", "preview", "RC", "Pre"]}
POST = ["post", "rev", "r", "Post", "REV"]
LOCALS = ["abc", "1", "1.a", "1.10", "1.9", "ubuntu.2", "cu117", "cpu", "2", "10"]


def pv(text):
    try:
        return PV(text)
    except InvalidVersion:
        return None


def gen_parts(rng, small=False, post=True, local=True):
    n = (lambda: rng.choice([0, 0, 1, 1, 2, 3, 9, 10])) if small else (lambda: rng.choice([0, 1, 2, 3, 5, 9, 10, 11, 99, 2012, 20230101]))
    p = {}
    p["epoch"] = rng.choice([None] * 8 + [0, 1, 2])
    p["release"] = [n() for _ in range(rng.choice([1, 2, 2, 3, 3, 3, 4]))]
    p["pre"] = (rng.choice("a b rc".split()), rng.choice([0, 1, 2, 10])) if rng.random() < .3 else None
    p["post"] = rng.choice([0, 1, 2, 10]) if post and rng.random() < .2 else None
    p["dev"] = rng.choice([0, 1, 2, 10]) if rng.random() < .25 else None
    p["local"] = rng.choice(LOCALS) if local and rng.random() < .2 else None
    return p


def canonical(p):
    s = "" if p["epoch"] is None else f"{p['epoch']}!"
    s += ".".join(map(str, p["release"]))
    if p["pre"]:
        s += f"{p['pre'][0]}{p['pre'][1]}"
    if p["post"] is not None:
        s += f".post{p['post']}"
    if p["dev"] is not None:
        s += f".dev{p['dev']}"
    if p["local"]:
        s += f"+{p['local']}"
    return s


def spell(rng, p):
    """a random accepted PEP 440 spelling of the version"""
    sep = lambda: rng.choice(["", "", ".", "-", "_"])

    def num(n):
        if n == 0 and rng.random() < .4:
            return ""
        s = ("0" if rng.random() < .1 else "") + str(n)
        return sep() + s

    s = rng.choice(["", "", "", "v", "V"])
    if p["epoch"] is not None:
        s += f"{p['epoch']}!"
    s += ".".join(("0" if rng.random() < .05 else "") + str(x) for x in p["release"])
    if p["pre"]:
        s += sep() + rng.choice(PRE[p["pre"][0]]) + num(p["pre"][1])
    if p["post"] is not None:
        if rng.random() < .2:
            s += f"-{p['post']}"
        else:
            s += sep() + rng.choice(POST) + num(p["post"])
    if p["dev"] is not None:
        s += sep() + rng.choice(["dev", "DEV", "Dev"]) + num(p["dev"])
    if p["local"]:
        loc = "".join(rng.choice("-_..") if c == "." else c for c in p["local"])
        s += "+" + (loc.upper() if rng.random() < .2 else loc)
    if rng.random() < .15:
        s = rng.choice([" ", "\t", "  "]) + s
    if rng.random() < .15:
        s += rng.choice([" ", "\n", "  "])
    return s


# ------------------------------------------------------------------------------------------------ specifiers
class Clause:
    """one clause; `text` is what the code under test reads, admits(v) is the reference membership of a PV"""

    def __init__(self, op, version, wild=False, star=False):
        self.op, self.version, self.wild, self.star = op, version, wild, star
        self.v = PV(version) if not star else None

    def text(self, rng=None):
        if self.star:
            return "*"
        sp = rng.choice(["", "", " "]) if rng else ""
        return f"{self.op}{sp}{self.version}{'.*' if self.wild else ''}"

    def _upper(self):
        """the next version of the prefix"""
        rel = list(self.v.release)
        if self.op == "~=":
            rel = rel[:-2] + [rel[-2] + 1]
        else:
            rel = rel[:-1] + [rel[-1] + 1]
        return PV(f"{self.v.epoch}!" + ".".join(map(str, rel)))

    def _in_range(self, v, lo, hi, ilo, ihi):
        if (lo is not None and ilo and v == lo) or (hi is not None and ihi and v == hi):
            return True
        if v.post is not None and (lo is None or lo.post is None):
            return False  # documented: ranges leave post-releases out unless they start at one
        return (lo is None or lo < v) and (hi is None or v < hi)

    def admits(self, v):
        if self.star:
            return True
        op, mine = self.op, self.v
        if self.wild or op == "~=":
            inside = self._in_range(v, mine, self._upper(), True, False)
            if op == "!=":
                # complement of an interval: below or above it
                return self._in_range(v, None, mine, False, False) or self._in_range(v, self._upper(), None, True, False)
            return inside
        if op in ("==", "!=", "==="):
            c = v if mine.local else PV(v.public)
            return (c == mine) == (op != "!=")
        if op[0] == ">":
            return self._in_range(v, mine, None, op == ">=", False)
        return self._in_range(v, None, mine, False, op == "<=")


def gen_clause(rng, pool, ops=None, local_ok=True, prefix_pool=("0", "1", "2", "1.0", "1.1", "0.9", "1.0.1", "2.0", "1!0")):
    op = rng.choice(ops or ["==", "!=", "<", "<=", ">", ">=", "~=", "==.*", "!=.*", "!=", ">=", "<", "*", "==="])
    if op == "*":
        return Clause("*", None, star=True)
    if op.endswith(".*"):
        return Clause(op[:2], rng.choice(prefix_pool), wild=True)
    for _ in range(50):
        v = rng.choice(pool)
        p = PV(v)
        if p.local and (op not in ("==", "!=") or not local_ok):
            continue
        if op == "~=" and len(p.release) < 2:
            continue
        return Clause(op, v)
    return Clause(">=", "1.0")
