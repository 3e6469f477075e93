"""U01: lines rendered from chosen values are parsed by the real command line parser and compared with these values."""
import contextlib
import copy
import io
import pathlib
import string
from typing import Optional

from vmon.core import short_tb

HOSTILE = ["", " ", "a b", "-", "--", "-x", "--name", "+f", "=", "a=b", "=a", "--x=1", "\u00e9\u4e2d", "new\nline", "'q'", '"', "*", "$HOME",
           "%s", "{0}", "0", "None", "a,b", "\\", "x" * 300, "-5", "help", " pad ", "\t"]
TYPES = {"str": str, "int": int, "float": float, "path": pathlib.Path}
RESERVED = {"help"}


def bad(ctx):
    return sum(ctx._vkeys.values())


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.n = 0

    def word(self):
        self.n += 1
        r = self.r
        return r.choice("abcdefgijklmnopqrstuvwyz") + "".join(r.choice(string.ascii_lowercase) for _ in range(r.randint(1, 4))) + str(self.n)

    def long(self):
        return "--" + self.word() + (("-" + self.word()) if self.r.random() < .3 else "")

    def value(self, kind, free=True, plus_ok=True):
        """-> (value, text); free: any text, else text that can not be taken for an option, a field or a command"""
        r = self.r
        if isinstance(kind, tuple):
            v = r.choice(kind)
            return v, v
        if kind == "int":
            v = r.choice([0, 7, 10 ** 20, r.randrange(10 ** 6)] + ([-3] if free else []))
            return v, str(v)
        if kind == "float":
            v = r.choice([0.5, 1e300, float(r.randrange(1000))])
            return v, repr(v)
        while True:
            t = r.choice(HOSTILE) if r.random() < .6 else self.word()
            if t.startswith("+") and not plus_ok:
                continue
            if not free and t != "-" and t[:1] in ("-", "+"):
                continue
            return (pathlib.Path(t), t) if kind == "path" else (t, t)

    def kind(self):
        r = self.r
        x = r.random()
        if x < .5:
            return "str"
        if x < .65:
            return "int"
        if x < .72:
            return "float"
        if x < .82:
            return "path"
        return tuple(self.word() for _ in range(r.randint(1, 4)))


class Arg:
    """declared argument: what = flag | option | pos"""

    def __init__(self, what, names, kind="str", default=None, required=True, repeatable=False, mutex=None, fields=None, nvalues=1):
        self.what, self.names, self.kind, self.default, self.required = what, names, kind, default, required
        self.repeatable, self.mutex, self.fields, self.nvalues = repeatable, mutex, fields, nvalues

    @property
    def field(self):
        for n in self.names:
            if n.startswith("--") or not n.startswith("-"):
                return n.lstrip("-+").replace("-", "_")
        return self.names[0].lstrip("-").replace("-", "_")

    def shorts(self):
        return [n for n in self.names if n[0] == "-" and n[1] != "-"]

    def longs(self):
        return [n for n in self.names if n.startswith("--")]

    def build(self, cp):
        reader = None
        if self.what != "flag":
            reader = cp.ChoicesReader(list(self.kind)) if isinstance(self.kind, tuple) else TYPES[self.kind]
        kw = {}
        if self.fields is not None:
            kw["fields"] = [f.build(cp) for f in self.fields]
        sep = ", " if len(self.names) % 2 else ","
        if self.what == "flag":
            return cp.flag(sep.join(self.names), help=f"text of {self.names[0]}", mutex_group=self.mutex, **kw)
        if not self.required:
            kw["default"] = self.default
        if self.what == "option":
            return cp.option(sep.join(self.names), help=f"text of {self.names[0]}", reader=reader, repeatable=self.repeatable,
                             mutex_group=self.mutex, **kw)
        return cp.positional(self.names[0], n_values=self.nvalues, reader=reader, **kw)

    def absent(self):
        return False if self.what == "flag" else self.default


def gen_fields(g):
    out = []
    for _ in range(g.r.randint(0, 3)):
        n = "+" + g.word()
        if g.r.random() < .3:
            out.append(Arg("flag", [n], required=False, default=False))
        else:
            req = g.r.random() < .5
            out.append(Arg("option", [n], g.kind(), required=req, default=g.r.choice([None, "dflt", 3, []]), repeatable=g.r.random() < .25))
    return out


class Node:
    def __init__(self, path, defined, args, children):
        self.path, self.defined, self.args, self.children = path, defined, args, children

    def options(self):
        return [a for a in self.args if a.what != "pos"]

    def positionals(self):
        return [a for a in self.args if a.what == "pos"]


def gen_args(g, leaf):
    r = g.r
    letters = [c for c in string.ascii_letters if c != "h"]
    r.shuffle(letters)
    args = []
    mutexes = [g.word() for _ in range(2)] if r.random() < .4 else []
    for _ in range(r.randint(0, 6)):
        names = []
        if r.random() < .7:
            names.append("-" + letters.pop())
        if not names or r.random() < .6:
            names.append(g.long())
        r.shuffle(names)
        mutex = r.choice(mutexes) if mutexes and r.random() < .6 else None
        fields = gen_fields(g) if r.random() < .2 else None
        if r.random() < .45:
            args.append(Arg("flag", names, required=False, default=False, mutex=mutex, fields=fields))
        else:
            req = r.random() < .3 and not mutex
            args.append(Arg("option", names, g.kind(), required=req, default=r.choice([None, "dflt", 3]), repeatable=r.random() < .25,
                            mutex=mutex, fields=fields))
    pos = []
    n = r.randint(0, 3)
    optional_from = r.randint(0, n) if r.random() < .4 else n
    for i in range(n):
        nv = 1
        if r.random() < .2:
            nv = r.choice([2, 3])
        if leaf and i == n - 1 and r.random() < .4:
            nv = "*"
        fields = gen_fields(g) if r.random() < .15 else None
        pos.append(Arg("pos", [g.word() + r.choice(["", "-x"])], g.kind(), required=i < optional_from, default=r.choice([None, "dflt", []]),
                       fields=fields, nvalues=nv))
    args += pos
    order = list(args)
    # positional order among themselves is what counts; options may be declared anywhere
    r.shuffle(order)
    it = iter(pos)
    return [a if a.what != "pos" else next(it) for a in order]


def gen_tree(g, path=(), depth=0):
    r = g.r
    nchild = r.choice([1, 2, 3]) if depth == 0 else (0 if depth >= 3 else r.choice([0, 0, 1, 2]))
    defined = nchild == 0 or r.random() < .7
    node = Node(path, defined, gen_args(g, nchild == 0) if defined else [], {})
    for _ in range(nchild):
        name = g.word()
        node.children[name] = gen_tree(g, (*path, name), depth + 1)
    return node


def defs_of(node, cp, log):
    out = []

    def make(n):
        if g_like(n.path):
            def run(cmd):
                log.append(n.path)
                yield
        else:
            def run(cmd):
                log.append(n.path)
                return ("ran", n.path)
        run.__doc__ = "what " + "/".join(n.path) + " does"
        return cp.command(" ".join(n.path), *[a.build(cp) for a in n.args])(run)

    fns = {}

    def walk(n):
        if n.defined:
            fns["/".join(n.path) or "root"] = make(n)
        for c in n.children.values():
            walk(c)
    walk(node)
    return cp.command_definitions_from(fns)


def g_like(path):
    return len(path) % 2 == 1 and path[-1][-1] in "13579"


class Line:
    """tokens with the structure they were rendered from"""

    def __init__(self):
        self.units = []          # (node index, kind, arg, tokens)

    def tokens(self):
        return [t for u in self.units for t in u[3]]


def render_fields(g, fields):
    """-> (values, tokens)"""
    r = g.r
    values, units = {}, []
    for f in fields:
        given = f.required or r.random() < .6
        if not given:
            values[f.field] = f.absent()
            continue
        if f.what == "flag":
            values[f.field] = True
            units.append([f.names[0]])
            continue
        times = r.randint(1, 3) if f.repeatable else 1
        got = []
        for _ in range(times):
            v, t = g.value(f.kind)
            got.append(v)
            units.append([f"{f.names[0]}={t}"] if r.random() < .5 else [f.names[0], t])
        values[f.field] = got if f.repeatable else got[0]
    # repetitions keep their order
    order = list(range(len(units)))
    r.shuffle(order)
    by_name = {}
    for u in units:
        by_name.setdefault(u[0].split("=")[0], []).append(u)
    toks = []
    for i in order:
        toks += by_name[units[i][0].split("=")[0]].pop(0)
    return values, toks


def render_option(g, a, flags_before=()):
    """one use of the option -> (value, tokens); flags_before: single letters of plain flags put in front"""
    r = g.r
    name = r.choice(a.names)
    if a.what == "flag":
        v, toks = True, [name]
    else:
        v, t = g.value(a.kind)
        toks = [f"{name}={t}"] if r.random() < .5 else [name, t]
    if flags_before:
        toks[0] = "-" + "".join(flags_before) + toks[0][1:]
    if a.fields is not None:
        fv, ft = render_fields(g, a.fields)
        v = {"value": v, **fv}
        toks += ft
    return v, toks


def choose(g, tree):
    """-> (Line, [(node, expected arguments)])"""
    r = g.r
    line, levels = Line(), []
    node = tree
    while True:
        last = not node.children or (node.defined and r.random() < .3)
        level = len(levels)
        expected = {"help": False}
        units = []                         # option units
        used_mutex = set()
        plain = []
        for a in node.options():
            given = a.required or r.random() < .55
            if a.mutex and given:
                if a.mutex in used_mutex:
                    given = False
                else:
                    used_mutex.add(a.mutex)
            if not given:
                expected[a.field] = a.absent()
                continue
            if a.what == "flag" and a.fields is None and a.shorts() and r.random() < .7:
                expected[a.field] = True
                plain.append(a)
                continue
            got = []
            for _ in range(r.randint(1, 3) if a.repeatable else 1):
                v, toks = render_option(g, a)
                got.append(v)
                units.append(["option", a, toks])
            expected[a.field] = got if a.repeatable else got[0]
        # grouped short flags, alone or in front of a short option
        r.shuffle(plain)
        while plain:
            k = r.randint(1, len(plain))
            group, plain = plain[:k], plain[k:]
            letters = [r.choice(a.shorts())[1] for a in group]
            hosts = [u for u in units if u[1].what == "option" and u[2][0][0] == "-" and u[2][0][1] != "-" and len(u) == 3]
            if hosts and r.random() < .5:
                u = r.choice(hosts)
                u[2][0] = "-" + "".join(letters) + u[2][0][1:]
                u.append(True)
            else:
                units.append(["group", group[0], ["-" + "".join(letters)]])
        if r.random() < .05:
            expected["help"] = True
            units.append(["help", None, [r.choice(["-h", "--help"])]])
        # order: repetitions of one option keep theirs
        idx = list(range(len(units)))
        r.shuffle(idx)
        queues = {}
        for u in units:
            queues.setdefault(id(u[1]), []).append(u)
        units = [queues[id(units[i][1])].pop(0) for i in idx]
        # positionals
        pos_units = []
        stop = False
        for a in node.positionals():
            given = not stop and (a.required or r.random() < .6)
            if not given:
                stop = True
                expected[a.field] = a.default
                continue
            n = r.randint(1, 5) if a.nvalues == "*" else a.nvalues
            vals, toks = [], []
            for i in range(n):
                free = i > 0
                while True:
                    v, t = g.value(a.kind, free=free, plus_ok=a.fields is None)
                    if free or t not in node.children:
                        break
                toks.append(t)
                if a.fields is not None:
                    fv, ft = render_fields(g, a.fields)
                    v = {"value": v, **fv}
                    toks += ft
                vals.append(v)
            expected[a.field] = vals if a.nvalues != 1 else vals[0]
            pos_units.append(["pos", a, toks])
        greedy = pos_units and pos_units[-1][1].nvalues == "*"
        tail = [pos_units.pop()] if greedy else []
        merged = []
        a_, b_ = list(units), list(pos_units)
        while a_ or b_:
            merged.append((a_ if a_ and (not b_ or r.random() < len(a_) / (len(a_) + len(b_))) else b_).pop(0))
        merged += tail
        if node.path:
            line.units.append((level, "name", None, [node.path[-1]]))
        for u in merged:
            line.units.append((level, u[0], u[1], list(u[2])))
        levels.append((node, expected))
        if last:
            return line, levels
        node = node.children[r.choice(list(node.children))]


def parse(cp, defs, tokens):
    """-> (command, error)"""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            return cp.DynamicCommandLine.create(defs, tokens).parse(), None
    except Exception as e:
        return None, e


def describe(levels):
    return [(" ".join(n.path), [(a.what, a.names, str(a.kind), a.nvalues, a.repeatable, a.required,
                                 [f.names[0] for f in a.fields] if a.fields is not None else None) for a in n.args]) for n, _ in levels]


def same(a, b):
    return type(a) is type(b) and (a == b) if not isinstance(a, dict) else \
        isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)


def check_line(ctx, cp, defs, log, line, levels):
    toks = line.tokens()
    given = list(toks)
    cmd, err = parse(cp, defs, toks)
    ctx.event("lines parsed")
    replay = dict(line=given, declared=describe(levels))
    ctx.evaluated(("valid", *given), " ".join(given)[:200])
    if err is not None:
        return ctx.violation("valid-line-raises", f"parsing a valid line raised {short_tb(err)}", **replay)
    if cmd.parse_error:
        return ctx.violation("valid-line-rejected", f"a valid line is rejected: {cmd.parse_error}", **replay)
    got = [*cmd.parents(), cmd]
    if tuple(cmd.path) != levels[-1][0].path or len(got) != len(levels):
        return ctx.violation("wrong-command", f"parsed to command {cmd.path} with {len(got)} levels", **replay)
    for c, (node, expected) in zip(got, levels):
        if not same(dict(c.arguments), expected):
            diff = {k: (c.arguments.get(k, "<none>"), expected.get(k, "<none>")) for k in {*c.arguments, *expected}
                    if k not in c.arguments or k not in expected or not same(c.arguments[k], expected[k])}
            return ctx.violation("wrong-arguments", f"arguments of '{' '.join(node.path)}' (got, chosen): {str(diff)[:400]}", **replay)
        ctx.event("levels compared")
    if toks != given:
        return ctx.violation("line-changed", f"parsing changed the caller's list to {toks}", **replay)
    # attribute access: the own argument, else the nearest parent's
    for i, (node, expected) in enumerate(levels):
        for k, v in expected.items():
            if any(k in e for _, e in levels[i + 1:]):
                continue
            ctx.check(same(getattr(cmd, k), v), "attribute", f"cmd.{k} is {getattr(cmd, k)!r}, the line says {v!r}", **replay)
    if len(levels) % 2:
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                cmd.print_help()
        except Exception as e:
            return ctx.violation("help-fails", f"print_help raised {short_tb(e)}", **replay)
        ctx.event("helps printed")
        node = levels[-1][0]
        for a in node.args:
            missing = [n for n in a.names if n not in out.getvalue()]
            ctx.check(not missing, "help-incomplete", f"the help does not mention {missing}", **replay)
        for c in node.children:
            ctx.check(c in out.getvalue(), "help-incomplete", f"the help does not mention sub-command {c}", **replay)
    # execution: every defined command on the way, outermost first, each once
    log.clear()
    try:
        result = cmd.execute()
    except Exception as e:
        return ctx.violation("execute-fails", f"execute raised {short_tb(e)}", **replay)
    if hasattr(result, "send"):
        next(result, None)
    want = [n.path for n, _ in levels if n.defined]
    ctx.check(log == want, "execution", f"commands executed: {log}, on the line: {want}", **replay)
    ctx.event("commands executed", len(log))


def mutations(g, line, levels, tree):
    """lines with exactly one mistake -> (key, tokens)"""
    r = g.r
    out = []
    units = line.units
    last_level = len(levels) - 1

    def with_units(us):
        return [t for u in us for t in u[3]]

    def insert(i, toks):
        return [*with_units(units[:i]), *toks, *with_units(units[i:])]

    greedy_last = bool(units) and units[-1][1] == "pos" and units[-1][2].nvalues == "*"
    places = list(range(len(units) + (0 if greedy_last else 1)))
    if places:
        out.append(("unknown-long-option", insert(r.choice(places), ["--zzz-unknown"])))
        out.append(("unknown-long-option", insert(r.choice(places), ["--zzz-unknown=1"])))
        known = {n for lv, _ in levels for a in lv.args for n in a.names}
        free = [c for c in string.ascii_letters if f"-{c}" not in known and c != "h"]
        c = r.choice(free)
        i = r.choice(places)
        out.append(("unknown-short-option", insert(i, [f"-{c}"])))
    # a field that follows nothing that supports fields
    for i in places:
        if i == 0 or units[i - 1][1] in ("name", "group") or (units[i - 1][2] is not None and units[i - 1][2].fields is None):
            out.append(("stray-field", insert(i, ["+zzz-field=1"])))
            break
        elif units[i - 1][2] is not None and units[i - 1][2].fields is not None:
            out.append(("unknown-field", insert(i, ["+zzz-field=1"])))
            break
    for i, (lv, what, a, toks) in enumerate(units):
        rest = [*with_units(units[:i])], [*with_units(units[i + 1:])]
        if what == "option" and a.required and sum(1 for u in units if u[2] is a) == 1 and toks[0].split("=")[0] in a.names:
            out.append(("missing-required-option", [*rest[0], *rest[1]]))
        if what == "option" and a.what == "flag" and toks[0] in a.names:
            out.append(("flag-with-value", [*rest[0], toks[0] + "=1", *toks[1:], *rest[1]]))
            out.append(("flag-with-value", [*rest[0], toks[0] + "=", *toks[1:], *rest[1]]))
        if what == "group":
            out.append(("flag-with-value", [*rest[0], toks[0] + "=1", *rest[1]]))
        if what == "option" and a.what == "option" and a.fields is None and toks[0].split("=")[0] in a.names:
            name = toks[0].split("=")[0]
            if not greedy_last or i < len(units) - 1:
                if i == len(units) - 1:
                    out.append(("missing-value", [*rest[0], name]))
            bad = None
            if isinstance(a.kind, tuple):
                bad = r.choice(["zzz-no-choice", "", a.kind[0] + "x", a.kind[0].upper() + "Z"])
            elif a.kind in ("int", "float"):
                bad = r.choice(["x1", "", "1.2.3", "0x"])
            if bad is not None:
                out.append(("illegal-value", [*rest[0], f"{name}={bad}", *rest[1]]))
                out.append(("illegal-value", [*rest[0], name, bad, *rest[1]]))
            others = [o for o in levels[lv][0].options() if o is not a and o.what == "option" and o.shorts()]
            if others and a.shorts():
                out.append(("two-values-in-group", [*rest[0], f"-{r.choice(others).shorts()[0][1]}{a.shorts()[0][1]}", "v", *rest[1]]))
            if a.mutex:
                rivals = [o for o in levels[lv][0].options() if o is not a and o.mutex == a.mutex and not o.fields]
                if rivals:
                    o = r.choice(rivals)
                    extra = [o.names[0]] if o.what == "flag" else [o.names[0], g.value(o.kind)[1]]
                    both = [extra, toks]
                    r.shuffle(both)
                    out.append(("mutual-exclusive", [*rest[0], *both[0], *both[1], *rest[1]]))
        if what in ("option", "pos") and a.fields:
            req = [f for f in a.fields if f.required and f.what == "option"]
            if req and a.nvalues == 1:
                out.append(("missing-field", [*rest[0], *strip_field(toks, req[0], a), *rest[1]]))
            fl = [f for f in a.fields if f.what == "flag" and f.names[0] in toks[1:]]
            if fl and a.nvalues == 1:
                j = toks.index(fl[0].names[0], 1)
                # the same text may be the value of another field: only when it is certainly the flag itself
                if toks.count(fl[0].names[0]) == 1:
                    out.append(("flag-with-value", [*rest[0], *toks[:j], toks[j] + "=1", *toks[j + 1:], *rest[1]]))
        if what == "pos" and a.nvalues == 1 and a.fields is None:
            if isinstance(a.kind, tuple) or a.kind in ("int", "float"):
                out.append(("illegal-value", [*rest[0], "zzz-no-value", *rest[1]]))
        if what == "pos" and isinstance(a.nvalues, int) and a.nvalues > 1 and a.fields is None and i == len(units) - 1 and lv == last_level:
            out.append(("missing-positional", [*rest[0], *toks[:-1]]))
        if what == "pos" and a.required and a.nvalues == 1 and lv == last_level and all(u[1] != "pos" for u in units[i + 1:]):
            if [p for p in levels[lv][0].positionals() if p.required][-1] is a:
                out.append(("missing-positional", [*rest[0], *rest[1]]))
    if not greedy_last:
        node, expected = levels[-1]
        given = [u for u in units if u[0] == last_level and u[1] == "pos"]
        if len(given) == len(node.positionals()):
            out.append(("surplus-value", [*line.tokens(), "zzz-surplus"]))
            if not node.children:
                out.append(("surplus-value", [*line.tokens(), ""]))
                out.append(("surplus-value", [*line.tokens(), "-"]))
    # a path that leads to nothing that can be run
    undefined = []

    def walk(n):
        if not n.defined and n.path and all(p.defined is False or not p.args for p in chain(tree, n.path)):
            undefined.append(n.path)
        for c in n.children.values():
            walk(c)
    walk(tree)
    if undefined:
        out.append(("no-such-command", list(r.choice(undefined))))
    if not tree.args:
        out.append(("no-such-command", ["zzz-command"]))
    return out


def chain(tree, path):
    out, n = [tree], tree
    for p in path[:-1]:
        n = n.children[p]
        out.append(n)
    return out


def strip_field(toks, f, a):
    """the tokens of a unit without the uses of field f"""
    head = 1 if a.what == "pos" or a.what == "flag" or "=" in toks[0] else 2
    out, i = toks[:head], head
    fields = {x.names[0]: x for x in a.fields}
    while i < len(toks):
        name = toks[i].split("=")[0]
        n = 1 if "=" in toks[i] or fields[name].what == "flag" else 2
        if name != f.names[0]:
            out += toks[i:i + n]
        i += n
    return out


def check_wrong(ctx, cp, defs, log, key, toks, levels):
    log.clear()
    cmd, err = parse(cp, defs, list(toks))
    ctx.event("wrong lines parsed")
    ctx.evaluated((key, *toks), f"{key}: " + " ".join(toks)[:200])
    replay = dict(line=list(toks), mistake=key, declared=describe(levels))
    if err is not None:
        ctx.check(isinstance(err, (IOError, ValueError)), f"crash:{key}", f"a line with a mistake ({key}) raised {short_tb(err)}", **replay)
        return
    if cmd.parse_error is None:
        ctx.violation(f"accepted:{key}", f"a line with a mistake ({key}) is accepted as {cmd.path} {str(cmd.arguments)[:300]}", **replay)
        return
    ran = None
    try:
        ran = cmd.execute()
    except Exception:
        pass
    else:
        ctx.violation(f"runs:{key}", f"execute of a rejected line did not raise (returned {ran!r})", **replay)
    ctx.check(not log, f"runs:{key}", f"a rejected line executed {log}", **replay)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            cmd.print_help()
    except Exception as e:
        ctx.violation("help-fails", f"print_help of a rejected line raised {short_tb(e)}", **replay)


# ---- commands made from functions -------------------------------------------------------------------------------

SIGTYPES = ["str", "int", "float", "pathlib.Path", "Optional[int]", ""]


def sig_value(g, t, free):
    k = {"int": "int", "Optional[int]": "int", "float": "float", "pathlib.Path": "path"}.get(t, "str")
    return g.value(k, free=free)


def gen_function(g, varargs=True):
    r = g.r
    pos = [(g.word().replace("-", "_") + r.choice(["", "_x"]), r.choice(SIGTYPES)) for _ in range(r.randint(0, 3))]
    first_default = r.randint(0, len(pos)) if r.random() < .5 else len(pos)
    var = (g.word(), r.choice(SIGTYPES[:-2])) if varargs and r.random() < .4 else None
    kws = [(g.word() + r.choice(["", "_y"]), r.choice([*SIGTYPES, "bool"]), r.random() < .5) for _ in range(r.randint(0, 3))]
    ns = {"pathlib": pathlib, "Optional": Optional}
    parts = []
    defaults = {}
    for i, (n, t) in enumerate(pos):
        d = ""
        if i >= first_default:
            defaults[n] = r.choice([None, 5, "d"])
            d = f" = {defaults[n]!r}"
        parts.append(f"{n}{': ' + t if t else ''}{d}")
    if var:
        parts.append(f"*{var[0]}: {var[1]}")
    elif kws:
        parts.append("*")
    for n, t, d in kws:
        if t == "bool":
            defaults[n] = False
            parts.append(f"{n}: bool = False")
        elif d:
            defaults[n] = r.choice([None, 5, "d"])
            parts.append(f"{n}{': ' + t if t else ''} = {defaults[n]!r}")
        else:
            parts.append(f"{n}{': ' + t if t else ''}")
    names = [n for n, _ in pos] + ([var[0]] if var else []) + [n for n, _, _ in kws]
    doc = "does it\n\n" + "\n".join(f":param {n}: text of {n}" for n in names) + "\n:return: all\n"
    src = f"def made({', '.join(parts)}):\n    '''{doc}'''\n    return dict({', '.join(f'{n}={n}' for n in names)})\n"
    exec(src, ns)
    return ns["made"], src, pos, var, kws, defaults


def functions(ctx, cp, mp):
    rng = ctx.sub_rng("functions")
    more = ctx.budget(6, 90)
    for i in range(ctx.pick(400, 6000)):
        if not more() or bad(ctx) > 6:
            break
        g = Gen(rng)
        fn, src, pos, var, kws, defaults = gen_function(g)
        path = g.word()
        replay = dict(function=src)
        try:
            cdef = mp.command_definition_from_method(fn, f"tool {path}")
        except Exception as e:
            ctx.violation("function-command", f"no command could be made: {short_tb(e)}", **replay)
            continue
        expected, toks, ended = {}, [], False
        n_given = 0
        for n, t in pos:
            if n in defaults and (ended or rng.random() < .5):
                expected[n] = defaults[n]
                ended = True
                continue
            v, txt = sig_value(g, t, False)
            expected[n] = v
            toks.append(("pos", [txt]))
            n_given += 1
        vals = []
        if var:
            if not ended and n_given == len(pos):
                for j in range(rng.randint(0, 3)):
                    vals.append(sig_value(g, var[1], j > 0))
            expected[var[0]] = tuple(v for v, _ in vals)
        opts = []
        for n, t, _ in kws:
            if n in defaults and rng.random() < .5:
                expected[n] = defaults[n]
                continue
            name = "--" + n.replace("_", "-")
            if t == "bool":
                expected[n] = True
                opts.append([name])
            else:
                v, txt = sig_value(g, t, True)
                expected[n] = v
                opts.append([f"{name}={txt}"] if rng.random() < .5 else [name, txt])
        rng.shuffle(opts)
        line = []
        p = [t for _, t in toks]
        while opts or p:
            line += (opts if opts and (not p or rng.random() < .5) else p).pop(0)
        line = ["tool", path, *line, *[t for _, t in vals]]
        replay["line"] = line
        ctx.evaluated(("function", src))
        cmd, err = parse(cp, [cdef], list(line))
        if err is not None or cmd.parse_error:
            ctx.violation("function-rejected", f"{short_tb(err) if err else cmd.parse_error}", **replay)
            continue
        try:
            got = cmd.execute()
        except Exception as e:
            ctx.violation("function-execute", short_tb(e), **replay)
            continue
        ctx.event("functions called")
        ctx.check(isinstance(got, dict) and got.keys() == expected.keys() and all(same(got[k], expected[k]) for k in expected), "function-arguments",
                  f"called with {str(got)[:300]}, the line says {str(expected)[:300]}", **replay)
        # a required argument left out
        req = [o for o in kws if o[0] not in defaults]
        if req:
            name = "--" + req[0][0].replace("_", "-")
            short, skip = ["tool", path, *[t[0] for _, t in toks]], name
            for n, t, _ in kws:
                if n not in defaults and "--" + n.replace("_", "-") != skip:
                    short.append(f"--{n.replace('_', '-')}={sig_value(g, t, True)[1]}")
            if not var and len(toks) == len([1 for n, _ in pos if n not in defaults]):
                cmd, err = parse(cp, [cdef], short)
                ctx.evaluated(("function-missing", src))
                ctx.check(err is not None or cmd.parse_error is not None, "accepted:function-missing",
                          f"accepted without required {skip}", function=src, line=short)
        # as fields of an argument
        fn2, src2, pos, var, kws, defaults = gen_function(g, varargs=False)
        replay = dict(function=src2)
        try:
            fields = mp.fields_from_method(fn2)
        except Exception as e:
            ctx.violation("function-fields", f"no fields could be made: {short_tb(e)}", **replay)
            continue
        expected, opts = {}, []
        for n, t, *_ in [*pos, *kws]:
            if n in defaults and rng.random() < .5:
                expected[n] = defaults[n]
                continue
            name = "+" + n.replace("_", "-")
            if t == "bool":
                expected[n] = True
                opts.append([name])
            else:
                v, txt = sig_value(g, t, True)
                expected[n] = v
                opts.append([f"{name}={txt}"] if rng.random() < .5 else [name, txt])
        rng.shuffle(opts)
        line = ["c", "--with", "head", *[t for o in opts for t in o]]
        replay["line"] = line
        where = rng.choice(["fields", "provider"])

        class Provider(cp.ArgumentFieldsProvider):
            def provide(self, cmd, arg, value):
                return list(fields)
        opt = cp.option("--with", **({"fields": fields} if where == "fields" else {"fields_provider": Provider()}), default=None)
        got = []
        cdef = cp.CommandDef(["c"], lambda cmd: got.append(cmd.arguments["with"]), [opt])
        cmd, err = parse(cp, [cdef], line)
        ctx.evaluated(("fields", src2))
        if err is not None or cmd.parse_error:
            ctx.violation("fields-rejected", f"{short_tb(err) if err else cmd.parse_error}", **replay)
            continue
        cmd.execute()
        d = dict(got[0])
        ctx.check(d.pop("value", None) == "head" and d.keys() == expected.keys() and all(same(d[k], expected[k]) for k in d), "fields-arguments",
                  f"fields read as {str(d)[:300]}, the line says {str(expected)[:300]}", **replay)


# ---- dynamic commands and arguments -----------------------------------------------------------------------------

def dynamics(ctx, cp):
    rng = ctx.sub_rng("dynamic")
    more = ctx.budget(4, 60)
    for i in range(ctx.pick(300, 5000)):
        if not more() or bad(ctx) > 6:
            break
        g = Gen(rng)
        log = []
        names = [g.word() for _ in range(3)]

        @cp.command("tool", cp.flag("-v, --verbose"))
        def tool(cmd):
            log.append(("tool", cmd.verbose))

        @cp.dynamic_commands("tool run")
        def run(cmd, nxt):
            @cp.command("", cp.positional("all", n_values="*", default=[]))
            def everything(cmd):
                log.append(("all", cmd.all))
            return cp.command_definitions_from([everything])

        @cp.dynamic_commands("tool new")
        def new(cmd, nxt):
            def mk(n):
                @cp.command(n, cp.option("-n, --name", default="none"), cp.positional("where"))
                def one(cmd):
                    log.append((n, cmd.name, cmd.where))
                return one
            return cp.command_definitions_from([mk(n) for n in names])

        def provider(cmd):
            return [cp.positional(n) for n in cmd.how.split(",") if n]

        @cp.command("tool dyn", cp.option("-n, --name", default="none"), cp.positional("how"), cp.dynamic(provider), cp.positional("end"))
        def dyn(cmd):
            log.append({k: v for k, v in cmd.arguments.items() if k not in ("help", "name")})

        @cp.command("tool first", cp.dynamic(lambda cmd: [cp.positional(n) for n in names]))
        def first(cmd):
            log.append({k: v for k, v in cmd.arguments.items() if k != "help"})

        defs = cp.command_definitions_from([tool, run, new, dyn, first])
        verbose = rng.random() < .3
        head = ["tool", *(["-v"] if verbose else [])]
        which = rng.choice(["run", "new", "dyn", "first"])
        wrong = False
        if which == "run":
            n = rng.randint(1, 6)
            vals = [g.value("str", free=j > 0)[1] for j in range(n)]
            line, want = [*head, "run", *vals], ("all", vals)
        elif which == "new":
            n = rng.choice(names)
            w = g.value("str", free=False)[1]
            nm = g.value("str")[1]
            opts = rng.choice([[], ["-n", nm], [f"--name={nm}"]])
            pre = rng.random() < .5
            line, want = [*head, "new", n, *(opts if pre else []), w, *([] if pre else opts)], (n, nm if opts else "none", w)
            wrong = rng.random() < .3
            if wrong:
                line = rng.choice([[*head, "new", "zzz", w], [*head, "new", n], [*line, "zzz"], [*head, "new", "--zzz", n, w], [*line, "--zzz=1"]])
        elif which == "dyn":
            hows = [g.word() for _ in range(rng.randint(0, 3))]
            vals = {h: g.value("str", free=False)[1] for h in [*hows, "end"]}
            line, want = [*head, "dyn", ",".join(hows), *vals.values()], {"how": ",".join(hows), **vals}
            wrong = rng.random() < .3
            if wrong:
                line = line[:-1] if rng.random() < .5 else [*line, "zzz"]
        else:
            vals = {h: g.value("str", free=False)[1] for h in names}
            line, want = [*head, "first", *vals.values()], vals
        cmd, err = parse(cp, defs, list(line))
        replay = dict(line=line, kind=which)
        ctx.evaluated((which, wrong, *line), " ".join(line)[:150])
        ctx.event("dynamic lines")
        failed = err or cmd.parse_error
        if wrong:
            if not failed:
                ctx.violation("accepted:dynamic", f"a wrong line is accepted as {cmd.path}", **replay)
            elif err is None:
                with contextlib.suppress(Exception):
                    cmd.execute()
                ctx.check(not log, "runs:dynamic", f"a rejected line executed {log}", **replay)
            continue
        if failed:
            ctx.violation("dynamic-rejected", short_tb(failed) if err else str(failed), **replay)
            continue
        try:
            cmd.execute()
        except Exception as e:
            ctx.violation("dynamic-execute", short_tb(e), **replay)
            continue
        ctx.check(log == [("tool", verbose), want], "dynamic-arguments", f"executed {str(log)[:300]}, the line says {want}", **replay)


def run(ctx):
    from pkm_cli.api.dynamic_cli import command_parser as cp
    from pkm_cli.api.dynamic_cli import method_parser as mp
    ctx.rule = ("the arguments of every parsed level equal the values the line was rendered from (declared defaults for the rest); every command on "
             "the line is executed once, outermost first; a line with one mistake is rejected and executes nothing")
    ctx.required_events = ["lines parsed", "levels compared", "wrong lines parsed", "functions called", "dynamic lines", "commands executed",
                           "helps printed"]
    ctx.min_evaluations = 500
    functions(ctx, cp, mp)
    dynamics(ctx, cp)
    rng = ctx.sub_rng("trees")
    more = ctx.budget(14, 400)
    for i in range(ctx.pick(900, 60000)):
        if not more() or bad(ctx) > 12:
            break
        g = Gen(rng)
        tree = gen_tree(g)
        log = []
        try:
            defs = defs_of(tree, cp, log)
        except Exception as e:
            ctx.violation("declaration", f"declaring commands raised {short_tb(e)}")
            continue
        ctx.distinct("command trees", i)
        for _ in range(4):
            line, levels = choose(g, tree)
            before = bad(ctx)
            check_line(ctx, cp, defs, log, line, levels)
            if bad(ctx) > before:
                break
            wrong = mutations(g, line, levels, tree)
            for key, toks in rng.sample(wrong, min(len(wrong), 6)):
                check_wrong(ctx, cp, defs, log, key, toks, levels)
