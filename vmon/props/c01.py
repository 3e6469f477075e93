"""C01: load / dump / edit histories of TOML documents judged by the standard library's TOML 1.0 reader."""
import copy
import math
import tomllib
from pathlib import Path

from vmon.core import outcome, short_tb
from vmon.tomlgen import DATES, FLOATS, INTS, QUOTED, BARE, STRINGS, Gen, lit, plain_date, same

RULE = "a case is one document (read), one data tree (written) or one edit of a loaded document, distinct by its text"


def parts(data, path=()):
    """every (path, value) below data"""
    items = data.items() if isinstance(data, dict) else enumerate(data) if isinstance(data, list) else ()
    for k, v in items:
        yield (*path, k), v
        yield from parts(v, (*path, k))


def get(data, path):
    for p in path:
        data = data[p]
    return data


def scalar(rng, TimeLiteral):
    k = rng.random()
    if k < .5:
        return rng.choice(STRINGS + ["".join(rng.choice("ab\"'\\\n\t#é\x01 []{}=.") for _ in range(rng.choice([1, 2, 3, 8])))])
    if k < .65:
        return lit(rng.choice(INTS))
    if k < .8:
        return lit(rng.choice(FLOATS + ["1e16", "1e-7", "123456789.123456789", "1e300"]))
    if k < .9:
        return rng.random() < .5
    return TimeLiteral(rng.choice(DATES))


def tree(rng, TL, depth=0):
    """random data, mixed lists and empty containers included"""
    k = rng.random()
    if depth and (depth > 3 or k < .55):
        return scalar(rng, TL)
    if depth and k < .75:
        n = rng.choice([0, 1, 2, 3])
        if rng.random() < .4:
            return [{key(rng): tree(rng, TL, depth + 2) for _ in range(rng.choice([0, 1, 2]))} for _ in range(n)]
        return [tree(rng, TL, depth + 1) for _ in range(n)]
    return {key(rng): tree(rng, TL, depth + 1) for _ in range(rng.choice([0, 1, 2, 3, 4, 7]))}


def key(rng):
    return rng.choice(BARE) if rng.random() < .7 else rng.choice(QUOTED)


def edit(rng, data, TL):
    """one edit in place; returns (kind, path, new value, paths whose comments and order may legally change)"""
    dicts = [((), data)] + [(p, v) for p, v in parts(data) if isinstance(v, dict)]
    leaves = [(p, v) for p, v in parts(data)]
    op = rng.choice(["set", "set", "del", "add", "add", "append", "pop", "replace"])
    if op in ("set", "del", "replace") and leaves:
        p, v = rng.choice(leaves)
        parent = get(data, p[:-1])
        if op == "del":
            del parent[p[-1]]
        else:
            parent[p[-1]] = scalar(rng, TL) if op == "set" else tree(rng, TL, 1)
        return op, p
    if op in ("append", "pop"):
        lists = [(p, v) for p, v in leaves if isinstance(v, list) and (v or op == "append")]
        if lists:
            p, v = rng.choice(lists)
            if op == "pop":
                v.pop(rng.randrange(len(v)))
            else:
                new = {key(rng): scalar(rng, TL)} if v and all(isinstance(x, dict) for x in v) and rng.random() < .8 else tree(rng, TL, 2)
                v.insert(rng.choice([len(v), rng.randrange(len(v) + 1)]), new)
            return op, p
    p, d = rng.choice(dicts)
    k = key(rng)
    while k in d:
        k += "x"
    d[k] = tree(rng, TL, 1)
    return "add", (*p, k)


def order(data, drop):
    """order of the keys that stay, among assignments and among tables separately, for every table that stays"""
    out = {}

    def kind(v):
        return isinstance(v, dict) or (isinstance(v, list) and bool(v) and all(isinstance(x, dict) for x in v))

    def walk(d, p):
        if isinstance(d, dict):
            out[p] = [[k for k, v in d.items() if kind(v) == want and (*p, k) not in drop] for want in (False, True)]
            for k, v in d.items():
                walk(v, (*p, k))
    walk(data, ())
    return out


def run(ctx):
    from pkm.config import toml
    TL = toml.TimeLiteral
    rng = ctx.rng
    ctx.rule = RULE
    ctx.assumptions = ["tomllib (standard library) is the reference reader", "dates and times are kept by pkm as text; they must denote the same instant",
                       "text identity (up to trailing white space) is required of documents whose sub-tables follow their table and whose dotted keys are contiguous"]
    ctx.required_events = ["documents read", "data trees written", "edits saved", "comments followed", "files saved"]

    def written(data, dumps, tag, hist):
        """dump and judge; returns the text"""
        st, text = outcome(dumps, data)
        if st == "err":
            ctx.violation(f"{tag}:dump-crash", f"writing fails with {short_tb(text)} for {hist}", history=hist)
            return None
        try:
            ref = tomllib.loads(text)
        except Exception as e:  # noqa
            ctx.violation(f"{tag}:not-toml", f"the written text is no TOML ({e}):\n{text}\n--- from {hist}", history=hist, text=text)
            return None
        if d := same(data, ref, TL):
            ctx.violation(f"{tag}:lost", f"the written text holds other data at {d}:\n{text}\n--- from {hist}", history=hist, text=text)
            return None
        st, back = outcome(toml.loads, text)
        if st == "err":
            ctx.violation(f"{tag}:reload-crash", f"pkm cannot read what it wrote: {short_tb(back)}:\n{text}", history=hist, text=text)
            return None
        if d := same(back[0], ref, TL):
            ctx.violation(f"{tag}:reload", f"pkm reads other data from what it wrote at {d}:\n{text}", history=hist, text=text)
            return None
        return text

    # ---- every literal on its own, in every place
    for kind, lits in (("int", INTS), ("float", FLOATS), ("date", DATES), ("bool", ["true", "false"])):
        for l in lits:
            for doc in (f"x = {l}", f"x={l}\n", f"x = {l} # c\n", f"x = [{l}, {l}]\n", f"x = [ {l},{l} ,\n]", f"x = {{y={l},z = {l} }}", f"[t]\nx={l}"):
                ctx.event("documents read")
                ctx.evaluated(doc, sample={"document": doc})
                st, r = outcome(toml.loads, doc)
                if st == "err":
                    ctx.violation(f"read:{kind}-crash", f"{doc!r} is rejected: {short_tb(r)}", document=doc)
                elif d := same(r[0], tomllib.loads(doc), TL):
                    ctx.violation(f"read:{kind}", f"{doc!r} is read as other data at {d}", document=doc)
                else:
                    written(r[0], r[1], "unchanged", doc)

    # ---- random documents: read, keep, edit
    more = ctx.budget(7, 420)
    n = 0
    base = Path("toml")
    base.mkdir()
    while more():
        n += 1
        g = Gen(rng, plain=n % 3 == 0).document()
        ctx.event("documents read")
        for f in g.feats:
            ctx.distinct("document features", f)
        ctx.distinct("documents", g.text)
        ctx.evaluated(g.text, sample={"document": g.text[:400]} if len(g.text) > 40 else None)
        from_file = n % 5 == 0
        if from_file:
            file = base / f"f{n % 7}.toml"
            file.write_text(g.text, encoding="utf-8")
            st, r = outcome(toml.load, file)
        else:
            st, r = outcome(toml.loads, g.text)
        if st == "err":
            ctx.violation("read:crash", f"a valid document is rejected: {short_tb(r)}\n{g.text}", document=g.text)
            continue
        data, dumps = r
        if d := same(data, g.data, TL):
            ctx.violation("read:data", f"read as other data at {d}:\n{g.text}", document=g.text)
            continue
        text = written(data, dumps, "unchanged", g.text)
        if text is None:
            continue
        if g.grouped:
            ctx.event("text identities")
            ctx.check(text.rstrip() == g.text.rstrip(), "unchanged:text", f"saving without a change alters the text:\n{g.text}\n--- becomes\n{text}", document=g.text)
        else:
            for c, _, _ in g.comments:
                ctx.check(_has(text, c), "unchanged:comment", f"saving without a change loses the comment {c}:\n{g.text}\n--- becomes\n{text}", document=g.text)

        # a second, independent reading must not be influenced by edits; several edits with a save after each
        work, changed, hist = data, set(), [g.text]
        before = order(data, set())
        for _ in range(rng.choice([1, 1, 2, 3])):
            op, path = edit(rng, work, TL)
            path = path if not any(isinstance(p, int) for p in path) else path[:next(i for i, p in enumerate(path) if isinstance(p, int))]
            changed.add(path)
            hist.append((op, path))
            ctx.event("edits saved")
            ctx.distinct("edit kinds", (op, len(path)))
            ctx.evaluated((g.text, tuple(map(str, hist[1:]))))
            text = written(work, dumps, f"edit", hist)
            if text is None:
                break
            for c, anchor, kind in g.comments:
                if anchor is not None and any(isinstance(p, int) for p in anchor):
                    anchor = anchor[:next(i for i, p in enumerate(anchor) if isinstance(p, int))]
                if anchor is not None and (any(anchor[:len(ch)] == ch or ch[:len(anchor)] == anchor and kind in ("array", "after") for ch in changed)
                                           or _displaced(changed, anchor, work, g.data)):
                    continue
                ctx.event("comments followed")
                ctx.check(_has(text, c), "edit:comment", f"the comment {c} at untouched {anchor} is lost after {hist[1:]}:\n{g.text}\n--- becomes\n{text}", history=hist)
            ref = tomllib.loads(text)
            after = order(ref, set())
            for p, (a, t) in before.items():
                if p in after and not any(isinstance(x, int) for x in p):
                    keep = {k for k in [*a, *t] if (*p, k) not in changed and not any(c[:len(p) + 1] == (*p, k) for c in changed)}
                    for i in (0, 1):
                        x = [k for k in before[p][i] if k in keep and k in after[p][i]]
                        y = [k for k in after[p][i] if k in keep and k in before[p][i]]
                        ctx.check(x == y or not g.grouped, "edit:order", f"the order of untouched keys of {p} changed from {x} to {y} after {hist[1:]}:\n{text}", history=hist)
        if from_file and text is not None:
            from pkm.config.configfiles import TomlConfigIO
            ctx.event("files saved")
            file.write_text(g.text, encoding="utf-8")
            ref = tomllib.loads(text)
            st, e = outcome(TomlConfigIO().write, file, work)
            if st == "err":
                ctx.violation("file:crash", f"saving over the file fails: {short_tb(e)}", history=hist)
            else:
                if len(hist) == 2:  # with several saves the layout of new tables depends on what was saved in between
                    ctx.check(file.read_bytes().decode("utf-8") == text, "file:text", f"the saved file differs from the document's own writer: {file.read_bytes()[-300:]!r} != {text[-300:].encode()!r} after {hist[1:]}", history=hist)
                st, back = outcome(TomlConfigIO().read, file)
                ctx.check(st == "ok" and not same(back, ref, TL), "file:reload", f"the saved file reads back as other data after {hist[1:]}", history=hist)

    # ---- data trees without a document
    more = ctx.budget(4, 240)
    while more():
        data = tree(rng, TL)
        ctx.event("data trees written")
        ctx.evaluated(repr(data), sample={"data": repr(data)[:300]})
        snapshot = copy.deepcopy(data)
        written(data, toml.dumps, "data", repr(data))
        ctx.check(repr(data) == repr(snapshot), "data:mutated", f"writing changed the data {snapshot!r}")


def _has(text, c):
    i = -1
    while (i := text.find(c, i + 1)) >= 0:
        if not text[i + len(c):i + len(c) + 1].isdigit():
            return True
    return False


def _displaced(changed, anchor, now, before):
    """an edit may change how an enclosing array of tables or dotted group is displayed: its comments are then not followed"""
    if anchor is None:
        return False
    for i in range(1, len(anchor) + 1):
        p = anchor[:i]
        try:
            a, b = get(now, p), get(before, p)
        except (KeyError, IndexError, TypeError):
            return True
        if type(a) is not type(b) or (isinstance(a, list) and any(c[:len(p)] == p for c in changed)):
            return True
    return False
