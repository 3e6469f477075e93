"""random TOML 1.0 documents in many spellings; comparison of pkm's data with tomllib's"""
import datetime as dt
import math
import tomllib

BARE = ["a", "b", "key", "name", "x-y", "under_score", "A1", "1234", "version", "dependencies", "3", "-", "_", "true", "inf", "project", "Key", "k9"]
QUOTED = ["", " ", "a.b", "quo\"te", "back\\slash", "ʎǝʞ", "sp ace", "hash#tag", "br[ack]et", "eq=ual", "tab\there", "it's", "new\nline", "é", "a,b", "{}"]
STRINGS = ["", "a", "hello world", "with \"quotes\"", "it's", "back\\slash", "C:\\Users\\x", "tab\there", "line1\nline2", "\nleading", "trailing\n", "ünïcödé ✓", "😀", "a # b", "[x]", "{y}",
           "=", "ends with \\", "\\", "\"", "''", "'", "\\u0041", "%s %d", "${x}", "\x7f", "\x00", "\x1b[0m", "\x08\x0c\r", "a\r\nb", "   ", "a = 1", "]", "'''", '"""', "x" * 60, ">=1.0, <2",
           "\\n", "{", "true", "1", "\x85", "\u2028", "-", "a,b", "\ufeff", "tail\\\\"]
INTS = ["0", "1", "-1", "+5", "42", "1_000", "-1_2_3", "9223372036854775807", "-9223372036854775808", "0x1F", "0xdead_beef", "0o755", "0b1101", "0xE0", "+0", "-0", "99", "123_456"]
FLOATS = ["1.0", "-0.5", "+1.5", "3.1415", "1e6", "1E-3", "-2e+2", "6.62e-34", "1_000.5", "inf", "-inf", "+inf", "nan", "-nan", "0.0", "-0.0", "1e0_1", "9_0.5e1", "5e+22", "224_617.445_991_228"]
DATES = ["1979-05-27T07:32:00Z", "1979-05-27T00:32:00-07:00", "1979-05-27T00:32:00.999999+01:00", "1979-05-27 07:32:00Z", "1979-05-27T07:32:00", "1979-05-27T00:32:00.5", "1979-05-27", "07:32:00",
         "00:32:00.999999", "2000-02-29", "1979-05-27t07:32:00z", "1987-07-05 17:45:56.123"]


def lit(text):
    return tomllib.loads("x = " + text)["x"]


_ESC = {"\b": "\\b", "\t": "\\t", "\n": "\\n", "\f": "\\f", "\r": "\\r", '"': '\\"', "\\": "\\\\"}


def basic(rng, s, multi=False):
    out = ""
    for ch in s:
        o = ord(ch)
        if ch in _ESC and not (multi and ch == "\n" and rng.random() < .8) and not (ch == "\t" and rng.random() < .5):
            if multi and ch == '"' and rng.random() < .7 and not out.endswith('""'):
                out += ch
            else:
                out += _ESC[ch]
        elif ch in "\t\n":
            out += ch
        elif o < 0x20 or o == 0x7f:
            out += f"\\u{o:04{rng.choice('xX')}}"
        elif rng.random() < .03 or (o > 0x7f and rng.random() < .3):
            out += f"\\U{o:08x}" if o > 0xffff or rng.random() < .3 else f"\\u{o:04X}"
        else:
            out += ch
    return out


def string(rng, s):
    forms = ["basic", "multi"]
    plain = all(c == "\t" or (ord(c) >= 0x20 and ord(c) != 0x7f) for c in s)
    if plain and "'" not in s:
        forms += ["literal"] * 2
    if plain | all(c in "\t\n" or (ord(c) >= 0x20 and ord(c) != 0x7f) for c in s) and "'''" not in s:
        forms += ["mliteral"]
    f = rng.choice(forms + ["basic"])
    if f == "basic":
        return f'"{basic(rng, s)}"'
    if f == "literal":
        return f"'{s}'"
    if f == "mliteral":
        return "'''" + ("\n" if s.startswith("\n") or rng.random() < .5 else "") + s + "'''"
    body = basic(rng, s, True)
    if len(body) > 4 and " " in body[1:-1] and rng.random() < .4 and "\\" not in body:
        i = body.index(" ", 1) + 1
        if body[i:].lstrip(" \t\n") == body[i:]:
            body = body[:i] + "\\\n   " + body[i:]
    if body.endswith('"') and not body.endswith('\\"') and rng.random() < .5:
        body = body[:-1] + '\\"'
    return '"""' + ("\n" if body.startswith("\n") or rng.random() < .4 else "") + body + '"""'


class Gen:
    """one document: .text, .data (by tomllib), .comments [(text, anchor path, kind)], .grouped (tables follow their parents, dotted keys are contiguous)"""

    def __init__(self, rng, plain=False):
        self.rng, self.plain = rng, plain
        self.comments, self.n = [], 0
        self.grouped, self.feats = True, set()
        self.crazy = not plain and rng.random() < .6

    def comment(self, anchor, kind):
        self.n += 1
        t = f"# c{self.n}" + self.rng.choice(["", " text", " it's", " [tab]", " x = 1", ' "q', " '''", " #", "\t", " é"])
        t = t.rstrip()
        self.comments.append((f"# c{self.n}", anchor, kind))
        return t

    def ws(self, n=2):
        return self.rng.choice(["", "", " ", "  ", "\t"][:2 + n]) if self.crazy else ""

    def key_name(self, used):
        for _ in range(50):
            k = self.rng.choice(BARE) if self.plain or self.rng.random() < .75 else self.rng.choice(QUOTED)
            if k not in used:
                used.add(k)
                return k
        k = f"k{len(used)}"
        used.add(k)
        return k

    def key_text(self, k):
        r = self.rng
        bare = k and all(c.isascii() and (c.isalnum() or c in "-_") for c in k)
        if bare and (self.plain or r.random() < .85):
            return k
        if "'" not in k and all(ord(c) >= 0x20 and ord(c) != 0x7f or c == "\t" for c in k) and r.random() < .4:
            return f"'{k}'"
        self.feats.add("quoted-key")
        return f'"{basic(r, k)}"'

    def path_text(self, parts):
        dot = lambda: "." if not self.crazy else self.ws() + "." + self.ws()
        out = self.key_text(parts[0])
        for p in parts[1:]:
            out += dot() + self.key_text(p)
        return out

    def value(self, path, depth=0):
        r = self.rng
        k = r.random()
        if depth < 3 and k < .16:
            return self.array(path, depth)
        if depth < 3 and k < .24:
            return self.inline(path, depth)
        if k < .6:
            self.feats.add("string")
            return string(r, r.choice(STRINGS) if not self.plain else r.choice(STRINGS[:8]))
        if k < .72:
            return r.choice(INTS[:6] if self.plain else INTS)
        if k < .82:
            return r.choice(FLOATS[:5] if self.plain else FLOATS)
        if k < .9:
            return r.choice(["true", "false"])
        return r.choice(DATES)

    def array(self, path, depth):
        r = self.rng
        n = r.choice([0, 1, 2, 3, 5])
        multi = r.random() < .4
        out = "["
        sep = lambda: ("\n" + r.choice(["  ", "    ", "", "\t"])) if multi else self.ws()
        for i in range(n):
            if multi and r.random() < .2:
                out += "\n  " + self.comment(path, "array")
                self.feats.add("array-comment")
                out += "\n"
            out += sep() + self.value((*path, i), depth + 1) + self.ws()
            last = i == n - 1
            if not last or (multi and r.random() < .5):
                out += ","
                if not last and not multi and r.random() < .7:
                    out += " "
                if multi and r.random() < .2:
                    out += "  " + self.comment(path, "array") + "\n"
                    self.feats.add("array-comment")
        if multi:
            out += "\n"
        return out + self.ws() + "]"

    def inline(self, path, depth):
        r = self.rng
        used, items = set(), []
        for _ in range(r.choice([0, 1, 2, 3])):
            k = self.key_name(used)
            parts = [k]
            if r.random() < .15:
                parts.append(self.key_name(set()))
            eq = r.choice([" = ", "=", " =", "= "]) if self.crazy else " = "
            items.append(self.path_text(parts) + eq + self.value((*path, *parts), depth + 1))
        sp = r.choice(["", " "])
        return "{" + sp + (self.ws() + "," + r.choice([" ", " ", ""])).join(items) + sp + "}"

    def lines_before(self, anchor):
        r = self.rng
        out = ""
        while r.random() < .25:
            out += "\n" if r.random() < .6 else self.ws() + self.comment(anchor, "before") + "\n"
        return out

    def assignment(self, path, parts):
        r = self.rng
        full = (*path, *parts)
        out = self.lines_before(full) + self.ws() + self.path_text(parts)
        out += (self.ws() + "=" + self.ws()) if self.crazy else " = "
        out += self.value(full)
        out += self.ws()
        if r.random() < .2:
            out += " " + self.comment(full, "after")
        return out + "\n"

    def body(self, path, used):
        r = self.rng
        out = []
        for _ in range(r.choice([0, 1, 2, 2, 3, 4])):
            k = self.key_name(used)
            if r.random() < .15:
                sub = set()
                grp = [self.assignment(path, [k, *([self.key_name(sub)] if r.random() < .75 else [self.key_name(sub), self.key_name(set())])]) for _ in range(r.choice([1, 2, 3]))]
                if len(grp) > 1 and r.random() < .3:
                    self.grouped = False
                    at = r.randrange(len(out) + 1)
                    out.insert(at, grp.pop(0))
                out.extend(grp)
                self.feats.add("dotted")
            else:
                out.append(self.assignment(path, [k]))
        return "".join(out)

    def header(self, path, array):
        r = self.rng
        names = [p for p in path if isinstance(p, str)]
        o, c = ("[[", "]]") if array else ("[", "]")
        out = self.lines_before(path)
        if out == "" and r.random() < .7:
            out = "\n"
        out += self.ws() + o + self.ws() + self.path_text(names) + self.ws() + c + self.ws()
        if r.random() < .15:
            out += " " + self.comment(path, "header")
        return out + "\n"

    def tables(self, path, used, depth, blocks):
        """appends (path, text) blocks of the sub tables"""
        r = self.rng
        for _ in range(r.choice([0, 1, 2, 3] if depth == 0 else [0, 0, 1, 2])):
            k = self.key_name(used)
            if r.random() < .25:
                self.feats.add("table-array")
                for i in range(r.choice([1, 2, 3])):
                    p = (*path, k, i)
                    u = set()
                    blocks.append((p, self.header(p, True) + self.body(p, u)))
                    if depth < 2:
                        self.tables(p, u, depth + 1, blocks)
            elif r.random() < .25 and depth < 2:  # implicit parent
                self.tables((*path, k), set(), depth + 1, blocks)
            else:
                p, u = (*path, k), set()
                blocks.append((p, self.header(p, False) + self.body(p, u)))
                if depth < 3:
                    self.tables(p, u, depth + 1, blocks)

    def document(self):
        r = self.rng
        used = set()
        text = self.body((), used)
        blocks = []
        self.tables((), used, 0, blocks)
        if len(blocks) > 2 and r.random() < .12 and "table-array" not in self.feats:
            r.shuffle(blocks)
            self.grouped = False
            self.feats.add("shuffled")
        text += "".join(b for _, b in blocks)
        text += self.lines_before(None) if r.random() < .5 else ""
        if r.random() < .2:
            text = text.rstrip("\n")
        self.text = text
        self.data = tomllib.loads(text)
        return self


def plain_date(v):
    return isinstance(v, (dt.datetime, dt.date, dt.time))


def same(pkm, ref, TimeLiteral):
    """None when pkm's value denotes tomllib's value, else where they differ"""
    if isinstance(ref, dict):
        if not isinstance(pkm, dict) or set(pkm) != set(ref):
            return f"{_short(pkm)} vs {_short(ref)}"
        for k in ref:
            if d := same(pkm[k], ref[k], TimeLiteral):
                return f".{k!r}: {d}" if not d.startswith((".", "[")) else f".{k!r}{d}"
        return None
    if isinstance(ref, list):
        if not isinstance(pkm, list) or len(pkm) != len(ref):
            return f"{_short(pkm)} vs {_short(ref)}"
        for i, (a, b) in enumerate(zip(pkm, ref)):
            if d := same(a, b, TimeLiteral):
                return f"[{i}]: {d}"
        return None
    if plain_date(ref):
        if not isinstance(pkm, TimeLiteral):
            return f"{pkm!r} vs {ref!r}"
        try:
            ok = lit(str(pkm)) == ref
        except Exception:  # noqa
            ok = False
        return None if ok else f"{pkm!r} vs {ref!r}"
    if isinstance(ref, float):
        ok = type(pkm) is float and (pkm == ref and math.copysign(1, pkm) == math.copysign(1, ref) or pkm != pkm and ref != ref)
    elif isinstance(ref, str):
        ok = isinstance(pkm, str) and not isinstance(pkm, TimeLiteral) and pkm == ref
    else:
        ok = type(pkm) is type(ref) and pkm == ref
    return None if ok else f"{pkm!r} vs {ref!r}"


def _short(v):
    s = repr(v)
    return s if len(s) < 150 else s[:150] + "..."
