"""U02: histories over real store files compared with a dictionary; the files' bytes are searched for the credentials."""
import base64
import contextlib
import copy
import io
import shutil
import string

from vmon.core import short_tb

HOSTILE = ["", " ", "a.b", "[x]", "a=b", "\"", "'", "'''", '"""', "\\", "a\nb", "a\r\nb", "\t", "\u00e9", "\u4e2d\U0001f600", "#c", "true", "1", "x" * 500,
           "\x00", "\x7f", "\\u0041", "{}", "trailing\\", " pad ", "REPOSITORIES_PUBLISH_AUTH", "-", "http://h:1/p?q=1&r=%20"]
KEYS = ["username", "password", "token", "a.b", "with space", "\u00e9", "", "quote\"d", "0", "true"]


def text(r, n=12):
    return "".join(r.choice(string.ascii_letters + string.digits) for _ in range(n))


def value(r):
    x = r.random()
    if x < .45:
        return text(r)
    if x < .75:
        return r.choice(HOSTILE)
    return "".join(r.choice(HOSTILE) for _ in range(3)) + text(r, 8)


def creds(r):
    return {r.choice(KEYS) if r.random() < .8 else text(r, 4): value(r) for _ in range(r.randint(1, 4))}


def password(r):
    x = r.random()
    if x < .5:
        return text(r, r.randint(1, 20))
    if x < .8:
        return r.choice(["p\u00e4ss", "a b", " lead", "trail ", "\u4e2d\u6587", "x" * 70, "\"q\"", "new\nline", "0", "None"])
    return text(r, 4) + r.choice(HOSTILE).rstrip("\x00")


def other_password(r, p):
    while True:
        q = r.choice([p + "x", p[:-1], p + " ", " " + p, p.swapcase(), p[::-1], p * 2, text(r), p.replace("a", "b"), p[:len(p) // 2], p + "\n", "x" + p[1:]])
        if q and q != p:
            return q


class Ask:
    """stands in for the terminal: answers password questions from a list"""

    def __init__(self, answers):
        self.answers, self.asked = list(answers), 0

    def __call__(self, *a, **kw):
        self.asked += 1
        if not self.answers:
            raise RuntimeError("asked too often")
        return self.answers.pop(0)


def quietly(fn, *a, **kw):
    """-> ("ok", value) or ("err", exception)"""
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return "ok", fn(*a, **kw)
        except Exception as e:
            return "err", e


class History:
    def __init__(self, ctx, module, r, folder):
        self.ctx, self.m, self.r, self.folder = ctx, module, r, folder
        self.file = folder / "deep" / "er" / "auth.enc"
        self.password = password(r)
        self.model = {}
        self.ever = set()         # every name that had credentials once
        self.saved = False
        self.log = []
        self.store = module.PublishAuthenticationStore(self.file)
        self.bad = False

    def fail(self, key, msg):
        self.bad = True
        self.ctx.violation(key, msg, password=self.password, history=self.log[-40:])

    def bytes(self):
        return self.file.read_bytes() if self.file.exists() else None

    def open(self, store, pw):
        ask = Ask([])
        self.m.Display.ask_password = ask
        return quietly(store.unlock, pw)

    def compare(self, store, what, model=None):
        model = self.model if model is None else model
        for name in [*model, *(self.ever - model.keys()), "no-such-repository", text(self.r)]:
            st, got = quietly(store.auth_args_for, name)
            want = model.get(name)
            self.ctx.event("credentials compared")
            if st != "ok" or (got != want if want is None else got is None or dict(got) != want):
                return self.fail(f"credentials-differ:{what}", f"credentials of {name!r} are {short_tb(got) if st == 'err' else got!r}, stored were {want!r}")

    def scan(self):
        data = self.bytes()
        if data is None:
            return
        forms = [data, data.lower()]
        with contextlib.suppress(Exception):
            forms.append(base64.urlsafe_b64decode(data))
        for name, args in self.model.items():
            for k, v in args.items():
                if len(v) >= 8:
                    for enc in (v.encode(), base64.urlsafe_b64encode(v.encode())[:-4], base64.b64encode(v.encode())[:-4], v.encode().hex().encode(),
                                v.lower().encode(), v[::-1].encode()):
                        if len(enc) >= 8 and any(enc in f for f in forms):
                            return self.fail("secret-in-clear", f"value of {k!r} of {name!r} is readable in the file")
        self.ctx.event("files scanned")
        if len(self.password) >= 8 and any(self.password.encode() in f for f in forms):
            self.fail("password-in-clear", "the password is readable in the file")
        others = [p.name for p in self.folder.rglob("*") if p.is_file() and p != self.file and not p.name.startswith("altered")]
        for n in others:
            blob = next(self.folder.rglob(n)).read_bytes()
            if any(len(v) >= 8 and v.encode() in blob for a in self.model.values() for v in a.values()):
                self.fail("secret-in-clear", f"a credential is readable in {n}")

    def reload(self):
        self.log.append(("reload",))
        store = self.m.PublishAuthenticationStore(self.file)
        if self.r.random() < .3:      # the password is asked for
            answers = [self.password] if self.saved else [self.password + "1", self.password + "2", self.password, self.password]
            ask = Ask(answers)
            self.m.Display.ask_password = ask
            st, v = quietly(store.unlock) if self.r.random() < .5 else quietly(store.auth_args_for, "any")
            self.ctx.event("passwords asked")
            if st == "ok" and ask.answers:
                return self.fail("asked-password", f"opened after {ask.asked} of {len(answers)} answers")
        else:
            st, v = self.open(store, self.password)
        self.ctx.event("stores opened")
        if st != "ok":
            return self.fail("refused", f"the right password is refused: {short_tb(v)}")
        self.store = store
        self.compare(store, "reload")

    def step(self):
        r = self.r
        op = r.choice(["add", "add", "add", "replace", "rm", "rm-missing", "reload", "get", "wrong", "wrong-open", "altered", "emptied"])
        ctx = self.ctx
        if op in ("add", "replace"):
            name = r.choice(list(self.model)) if op == "replace" and self.model else value(r)
            args = creds(r)
            self.log.append((op, name, dict(args)))
            st, v = quietly(self.store.add_auth_args, name, copy.deepcopy(args))
            if st != "ok":
                return self.fail("add-fails", short_tb(v))
            self.model[name] = args
            self.ever.add(name)
            self.saved = True
            ctx.event("credentials stored")
        elif op == "rm" and self.model:
            name = r.choice(list(self.model))
            self.log.append((op, name))
            st, v = quietly(self.store.rm_auth_args, name)
            if st != "ok":
                return self.fail("rm-fails", short_tb(v))
            del self.model[name]
            ctx.event("credentials removed")
        elif op == "rm-missing":
            self.log.append((op,))
            quietly(self.store.rm_auth_args, "no-such-repository")
            self.compare(self.store, "rm-missing")
        elif op == "reload":
            self.reload()
        elif op == "get":
            self.compare(self.store, "open")
        elif op == "wrong" and self.saved:
            before, q = self.bytes(), other_password(r, self.password)
            self.log.append((op, q))
            store = self.m.PublishAuthenticationStore(self.file)
            st, v = self.open(store, q)
            ctx.event("wrong passwords")
            ctx.evaluated(("wrong", self.password, q))
            if st == "ok":
                return self.fail("opened-with-wrong-password", f"{q!r} opens the store of {self.password!r}")
            if store.is_unlocked():
                return self.fail("unlocked-after-refusal", "the store says it is unlocked after it refused the password")
            # using it all the same must not read or write anything
            self.m.Display.ask_password = Ask([q] * 5)
            st, v = quietly(store.auth_args_for, next(iter(self.model), "x"))
            if st == "ok" and v is not None:
                return self.fail("opened-with-wrong-password", f"credentials given for {q!r}")
            self.m.Display.ask_password = Ask([q] * 5)
            quietly(store.add_auth_args, "intruder", {"a": "b"})
            if self.bytes() != before:
                return self.fail("file-changed-by-wrong-password", "the file was rewritten by a store that was refused")
        elif op == "wrong-open" and self.saved:
            before, q = self.bytes(), other_password(r, self.password)
            self.log.append((op, q))
            st, v = self.open(self.store, q)
            ctx.event("wrong passwords")
            if st == "ok":
                return self.fail("opened-with-wrong-password", f"{q!r} opens the store of {self.password!r}")
            if self.bytes() != before:
                return self.fail("file-changed-by-wrong-password", "the file changed")
            # it may go on with what it had or ask again, never write with the wrong password
            self.m.Display.ask_password = Ask([q, q, q])
            name, args = value(r), creds(r)
            st, v = quietly(self.store.add_auth_args, name, copy.deepcopy(args))
            if st == "ok":
                self.model[name] = args
                self.ever.add(name)
            self.reload()
        elif op == "altered" and self.saved:
            self.altered()
        elif op == "emptied" and self.saved and r.random() < .3:
            for name in list(self.model):
                st, v = quietly(self.store.rm_auth_args, name)
                if st != "ok":
                    return self.fail("rm-fails", short_tb(v))
                del self.model[name]
            self.log.append((op,))
            self.reload()

    def altered(self):
        r = self.r
        data = self.bytes()
        p = self.folder / f"altered{r.randrange(10 ** 9)}"
        for _ in range(4):
            b = bytearray(data)
            how = r.choice(["flip", "flip", "cut", "append", "swap", "empty", "garbage", "head", "splice"])
            if how == "flip":
                i = r.randrange(len(b))
                b[i] ^= 1 << r.randrange(8)
            elif how == "cut":
                b = b[:r.randrange(len(b))]
            elif how == "append":
                b += r.choice([b"A", b"\n", b"=", b"AAAA", bytes(data)])
            elif how == "swap":
                i, j = r.randrange(len(b)), r.randrange(len(b))
                b[i], b[j] = b[j], b[i]
            elif how == "empty":
                b = bytearray()
            elif how == "garbage":
                b = bytearray(r.randbytes(r.randint(1, 200)))
            elif how == "head":
                b = b[r.randint(1, 30):]
            elif how == "splice":
                i = r.randrange(len(b))
                b[i:i] = r.choice([b"A", b"BB", b"\x00"])
            if bytes(b) == data:
                continue
            p.write_bytes(bytes(b))
            store = self.m.PublishAuthenticationStore(p)
            st, v = self.open(store, self.password)
            self.ctx.event("altered files")
            self.ctx.evaluated(("altered", how, bytes(b)))
            self.log.append(("altered", how))
            if st == "ok":
                # characters that mean nothing to the encoding may be ignored: then nothing may be different
                self.compare(store, "altered")
                self.ctx.event("alterations without meaning")
            elif p.read_bytes() != bytes(b):
                self.fail("file-changed-by-refusal", "a refused file was changed")
            p.unlink()


def run(ctx):
    from pkm_cli.auth import publish_auth_store as module
    ctx.rule = ("credentials read back equal a dictionary that saw the same history; stores opened with another password or from an altered file raise, or "
                "give the unaltered credentials; the file's bytes contain no credential and are unchanged after a refusal")
    ctx.required_events = ["credentials compared", "stores opened", "wrong passwords", "altered files", "files scanned", "credentials removed", "passwords asked"]
    ctx.min_evaluations = 20
    rng = ctx.sub_rng("histories")
    more = ctx.budget(18, 420)
    asked = module.Display.ask_password
    try:
        for i in range(ctx.pick(60, 6000)):
            if not more() or ctx.violated:
                break
            folder = ctx.scratch / "work" / f"h{i}"
            folder.mkdir(parents=True)
            h = History(ctx, module, rng, folder)
            st, v = h.open(h.store, h.password)
            if st != "ok":
                h.fail("first-use", f"a new store can not be opened: {short_tb(v)}")
                continue
            for _ in range(rng.randint(4, 18)):
                h.step()
                if h.bad or not more():
                    break
            if not h.bad:
                h.scan()
            if not h.bad:
                h.reload()
            ctx.evaluated(("history", i), [str(x)[:80] for x in h.log[:6]])
            ctx.distinct("histories", str(h.log))
            shutil.rmtree(folder)
    finally:
        module.Display.ask_password = asked
