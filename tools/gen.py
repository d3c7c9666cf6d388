"""Random programs over a world: weighted choice of operations from a profile."""
import ops as o

ALLK = ["eq", "ne", "gt", "ge", "lt", "le"]
# conditions available per parameter type
KINDS = {"int": ALLK + ["ap"], "dbl": ALLK + ["ap"], "str": ALLK, "cstr": ALLK, "odd": ALLK,
         "char": ALLK, "ll": ALLK, "bool": ["eq", "ne"], "big": ["eq", "ne"], "enum": ["eq", "ne"],
         "vec": ["eq", "ne"], "ptr": ["eq", "ne"], "mo": [], "cnul": [], "hex": ["eq", "ne"], "us": ["eq", "ne"], "trk": ALLK}


def calls(ops):
    return any(x["t"] == "call" or calls(x.get("lc", ())) or x["t"] == "uw" and calls(x["ops"]) or
               x["t"] == "stub" and any(calls(a["ops"]) for a in x["ac"]) for x in ops)


def bounded(n, inner):
    """Quantity of an action that runs inner: calls in it must not go on for ever."""
    return n if 0 <= n <= 2 or not calls(inner) else 2


class Gen:
    def __init__(self, rng, world, profile):
        self.r = rng
        self.w = world
        self.p = dict(profile)
        self.mocks = profile.get("mocks") or list(range(1, len(world["mocks"]) + 1))
        self.depth = 0
        self.fresh = 0
        self.hm = {}             # what the stored handles are for; a handle keeps its method
        for h in (1, 2, 3):
            m = self.mock()
            self.hm[h] = (m, self.method(m, lambda s: s["kind"] != "nodtor"))

    # -------------------------------------------------- helpers
    def get(self, k, d=None):
        return self.p.get(k, d)

    def chance(self, k, d=0.0):
        return self.r.random() < self.p.get(k, d)

    def weighted(self, d):
        d = {k: v for k, v in d.items() if v > 0}
        return self.r.choices(list(d), list(d.values()))[0]

    def type(self, m):
        return self.w["types"][self.w["mocks"][m - 1]["ty"] - 1]

    def sig(self, m, f):
        return self.type(m)["methods"][f - 1]

    def mock(self):
        return self.r.choice(self.mocks)

    def spies(self, m):
        return self.w["mocks"][m - 1]["spy"]

    def method(self, m, want=None):
        fs = [f + 1 for f, s in enumerate(self.type(m)["methods"])
              if (not self.get("methods") or s["nm"] in self.get("methods")) and (want is None or want(s))]
        return self.r.choice(fs) if fs else None

    def val(self, t):
        lo, hi = self.get("values", (0, 3))
        if t == "bool":
            return self.r.randint(0, 1)
        if t == "dbl" and self.r.random() < 0.15:
            return -9
        return self.r.randint(max(lo, 0) if t != "int" else lo, hi)

    def cells(self, t):
        return [i + 1 for i, x in enumerate(self.w.get("ct", [])) if x == t]

    def arg(self, p, null=True):
        if p["k"] == "v":
            return self.val(p["t"])
        cs = self.cells(p["t"])
        if p["k"] == "p" and null and self.r.random() < 0.15:
            return 0
        return self.r.choice(cs)

    def args(self, m, f):
        s = self.sig(m, f)
        return [self.arg(p, not s.get("set")) for p in s["pt"]]

    # -------------------------------------------------- conditions
    def cond(self, p, arity):
        t = "ptr" if p["k"] == "p" else p["t"]
        simple = arity >= 2
        ks = [k for k in KINDS.get(t, ["eq", "ne"]) if not self.get("kinds") or k in self.get("kinds")]
        if arity == 2:
            ks = [k for k in ks if k != "ap"]
        if arity == 3:
            ks = [k for k in ks if k == "eq"]
        if not ks or self.r.random() < self.get("any", 0.2):
            return o.c("any", fm=0 if simple else self.r.randint(0, 2 if t != "cstr" else 0))
        k = self.r.choice(ks)
        if p["k"] == "p":
            v = self.r.choice(self.cells(p["t"]) + [0])
        else:
            v = self.val(p["t"])
        if t == "cstr" and v == 0:
            v = 1
        fm = 0 if simple else self.r.randint(0, 2 if k == "eq" else 1)
        if k == "eq" and t == "cstr":
            fm = self.r.randint(0, 1)
        return o.c(k, v, self.r.randint(0, 2) if k == "ap" else 0, fm)

    def mt(self, m, f, later=False):
        s = self.sig(m, f)
        if s["kind"] in ("dtor", "nodtor") or (later and s.get("norec")):
            return o.NONE
        k = self.weighted(self.get("mt", {"none": 3, "args": 5, "pred": 1}))
        n = len(s["pt"])
        if k == "args" and 1 <= n <= 3:
            return o.args(*[self.cond(p, n) for p in s["pt"]])
        if k == "pred" and n and all(p["t"] not in ("mo", "dbl") for p in s["pt"]):
            return o.pred(self.r.randint(0, 2), self.r.randint(0, 1))
        return o.NONE

    # -------------------------------------------------- actions
    def result(self, s):
        rt = s["rt"]
        if rt == "void":
            return 0
        if rt.startswith("&"):
            return self.r.choice(self.cells(rt[1:]))
        if rt == "ptr":
            return self.r.choice(self.cells("int") + [0])
        if self.get("unique") and rt in ("int", "str", "big", "vec", "trk"):
            self.fresh += 1
            return 10 + self.fresh % 80
        if rt in ("int", "str", "big", "vec", "trk"):
            return self.r.randint(1, 99 if rt != "trk" else 40)
        return self.val(rt)

    def qty(self):
        return self.weighted(self.get("qty", {1: 8, 0: 1, 2: 2, 3: 1, -1: 1}))

    def written(self, n, together=0):
        """How a number of times is written (n_Times, Times<n>, 1_Time), or that the next action comes with it."""
        if n < 0:
            return 0
        return self.weighted({0: 6, 3: 2, 4: 1 if n == 1 else 0, together: 2} if together else {0: 6, 3: 2, 4: 1 if n == 1 else 0})

    def action(self, m, f):
        s = self.sig(m, f)
        w = dict(self.get("actions", {"ret": 6, "thr": 2, "do": 2, "scr": 0}))
        if self.depth >= 2:
            w["scr"] = 0
        if "set" in w and not s.get("set"):
            w["set"] = 0
        if s["rt"] == "mo" or s["rt"].startswith("&") or s["kind"] == "dtor":
            w["def"] = 0
        t = self.weighted(w)
        if s["kind"] == "dtor" and t in ("set",):
            t = "do"
        n = self.qty()
        v = self.result(s)
        if t == "ret" and s["rt"] in ("void",):
            return o.act("ret", 0, n, x=self.written(n))
        if t == "ret":
            return dict(o.ret(v, n, fm=self.weighted({0: 5, 1: 1, 2: 3})), x=self.written(n))
        if t == "thr":
            return dict(o.thr(self.r.randint(1, 50), n, fm=0 if s["kind"] == "dtor" else self.weighted(self.get("errs", {0: 3, 1: 1, 2: 1}))),
                        x=self.written(n, 2))
        if t == "do":
            return dict(o.do(v if s["rt"] != "void" else self.r.randint(1, 9), n, fm=self.r.randint(0, 1)), x=self.written(n, 2))
        if t == "def":
            return o.act("def", 0, n)
        if t == "set":
            form = self.r.choice(s["set"])
            return o.sets(v if s["rt"] != "void" else 0, *[(pos, self.val(s["pt"][pos - 1]["t"]) + 4) for pos in form["pos"]], n=n if n in (1, -1) else 1, fm=form["fm"])
        self.depth += 1
        try:
            inner = [self.nested(m) for _ in range(self.r.randint(1, 3))]
        finally:
            self.depth -= 1
        n = bounded(n, inner)
        if s["kind"] == "dtor":
            return o.act("scr", self.r.randint(1, 9), n, ops=inner)
        return o.act("scr", v if s["rt"] != "void" else self.r.randint(1, 9), n, ops=inner,
                     x=self.weighted({0: 4, 1: 2, 2: 3}))

    def nested(self, m):
        t = self.weighted(self.get("nested", {"call": 6, "stub": 2, "ver": 1, "clear": 1}))
        return self.op(t)

    def actions(self, m, f):
        n = self.weighted(self.get("nact", {1: 4, 2: 4, 3: 2, 4: 1}))
        ac = []
        for _ in range(n):
            a = self.action(m, f)
            ac.append(a)
            if a["n"] < 0:
                break
        return ac

    # -------------------------------------------------- operations
    def stub(self, form=None):
        m = self.mock()
        h = self.r.randint(1, 3) if self.chance("handle") else 0
        if h:
            m, f = self.hm[h]
        else:
            f = self.method(m)
        s = self.sig(m, f)
        forms = dict(self.get("forms", {"when": 6, "fake": 1, "asg": 1}))
        if not self.spies(m):
            forms.pop("spy", 0), forms.pop("spynv", 0)
        if self.spies(m):
            if any(p["t"] == "mo" for p in s["pt"]):
                forms.pop("spy", 0)
        if s["kind"] in ("dtor", "nodtor"):
            forms.pop("spy", 0), forms.pop("spynv", 0)
        if s["rt"] == "mo" or s["rt"].startswith("&") or s.get("nofake"):
            forms.pop("fake", 0)
        if not forms:
            forms = {"when": 1}
        fm = self.weighted(forms)
        mt = o.NONE if h else self.mt(m, f)
        if fm == "fake":
            return o.fake(m, f, mt, h) if not h else o.fake(0, 0, o.NONE, h)
        if fm in ("spy", "spynv"):
            return o.spy(m, f, mt, h, fm == "spynv") if not h else o.spy(0, 0, o.NONE, h, fm == "spynv")
        if fm == "asg":
            a = self.action(m, f)
            a["n"] = -1
            if a["t"] == "scr" and bounded(-1, a["ops"]) != -1:
                a = o.do(self.result(s) if s["rt"] != "void" else 1, -1)
            if s["rt"] == "void" and a["t"] in ("ret", "def"):
                a = o.do(self.r.randint(1, 9), -1)
            if a["t"] in ("set", "def"):
                a = o.do(self.result(s) if s["rt"] != "void" else 1, -1)
            if s["kind"] == "dtor" and a["t"] not in ("do", "scr"):
                a = o.do(self.r.randint(1, 9), -1)
            if a["t"] in ("do", "scr"):
                a["fm"] = 0
            return o.stub(0 if h else m, 0 if h else f, a, fm="asg", mt=mt, h=h)
        ac = self.actions(m, f)
        ab = self.r.randint(0, len(ac)) if self.chance("abandon") else -1
        lc = []
        if ab < 0 and self.chance("late") and self.depth == 0:
            self.depth = 3
            lc = [self.op(self.weighted(self.get("lateops", {"call": 3, "ver": 1}))) for _ in range(self.r.randint(1, 2))]
            self.depth = 0
        return o.stub(0 if h else m, 0 if h else f, *ac, mt=mt, h=h, ab=ab, lc=lc)

    def call(self):
        m = self.mock()
        f = self.method(m, lambda s: s["kind"] != "nodtor")
        return o.call(m, f, *self.args(m, f), fm=self.r.randint(0, self.sig(m, f).get("fms", 1) - 1))

    def seq(self, depth=0):
        x = self.r.random()
        if depth < 2 and x < self.get("cat", 0.2):
            return o.cat(self.seq(depth + 1), self.seq(depth + 1))
        if depth < 2 and x < self.get("cat", 0.2) + self.get("rep", 0.12):
            return o.rep(self.seq(depth + 1), self.weighted({1: 2, 2: 5, 3: 2, 0: self.get("badrep", 0)}), self.r.randint(0, 1))
        if self.chance("handlepat"):
            return o.ph(self.r.randint(1, 3))
        m = self.mock()
        f = self.method(m, lambda s: s["kind"] != "nodtor")
        return o.pm(m, f, self.mt(m, f, True))

    def src(self, depth=0):
        k = self.weighted({"mock": 4, "meth": 3, "unv": 2 if depth == 0 else 0, "h": 2 if self.get("handlepat") and depth < 5 else 0,
                           "s": self.get("stored", 0) if depth < 5 else 0})
        if k == "s":
            return o.ss(self.r.randint(1, 2))
        if k == "mock":
            return o.sm(self.mock())
        if k == "unv":
            return o.sunv(*[self.src(max(1, depth)) for _ in range(self.r.randint(1, 2))])
        if k == "h":
            return o.sh(self.r.randint(1, 3))
        m = self.mock()
        f = self.method(m, lambda s: s["kind"] != "nodtor")
        return o.sf(m, f, self.mt(m, f, True))

    def q(self):
        k = self.weighted(self.get("q", {"def": 3, "ex": 4, "al": 2, "any": 1}))
        if k == "def":
            return o.Q("def", 1, self.r.randint(0, 1))
        if k == "any":
            return o.Q("any", 0)
        n = self.weighted(self.get("counts", {0: 2, 1: 4, 2: 3, 3: 1}))
        return o.Q(k, n, self.weighted({0: 3, 1: 3, 2: 3, 3: 2, 4: 2 if n == 1 else 0.2}) if n >= 0 else 0)

    def ver(self):
        pat = [self.seq() for _ in range(self.weighted(self.get("seqs", {1: 5, 2: 3, 3: 1})))]
        src, unv = [], False
        if self.chance("using", 0.2):
            src = [self.src() for _ in range(self.r.randint(1, 3))]
        elif self.chance("unverified", 0.1):
            unv = True
        mode = self.weighted(self.get("modes", {"stmt": 5, "bool": 3, "not": 1}))
        lc = []
        if self.chance("late") and self.depth == 0:
            self.depth = 3
            lc = [self.op(self.weighted(self.get("lateops", {"call": 3}))) for _ in range(self.r.randint(1, 2))]
            self.depth = 0
        return o.ver(pat, self.q(), src, unv, mode, lc)

    def vno(self):
        mode = self.weighted(self.get("modes", {"stmt": 5, "bool": 3, "not": 1}))
        return o.vno([self.src() for _ in range(self.r.randint(1, 3))], mode)

    def hist(self):
        return o.hist(*[self.src() for _ in range(self.r.randint(1, 3))])

    def mkh(self):
        h = self.r.randint(1, 3)
        m, f = self.hm[h]
        return o.mkh(h, m, f, self.mt(m, f, True))

    def mks(self):
        k = self.weighted({"mock": 1, "meth": 1, "unv": 4})
        x = o.sunv(*[self.src(5) for _ in range(self.r.randint(1, 2))]) if k == "unv" else self.src(5)
        return o.mks(self.r.randint(1, 2), x)

    def age(self):
        return o.age(self.r.randint(0, 4), self.weighted({1: 1, 5: 1, 40: 2, 254: 1, 255: 2, 256: 1}))

    def nar(self):
        h = self.r.randint(1, 3)
        m, f = self.hm[h]
        return o.nar(h, self.mt(m, f, True))

    def member(self):
        m = self.mock()
        mem = self.type(m)["members"]
        if not mem:
            return o.ident(m)
        i = self.r.randint(1, len(mem))
        return self.weighted_call({"mset": 3, "mget": 3, "mstub": 0 if mem[i - 1]["t"] in ("arr", "plain") else 2}, m, i)

    def weighted_call(self, w, m, i):
        k = self.weighted(w)
        v = self.r.randint(1, 40)
        return {"mset": lambda: o.mset(m, i, v), "mget": lambda: o.mget(m, i), "mstub": lambda: o.mstub(m, i, v)}[k]()

    def uw(self):
        inner = []
        self.depth += 1
        for _ in range(self.r.randint(1, 3)):
            x = self.op(self.weighted(self.get("unwind", {"stub": 5, "call": 3, "ver": 1, "vno": 1})))
            if x["t"] == "stub" and x["fm"] == "when" and x["ab"] < 0 and not x["lc"]:
                x["ab"] = self.r.randint(0, len(x["ac"]))
            if x["t"] in ("ver", "vno") and x["mode"] in ("stmt", "var", "copy"):
                x["mode"] = self.r.choice(("unw", "bool"))
            inner.append(x)
        self.depth -= 1
        return o.uw(*inner)

    def poke(self):
        ct = self.w.get("ct", [])
        c = self.r.randint(1, len(ct))
        return o.poke(c, self.val(ct[c - 1]))

    def op(self, t):
        if t in ("new", "del", "reset", "clear", "ident", "obj"):
            m = self.mock()
            return {"t": "del" if t == "del" else t, "m": m}
        if t in ("addl",):
            return o.addl(self.r.randint(1, self.get("listeners", 3)))
        if t in ("setad",):
            return o.setad(self.weighted(self.get("adapters", {0: 1, 1: 1, 2: 1, 3: 1})))
        if t in ("setfm",):
            return o.setfm(self.r.randint(0, 2))
        if t in ("cells", "live", "clrl"):
            return {"t": t}
        if t == "drph":
            return o.drph(self.r.randint(1, 3))
        if t == "multi":
            return self.r.choice(self.get("multis"))
        return getattr(self, t)()

    def program(self):
        n = self.r.randint(*self.get("len", (8, 26)))
        prog = [o.new(m) for m in self.mocks]
        prog += [x for x in self.get("pre", [])]
        for _ in range(n):
            prog.append(self.op(self.weighted(self.get("ops", {"stub": 3, "call": 6, "ver": 3, "vno": 1}))))
        prog += [x for x in self.get("post", [])]
        return prog
