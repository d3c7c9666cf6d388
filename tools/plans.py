"""What each check explores: alphabets for the exhaustive part and profiles for the random part.

explore: TLC visits every state reachable with "ops" up to a depth, evaluates "ops" and "probes"
in it and the driver replays every transition.  random: programs drawn from a profile are executed
first and TLC validates the recorded trace.  fields: what of the outcome the property speaks about.
"""
from ops import *
import worlds

ASSUMPTIONS = [
    "g++ 13 / clang 18 on x86-64 Linux (the GCC side of the library's compiler specific code)",
    "one thread; the library makes no claim about concurrent use",
    "outside the exhaustively explored alphabets and bounds the evidence is sampling",
]

KV = ["k", "v", "w"]
KVL = ["k", "v", "w", "lg"]
KVLE = ["k", "v", "w", "lg", "ev"]
ALL = ["k", "v", "w", "lg", "ev", "tx"]


def D(q, t):
    return {"quick": q, "thorough": t}


def X(name, world, pre, ops, depth, probes=(), **kw):
    d = {"name": name, "world": world, "pre": list(pre), "ops": list(ops), "depth": depth, "probes": list(probes)}
    d.update(kw)
    return d


def R(name, world, n, **profile):
    d = {"name": name, "world": world, "n": n, "profile": profile}
    for k in ("fields", "variants", "fixed"):
        if k in profile:
            d[k] = profile.pop(k)
    return d


ANY = c("any")
PLANS = {}
# every variant of compiler and language standard runs in the thorough tier
WIDE = D(["c++14"], ["c++14", "clang-c++14", "c++17", "c++20", "clang-c++20", "O2-c++17"])
# methods of world "types" whose recorded arguments can be compared and shown later
SHOWN = ["i", "s", "cs", "ri", "ro", "mo", "big", "rint", "d", "c", "od", "en", "e8", "vec", "crs", "ll", "ch", "e1", "mix", "z",
         "rs", "hx", "cn", "us"]
COMPARED = SHOWN + ["pi", "pc", "rp", "pint"]
PAIRS = [multi("fake", (1, 1), (1, 2)), multi("fake", (1, 1), (2, 1)), multi("fake", (1, 1), (1, 3), (1, 4)),
         multi("fake", (1, 2, eqs(1, 2)), (2, 1), (1, 3))]

# other work in the process between the steps of a scenario: numbers the library hands out must not run out
def aged(kind, n):
    a = age(kind, n)
    return ([new(1), new(2), new(3), fake(1, 1), a, fake(1, 2), fake(1, 3), fake(1, 4), fake(2, 1), a, fake(2, 2), fake(3, 1), stub(1, 1, ret(11, 2), mt=eqs(2))]
            + [call(1, 1, 1), a, call(1, 2, 1, 1), call(2, 1, 2), a, call(1, 3, 1), call(3, 1, 1), a, call(1, 4), call(2, 2, 1, 2), call(1, 1, 2)]
            + [hist(sm(1), sm(2), sm(3)), hist(sf(1, 1)), hist(sf(1, 2), sf(2, 2)), ver([pm(1, 1), pm(1, 2)], Q("ex", 1), mode="bool"),
               ver([pm(1, 2), pm(1, 3), pm(1, 4)], Q("ex", 1), mode="bool"), ver([pm(1, 4)], Q("ex", 1), mode="bool"), a, hist(sunv(sm(1), sm(2), sm(3))),
               call(1, 1, 2), call(1, 1, 2), vno([sf(1, 4)], "bool"), vno([sf(1, 1)], "bool"), clear(1), hist(sm(1), sm(2)), reset(1), call(1, 1, 1)])


AGED = [aged(k, n) for k in range(5) for n in (100, 253, 254, 255, 256)]
OLD = [aged(0, 22000), aged(1, 65533), aged(1, 65534), aged(1, 65535)]

# ------------------------------------------------------------------ C01
def many(n):
    """n statements on one method; every call has an accepting statement, the newest of several for some."""
    r = [new(1), stub(1, 1, ret(7, -1))] + [stub(1, 1, ret(10 + v % 80, -1), mt=eqs(v)) for v in range(1, n)]
    r += [call(1, 1, v) for v in (0, 1, 2, n // 2, n - 130, n - 129, n - 2, n - 1)]
    return r + [stub(1, 1, ret(95, 1), mt=args(c("ge", n // 2))), call(1, 1, n - 1), call(1, 1, 1), call(1, 1, n // 2), stub(1, 1, ret(96, -1), mt=eqs(n - 1)), call(1, 1, n - 1), call(1, 1, 2)]


PLANS["C01"] = {
    "fields": KVL,
    "explore": [
        X("overlapping conditions", "core", [new(1)],
          [stub(1, 1, ret(11), ret(12, -1)), stub(1, 1, ret(21), mt=eqs(1)), stub(1, 1, ret(31, 2), mt=args(c("gt", 0))),
           stub(1, 1, thr(41, -1), mt=pred(1)), stub(1, 1, ret(51), thr(52), mt=args(c("le", 1, fm=1))),
           call(1, 1, 0), call(1, 1, 1), call(1, 1, 2)], D(5, 6), maxHist=5, maxStmt=4, limit=D(25000, 120000)),
        X("all forms of stubbing", "core", [new(1)],
          [fake(1, 1, eqs(1)), asg(1, 1, ret(21), eqs(1)), stub(1, 1, ret(31, -1), mt=args(c("ne", 1))), asg(1, 1, do(41)),
           multi("fake", (1, 1), (1, 2)), mkh(1, 1, 1), nar(1, eqs(1)), hstub(1, ret(51)), fake(0, 0, h=1), asg(0, 0, ret(61), h=1),
           call(1, 1, 1)], D(4, 5), [call(1, 1, 0), call(1, 2, 1, 1)], limit=D(20000, 120000)),
    ],
    "random": [
        R("stub and call", "core", D(900, 20000), ops={"stub": 5, "call": 10, "clear": 0.3, "multi": 0.3}, len=(10, 40), unique=True,
          multis=PAIRS, mocks=[1, 2]),
        R("handles", "core", D(500, 10000), ops={"stub": 5, "call": 8, "mkh": 1, "nar": 1}, len=(10, 30), unique=True, handle=0.4, mocks=[1]),
        R("many statements on one method", "core", D(60, 400), ops={"stub": 5, "call": 6}, len=(80, 200), unique=True, mocks=[1],
          methods=["f"]),
        R("hundreds of statements", "core", D(0, 0), fixed=[many(n) for n in (130, 254, 255, 256, 257, 300)]),
        R("all parameter types", "types", D(500, 8000), ops={"stub": 5, "call": 9}, len=(10, 30), unique=True),
    ],
    "variants": D(["c++14"], ["c++14", "clang-c++20"]),
}

# ------------------------------------------------------------------ C02
AGAIN = call(1, 1, 0)


def x(a, how):
    """The same action, its number of times written in another way (3, 4), or given together with the next one (2)."""
    return dict(a, x=how)


BIG = [100, 127, 128, 129, 255, 256, 257, 300, 32767, 32768, 40000, 65535, 65536, 65537, 70000]
MANY = [[new(1), stub(1, 1, ret(11, n), ret(12)), rpt(1, 1, n - 1, 1, x=1), call(1, 1, 1), call(1, 1, 1), call(1, 1, 1), hist(sm(1))] for n in BIG] + \
       [[new(1), stub(1, 1, ret(10, 0), ret(11, n), ret(12, 2), ret(13, n), ret(14, -1)), rpt(1, 1, 2 * n, 1, x=1), rpt(1, 1, 7, 2, x=1), call(1, 1, 1)] for n in BIG] + \
       [[new(1), stub(1, 1, ret(11, n)), rpt(1, 1, n + 3, 1, x=1), stub(1, 1, ret(21, -1), mt=eqs(5)), rpt(1, 1, n, 5, x=1), call(1, 1, 5), call(1, 1, 1)] for n in BIG[:8]] + \
       [[new(1), stub(1, 1, *[ret(k % 90 + 1, 2 if k % 7 == 3 else 1, fm=2 if k % 5 == 4 else 0) for k in range(n)]), rpt(1, 1, n // 2, 1, x=1), call(1, 1, 2), rpt(1, 1, 2 * n, 1, x=1), call(1, 1, 1)]
        for n in (60, 130, 260, 300)]
PLANS["C02"] = {
    "fields": KVL,
    "explore": [
        X("quantities and re-entrant actions", "core", [new(1)],
          [stub(1, 1, ret(11), ret(12, 0), thr(13), ret(14, 2)), stub(1, 1, scr(21, AGAIN), ret(22), do(23, 2)),
           stub(1, 1, ret(31, 0)), stub(1, 1, ret(41), ret(42, -1), mt=eqs(1)), stub(1, 1, scr(51, AGAIN, AGAIN, x=1, n=2), thr(52, 3, fm=1)),
           stub(1, 1, scr(61, stub(1, 1, ret(62)), AGAIN), ret(63)), asg(1, 1, ret(71), mt=eqs(1)),
           stub(1, 1, ret(81, fm=2), ret(82), ret(83, 2, fm=2), ret(84, 0, fm=2), ret(88)),
           stub(1, 1, x(thr(91), 2), thr(92, 2, fm=2), x(do(93, 2), 2), do(94), x(ret(95), 4), x(thr(96, 2), 3), x(ret(97, 3, fm=2), 3), ret(98)), stub(1, 1, thr(85, 0), do(86, 0), act("def", 0, 1), do(87, fm=1)),
           call(1, 1, 0), call(1, 1, 1)], D(5, 6), maxStmt=2, maxHist=9, limit=D(30000, 150000)),
        X("void methods", "core", [new(1)],
          [stub(1, 3, x(act("ret", 0, 2), 3), x(do(11), 4), act("ret", 0, 0), thr(12, 2)), stub(1, 3, act("def", 0, 1), scr(21, call(1, 3, 1)), x(act("ret", 0, 1), 4), x(thr(22), 2), thr(23, fm=2), x(do(24), 2), do(25, 0), act("ret", 0, -1)),
           stub(1, 3, thr(31, fm=2), do(32, 3), act("ret", 0, 1), mt=eqs(1)), asg(1, 3, do(41), mt=eqs(2)), fake(1, 3, eqs(2)),
           call(1, 3, 0), call(1, 3, 1), call(1, 3, 2)], D(4, 6), maxStmt=2, maxHist=8, limit=D(15000, 100000)),
    ],
    "random": [
        R("long action lists", "core", D(500, 12000), ops={"stub": 2, "call": 12}, len=(15, 50), unique=True,
          nact={1: 1, 2: 2, 4: 2, 7: 1}, qty={0: 2, 1: 6, 2: 3, 4: 2, 9: 1, -1: 1}, mocks=[1, 2],
          actions={"ret": 6, "thr": 3, "do": 3, "def": 1}),
        R("re-entrant actions", "core", D(700, 12000), ops={"stub": 3, "call": 8}, len=(8, 26), unique=True, mocks=[1, 3],
          actions={"ret": 3, "thr": 2, "do": 2, "scr": 4}, nested={"call": 8, "stub": 2}, qty={0: 1, 1: 6, 2: 3, -1: 0.3}),
        R("result types", "types", D(400, 8000), ops={"stub": 3, "call": 9}, len=(12, 40), unique=True, methods=None,
          qty={0: 2, 1: 6, 2: 3, 3: 2, -1: 1}, actions={"ret": 6, "thr": 2, "do": 3, "def": 1, "set": 3}),
        R("through handles", "core", D(300, 6000), ops={"stub": 3, "call": 8, "mkh": 1, "nar": 0.5}, len=(10, 30), unique=True,
          handle=0.6, mocks=[1], nact={1: 1, 2: 3, 3: 2}),
        R("spied and destructor stubs", "dtor", D(200, 3000), ops={"stub": 3, "call": 8}, len=(10, 30), mocks=[1, 3, 6],
          nact={1: 1, 2: 3, 3: 2}),
        R("large quantities", "core", D(0, 0), fixed=MANY),
    ],
}

# ------------------------------------------------------------------ C03
TY = worlds.TYPES["methods"]


def some(f):
    """Arguments for method f of world "types" (references and pointers to cells)."""
    r = []
    for p in TY[f - 1]["pt"]:
        r.append(1 if p["k"] == "v" else (4 if p["t"] == "str" else 1))
    return r


def rejecting(f):
    """A condition that refuses some(f), or None."""
    s = TY[f - 1]
    if len(s["pt"]) == 1 and s["pt"][0]["t"] not in ("mo", "cnul") and s["pt"][0]["k"] == "v":
        return eqs(2)
    return None


EVERY = range(1, len(TY) + 1)
PLANS["C03"] = {
    "fields": KVLE,
    "explore": [
        X("every signature: unmocked, unmatched, exhausted", "types", [new(1)],
          [stub(1, f, thr(9)) for f in EVERY] + [stub(1, f, thr(9), mt=rejecting(f)) for f in EVERY if rejecting(f)]
          + [mkh(1, 1, f) for f in EVERY] + [setad(1), setad(2), setad(3), addl(1)], D(1, 1),
          [call(1, f, *some(f)) for f in EVERY], limit=D(15000, 60000)),
        X("adapters that return", "core", [new(1), new(3)],
          [stub(1, 1, ret(11), mt=eqs(1)), stub(1, 1, scr(21, call(1, 3, 1), call(3, 1, 1))), stub(1, 3, thr(31), act("ret", 0, 1)),
           call(1, 1, 1), call(1, 1, 2), call(1, 2, 1, 1), call(1, 3, 1), call(3, 2, 1), call(1, 4), setad(0), setad(1), setad(2), addl(1), addl(2),
           reset(1), CLRL], D(4, 5), limit=D(25000, 150000)),
    ],
    "random": [
        R("few stubs, any signature", "types", D(600, 10000), ops={"stub": 2, "call": 8, "setad": 1, "addl": 0.3, "mkh": 1}, len=(8, 30),
          qty={0: 2, 1: 6, 2: 1}),
        R("qualified and overloaded methods", "over", D(300, 5000), ops={"stub": 2, "call": 8, "setad": 1, "mkh": 1, "reset": 0.3}, len=(8, 30)),
        R("nested", "core", D(500, 8000), ops={"stub": 3, "call": 8, "setad": 1, "addl": 0.3, "clrl": 0.2, "reset": 0.3}, len=(8, 30),
          actions={"ret": 3, "thr": 2, "do": 2, "scr": 4}, nested={"call": 8, "setad": 1, "stub": 1}),
        R("inherited methods", "inh", D(200, 4000), ops={"stub": 2, "call": 8, "setad": 1}, len=(8, 30)),
    ],
    "variants": D(["c++14"], ["c++14", "clang-c++20", "c++17"]),
}

# ------------------------------------------------------------------ C04
H3 = hist(sm(1), sm(2), sm(3))
PLANS["C04"] = {
    "fields": KVL,
    "explore": [
        X("order over three mocks", "core", [new(1), new(2), new(3), stub(1, 1, scr(11, call(2, 1, 5), call(3, 1, 6)), thr(12), ret(13, -1)),
                                             stub(2, 1, thr(21), ret(22, -1)), stub(3, 1, ret(31), scr(32, call(3, 2, 7), call(1, 2, 8, 8)), ret(33))],
          [call(1, 1, 0), call(2, 1, 1), call(3, 1, 2), call(3, 2, 3), call(1, 3, 4), clear(2), fake(3, 2)], D(5, 6),
          [H3, hist(sm(2)), hist(sm(3), sm(1)), hist(sf(1, 1), sf(3, 1)),
           ver([cat(pm(1, 1), pm(2, 1))], mode="bool"), ver([pm(2, 1), pm(1, 1)], Q("ex", 1), mode="bool"), ver([pm(3, 1)], Q("ex", 2), mode="bool")],
          maxHist=7, limit=D(30000, 150000)),
    ],
    "random": [
        R("nested calls", "core", D(700, 12000), ops={"stub": 3, "call": 8, "hist": 4, "clear": 0.3, "setad": 0.3}, len=(8, 30),
          actions={"ret": 3, "thr": 3, "do": 2, "scr": 4}, nested={"call": 8, "stub": 1, "clear": 0.3}, post=[H3]),
        R("spied and own mocks", "spy", D(400, 8000), ops={"stub": 3, "call": 8, "hist": 4}, len=(8, 30),
          methods=["add", "inc", "dbl", "rec", "ping", "pong", "thr", "mix", "bump", "vd", "fix"], forms={"when": 2, "spy": 5, "spynv": 2},
          actions={"ret": 3, "thr": 2, "scr": 2}, mt={"none": 5, "args": 2}, post=[H3]),
        R("any signature", "types", D(400, 8000), ops={"stub": 3, "call": 8, "hist": 3}, len=(10, 30), methods=SHOWN),
        R("long histories", "core", D(30, 200), ops={"stub": 1, "call": 12, "hist": 1}, len=(150, 300), mt={"none": 1}, qty={-1: 1}, post=[H3]),
        R("destructors", "dtor", D(200, 3000), ops={"stub": 3, "call": 8, "hist": 4}, len=(8, 30), mocks=[1, 2, 3]),
        R("after much other work", "core", D(0, 0), fixed=AGED[:10] + OLD[:1]),
    ],
}

# ------------------------------------------------------------------ C05
F1, F2, G1 = pm(1, 1, eqs(1)), pm(1, 1, eqs(2)), pm(2, 1)
FA = pm(1, 1)


def counts(pat, ns=(0, 1, 2, 3), mode="bool"):
    return [ver(pat, Q("ex", n), mode=mode) for n in ns] + [ver(pat, Q("al", n), mode=mode) for n in ns] + [ver(pat, mode=mode)]


def crowd(n):
    """Verifications over n calls of one method with some of another between."""
    k = n // 2
    r = [new(1), new(2), fake(1, 1), fake(2, 1), rpt(1, 1, k, 1), call(2, 1, 1), rpt(1, 1, n - k, 1)]
    for q in (n - 1, n, n + 1, n % 256, n % 128, n - 256, n - 128):
        if q >= 0:
            r += [ver([FA], Q("ex", q), mode="bool"), ver([F1], Q("al", q), mode="bool")]
    return r + [ver([cat(F1, F1)], Q("ex", k // 2 + (n - k) // 2), mode="bool"), ver([F1, G1], Q("ex", 1), mode="bool"), ver([rep(F1, k)], Q("ex", 2), mode="bool"),
                ver([rep(F1, k + 1)], Q("ex", 1), mode="bool"), ver([rep(F1, k), G1, rep(F1, k)], Q("ex", 1), mode="bool"), ver([F1, F1, F1], Q("ex", n // 3), mode="bool")]


CROWDS = [crowd(n) for n in (100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300)]
SHAPES = [[F1], [FA], [cat(F1, F2)], [cat(F1, F1)], [F1, F2], [F1, F1], [cat(F1, G1)], [cat(FA, FA)], [rep(F1, 2)], [rep(cat(F1, F2), 2)],
          [cat(rep(FA, 2), G1)], [F1, G1, F2], [FA, FA, FA], [cat(F1, F2), F1], [F2, cat(F1, G1)], [rep(FA, 3, 1)], [cat(cat(F1, F2), F1)],
          [rep(rep(F1, 2), 2)], [cat(FA, rep(F2, 2)), G1]]
PLANS["C05"] = {
    "fields": KV,
    "explore": [
        X("all histories, all shapes", "core", [new(1), new(2), fake(1, 1), fake(2, 1)],
          [call(1, 1, 1), call(1, 1, 2), call(2, 1, 1)], D(6, 8),
          [x for s in SHAPES for x in [ver(s, Q("ex", 1), mode="bool"), ver(s, Q("ex", 2), mode="bool"), ver(s, Q("al", 2), mode="bool"), ver(s, mode="bool")]]
          + [ver([F1], Q("ex", 0), mode="bool"), ver([F1], Q("al", 0)), ver([cat(F1, F2)], Q("ex", 0)), ver([F1], Q("any", 0)), ver([F1], Q("ex", -1)),
             ver([F1], Q("al", -2)), ver([FA], Q("ex", 3, 2)), ver([FA], Q("al", 3, 2)), ver([FA], Q("ex", 2, 1)), ver([FA], Q("ex", 1, 1)),
             ver([FA], Q("ex", 0, 1)), ver([FA], Q("def", 1, 1)), ver([rep(F1, 0)]), ver([cat(F1, rep(F2, -1))]), ver([rep(F1, 1)], mode="bool"),
             ver([FA], Q("ex", 2, 3)), ver([FA], Q("al", 2, 3), mode="bool"), ver([FA], Q("ex", 1, 4)), ver([F1], Q("al", 1, 4)), ver([F1], Q("ex", 2, 4)),
             ver([F1], Q("al", 0, 4)), ver([F1], Q("ex", 1, 3)), ver([F1], Q("ex", 0, 3)), ver([FA], Q("ex", 4)), ver([FA], Q("al", 5), mode="bool"), ver([FA, G1], Q("ex", 1, 1), mode="not")],
          maxHist=8, limit=D(60000, 250000)),
    ],
    "random": [
        R("any pattern", "core", D(700, 15000), ops={"stub": 1, "call": 8, "ver": 6}, len=(10, 40), qty={-1: 1}, values=(1, 2), mt={"none": 4, "args": 4, "pred": 1},
          counts={0: 2, 1: 4, 2: 4, 3: 3, 4: 2, 5: 1, -1: 0.5}, cat=0.3, rep=0.2, badrep=0.2, using=0, unverified=0,
          pre=[fake(1, 1), fake(1, 2), fake(1, 3), fake(2, 1), fake(3, 1)], q={"def": 2, "ex": 5, "al": 3, "any": 0.5}),
        R("few letters, long histories", "core", D(150, 3000), ops={"call": 8, "ver": 5}, len=(40, 80), values=(1, 2), mocks=[1, 2], methods=["f"],
          counts={0: 1, 1: 2, 2: 3, 3: 3, 4: 3, 6: 2, 9: 1}, cat=0.35, rep=0.25, using=0, unverified=0, pre=[fake(1, 1), fake(2, 1)]),
        R("spied and qualified methods", "over", D(200, 3000), ops={"stub": 1, "call": 8, "ver": 6}, len=(10, 40), values=(1, 2), using=0, unverified=0,
          pre=[fake(1, f) for f in range(1, 16)] + [fake(2, f) for f in range(1, 16)]),
        R("destructors", "dtor", D(150, 3000), ops={"stub": 1, "call": 8, "ver": 6}, len=(10, 30), values=(1, 2), using=0, unverified=0, mocks=[1, 2, 4],
          pre=[fake(m, f) for m in (1, 2, 4) for f in (1, 2, 3)]),
        R("stored handles as patterns", "core", D(200, 4000), ops={"mkh": 1, "call": 8, "ver": 6}, len=(12, 40), values=(1, 2), using=0, unverified=0,
          handlepat=0.5, pre=[fake(1, 1), fake(1, 2), fake(2, 1), fake(3, 1)]),
        R("many occurrences", "core", D(0, 0), fixed=CROWDS),
    ],
}

# ------------------------------------------------------------------ C06
U12 = hist(sunv(sm(1), sm(2)))
PLANS["C06"] = {
    "fields": KVL,
    "explore": [
        X("what becomes verified", "core", [new(1), new(2), fake(1, 1), fake(2, 1)],
          [call(1, 1, 1), call(1, 1, 2), call(2, 1, 1), ver([F1], mode="bool"), ver([cat(F1, F2)], Q("ex", 1), mode="bool"), ver([F1, F2], mode="bool"),
           ver([rep(FA, 2)], Q("al", 1), mode="bool"), ver([F1, G1], Q("any", 0), mode="bool"), ver([F2], Q("al", 2), mode="bool"),
           ver([pm(1, 1, eqs(1))], unv=True, mode="bool"), ver([FA], Q("any", 0), [sunv(sm(1))], mode="bool")], D(5, 6),
          [U12, hist(sunv(sf(1, 1, eqs(1)))), vno([sm(1)]), vno([sm(1), sm(2)]), vno([sf(1, 1, eqs(2))], "bool"), vno([sf(1, 1), sm(2)], "not"),
           vno([sunv(sm(1))], "bool")],
          maxHist=5, limit=D(45000, 250000)),
    ],
    "random": [
        R("verification marks", "core", D(700, 15000), ops={"stub": 0.5, "call": 8, "ver": 5, "vno": 2, "hist": 3}, len=(12, 40), values=(1, 2),
          pre=[fake(1, 1), fake(1, 2), fake(2, 1), fake(3, 1)], cat=0.3, rep=0.2, using=0.3, unverified=0.2, seqs={1: 5, 2: 4, 3: 2},
          modes={"stmt": 2, "bool": 5, "not": 1, "var": 1, "copy": 1, "twice": 1}, post=[hist(sunv(sm(1), sm(2), sm(3))), vno([sm(1), sm(2), sm(3)])]),
        R("any signature", "types", D(300, 5000), ops={"stub": 3, "call": 8, "ver": 5, "vno": 2, "hist": 2}, len=(12, 40), methods=SHOWN, using=0.3, unverified=0.1),
        R("spied mocks", "spy", D(200, 4000), ops={"stub": 1, "call": 8, "ver": 5, "vno": 2, "hist": 2}, len=(12, 30),
          methods=["add", "inc", "dbl", "rec", "thr", "vd", "fix"], forms={"spy": 4, "spynv": 2, "when": 2},
          pre=[spy(1, 1), spy(1, 2), spy(2, 1), spy(1, 3)], using=0.2, unverified=0.1),
    ],
}

# ------------------------------------------------------------------ C07
PLANS["C07"] = {
    "fields": KVL,
    "explore": [
        X("scopes", "core", [new(1), new(2), new(3), fake(1, 1), fake(1, 3), fake(2, 1), fake(3, 1)],
          [call(1, 1, 1), call(1, 3, 1), call(2, 1, 1), call(3, 1, 1), ver([F1], mode="bool"), ver([cat(F1, F1)], src=[sf(1, 1)], mode="bool")], D(5, 6),
          [ver([cat(F1, F1)], q, src, unv, "bool") for q in (Q("ex", 1), Q("def"))
           for src, unv in (((), False), ((), True), ([sm(1)], False), ([sf(1, 1)], False), ([sf(1, 1), sm(2)], False), ([sm(1), sm(2), sm(3)], False),
                            ([sunv(sm(1))], False), ([sunv(sf(1, 1)), sm(2)], False), ([sm(2)], False))]
          + [ver([cat(F1, G1)], Q("ex", 1), src, unv, "bool") for src, unv in (((), False), ((), True), ([sm(1), sm(2)], False), ([sf(1, 1), sf(2, 1)], False),
                                                                          ([sm(2)], False), ([sunv(sm(1), sm(2))], False))]
          + [ver([pm(1, 3), G1], Q("ex", 1), src, unv, "bool") for src, unv in (((), False), ([sm(1), sm(2)], False), ([sm(1)], False))]
          + [hist(sf(1, 1), sm(2)), hist(sunv(sm(1)), sf(3, 1)), hist(sf(1, 1, eqs(1)), sf(1, 1)), hist(sm(1), sf(1, 3)),
             ver([F1], Q("any", 0), [sm(1)], False, "bool"), ver([FA], Q("ex", 2), [sf(1, 1, eqs(1))])],
          maxHist=5, limit=D(45000, 250000)),
    ],
    "random": [
        R("any scope", "core", D(800, 15000), ops={"stub": 0.5, "call": 9, "ver": 6, "vno": 1, "hist": 3}, len=(12, 40), values=(1, 2),
          pre=[fake(1, 1), fake(1, 2), fake(1, 3), fake(2, 1), fake(3, 1)], cat=0.35, rep=0.15, using=0.6, unverified=0.4,
          modes={"stmt": 2, "bool": 5}),
        R("handles as sources", "core", D(300, 6000), ops={"mkh": 1, "nar": 0.5, "stub": 0.5, "call": 8, "ver": 6, "hist": 2}, len=(12, 40), values=(1, 2),
          pre=[fake(1, 1), fake(1, 2), fake(2, 1), fake(3, 1)], using=0.6, unverified=0.3, handlepat=0.4, handle=0.5),
        R("stored sources", "core", D(400, 8000), ops={"mks": 2, "call": 8, "ver": 5, "vno": 2, "hist": 3, "clear": 0.3, "reset": 0.1, "fake": 0}, len=(12, 40), values=(1, 2),
          pre=[fake(1, 1), fake(1, 2), fake(2, 1), fake(3, 1)], using=0.7, unverified=0.1, stored=6, modes={"stmt": 2, "bool": 5}),
        R("destructors and overloads", "over", D(200, 3000), ops={"call": 8, "ver": 6, "hist": 2}, len=(10, 40), values=(1, 2), using=0.5, unverified=0.3,
          pre=[fake(1, f) for f in range(1, 16)] + [fake(2, f) for f in range(1, 16)]),
        R("spied mocks", "spy", D(200, 4000), ops={"stub": 1, "call": 8, "ver": 5, "hist": 2}, len=(12, 30),
          methods=["add", "inc", "dbl", "rec", "thr", "vd", "fix"], forms={"spy": 4, "spynv": 2, "when": 2},
          pre=[spy(1, 1), spy(1, 2), spy(2, 1), spy(1, 3)], using=0.5, unverified=0.3),
    ],
}

# ------------------------------------------------------------------ C08
MODES = ("stmt", "var", "copy", "bool", "not", "twice", "unw")
PLANS["C08"] = {
    "fields": KVLE,
    "explore": [
        X("all forms", "core", [new(1), new(2), fake(1, 1), fake(2, 1)],
          [call(1, 1, 1), call(1, 1, 2), call(2, 1, 1), addl(1), setad(1), setad(2), ver([F1], mode="bool")], D(4, 5),
          [ver(p, q, src, unv, m) for m in MODES for p, q, src, unv in
           (([F1], Q(), (), False), ([cat(F1, F2)], Q("ex", 1), (), False), ([FA], Q("ex", 0), (), False), ([FA, G1], Q("al", 1), (), False),
            ([F1], Q("ex", 2), [sm(1)], False), ([FA], Q("ex", 1), (), True), ([F1], Q("al", 0), (), False))]
          + [vno(s, m) for m in MODES for s in ([sm(1)], [sm(1), sm(2)])]
          + [ver([F1], Q("ex", -1), mode=m) for m in ("stmt", "bool")] + [ver([F1], Q("al", -3))]
          + [ver([F1], q, lc=[call(1, 1, 1)], mode="stmt") for q in (Q(), Q("ex", 1), Q("al", 2))]
          + [ver([F1], q, lc=[call(1, 1, 1)], mode=m) for q in (Q("ex", 0, 1), Q("ex", 1, 1), Q("ex", 2), Q("al", 2, 2), Q("any", 0), Q("def", 1, 1)) for m in ("var", "copy", "not", "twice")]
          + [ver([F1], q, lc=[call(1, 1, 1), ver([F2], mode="bool")], mode="bool") for q in (Q("ex", 1), Q("def", 1, 1))],
          maxHist=4, limit=D(45000, 200000)),
    ],
    "random": [
        R("while an exception is on its way", "core", D(200, 4000), ops={"stub": 0.5, "call": 7, "ver": 3, "vno": 1, "uw": 5, "hist": 1}, len=(12, 30), values=(1, 2),
          pre=[fake(1, 1), fake(1, 2), fake(2, 1), addl(1)], modes={m: 1 for m in MODES}, unwind={"ver": 4, "vno": 2, "call": 2}, variants=D(["c++17"], ["c++17", "c++14", "clang-c++20"])),
        R("any verification in any form", "core", D(800, 15000), ops={"stub": 0.5, "call": 7, "ver": 8, "vno": 3, "hist": 2, "addl": 0.4, "setad": 0.5}, len=(12, 40),
          values=(1, 2), pre=[fake(1, 1), fake(1, 2), fake(2, 1), fake(3, 1)], late=0.2, lateops={"call": 3, "ver": 1, "vno": 0.5},
          modes={m: 1 for m in MODES}, counts={0: 2, 1: 4, 2: 3, -1: 1}, using=0.2, unverified=0.1, post=[hist(sunv(sm(1), sm(2), sm(3)))]),
        R("inside actions", "core", D(300, 6000), ops={"stub": 4, "call": 7, "ver": 3, "vno": 1, "hist": 1, "setad": 0.3}, len=(10, 30), values=(1, 2),
          actions={"ret": 2, "thr": 1, "scr": 4}, nested={"ver": 4, "vno": 2, "call": 3}, modes={m: 1 for m in MODES}),
    ],
}

# ------------------------------------------------------------------ C09
ORDER = ["eq", "ne", "gt", "ge", "lt", "le"]


def conds(t, k, vals):
    """All conditions on a parameter of type t in all forms."""
    r = []
    kinds = ORDER if t in ("int", "dbl", "str", "cstr", "odd", "char", "ll") else ["eq", "ne"]
    for kind in kinds:
        for v in vals:
            for fm in range(3 if kind == "eq" and t != "cstr" else 2):
                r.append(c(kind, v, 0, fm))
    if t in ("int", "dbl"):
        r += [c("ap", v, m, fm) for v in vals for m in (0, 1, 2) for fm in (0, 1)]
    r += [c("any", fm=fm) for fm in range(3 if t != "cstr" else 1)]
    return r


SINGLE = [f for f in EVERY if len(TY[f - 1]["pt"]) == 1 and TY[f - 1]["pt"][0]["t"] not in ("mo", "cnul")]


def vals(f, lo=0):
    p = TY[f - 1]["pt"][0]
    if p["k"] in ("r", "p"):
        return [1, 2, 3] if p["t"] == "int" else [4, 5]
    return {"bool": [0, 1], "dbl": [-9, 0, 1, 2, 3], "odd": [0, 1, 2, 3, 4, 5, 6, 7]}.get(p["t"], [0, 1, 2, 3])


def expect_vals(f):
    p = TY[f - 1]["pt"][0]
    if p["k"] == "p":
        return [0, 1, 2]
    if p["k"] == "r":
        return [1, 2, 4]
    return {"odd": [0, 3, 5, 6], "dbl": [-9, 1, 2]}.get(p["t"], [0, 1, 2])


def ctype(f):
    p = TY[f - 1]["pt"][0]
    return "ptr" if p["k"] == "p" else p["t"]


NORMAL = {f: (0 if TY[f - 1]["rt"] in ("void",) else 4 if TY[f - 1]["rt"] == "&str" else 1) for f in EVERY}
PLANS["C09"] = {
    "fields": KVL,
    "explore": [
        X("single conditions, stubbing", "types", [new(1)],
          [stub(1, f, ret(NORMAL[f], -1), mt=args(cc)) for f in SINGLE for cc in conds(ctype(f), "v", expect_vals(f))], D(1, 1),
          [call(1, f, v) for f in SINGLE for v in vals(f)], leaf=True, only_same=True, limit=D(40000, 100000)),
        X("single conditions, verification", "types",
          [new(1)] + [stub(1, f, ret(NORMAL[f], -1)) for f in SINGLE] + [call(1, f, v) for f in SINGLE for v in vals(f)],
          [CELLS], D(0, 0), [hist(sf(1, f, args(cc))) for f in SINGLE if TY[f - 1]["nm"] not in ("pi", "rr")
                             for cc in conds(ctype(f), "v", expect_vals(f))], maxHist=200, prerun=True),
        X("two positions", "core", [new(1)],
          [stub(1, 2, ret(11, -1), mt=args(c(a, 1), c(b, 2))) for a in ORDER + ["any"] for b in ORDER + ["any"]], D(1, 1),
          [call(1, 2, x, y) for x in (0, 1, 2, 3) for y in (0, 1, 2, 3)], leaf=True),
        X("two positions, verification", "core", [new(1), fake(1, 2)] + [call(1, 2, x, y) for x in (0, 1, 2, 3) for y in (0, 1, 2, 3)],
          [CELLS], D(0, 0), [hist(sf(1, 2, args(c(a, 1), c(b, 2)))) for a in ORDER + ["any"] for b in ORDER + ["any"]]
          + [hist(sf(1, 2, pred(p, fm))) for p in (0, 1, 2) for fm in (0, 1)] + [hist(sf(1, 2))], maxHist=200),
    ],
    "random": [
        R("long strings", "types", D(150, 3000), ops={"stub": 5, "call": 8}, len=(10, 30), values=(78, 99), any=0.1, methods=["s", "cs", "c", "cn"]),
        R("any condition, any type", "types", D(900, 15000), ops={"stub": 5, "call": 8}, len=(10, 30), values=(0, 6), any=0.1),
        R("conditions in verification", "types", D(500, 8000), ops={"stub": 2, "call": 8, "hist": 4, "ver": 2}, len=(12, 40), methods=SHOWN, values=(0, 4), any=0.1,
          mt={"none": 1, "args": 6, "pred": 1}),
        R("integers", "core", D(300, 5000), ops={"stub": 4, "call": 8, "hist": 2}, len=(10, 30), values=(-3, 4), any=0.1, mt={"args": 6, "pred": 1}, mocks=[1]),
    ],
    "variants": D(["c++14"], ["c++14", "clang-c++20", "c++17"]),
}

# ------------------------------------------------------------------ C10
PLANS["C10"] = {
    "fields": KVL,
    "explore": [
        X("two mocks of one type", "core", [new(1), new(2), new(3)],
          [stub(1, 1, ret(11), ret(12, -1)), stub(2, 1, ret(21), ret(22, 2)), stub(1, 3, act("ret", 0, -1)), fake(3, 1), call(1, 1, 1), call(2, 1, 1), reset(1), clear(2),
           ver([pm(1, 1)], mode="bool"), dele(3), new(3)], D(5, 6),
          [call(1, 3, 1), call(3, 1, 1), call(2, 3, 1), hist(sm(1)), hist(sm(2)), hist(sunv(sm(1), sm(2)))], maxHist=5, maxStmt=2, limit=D(35000, 200000)),
        X("overloads", "over", [new(1), new(2)],
          [stub(1, f, ret(10 + f, -1)) for f in range(1, 16)], D(2, 2),
          [call(m, f, *([] if f in (1, 5, 6, 7, 8) else [1, 1] if f == 11 else [1])) for m in (1, 2) for f in range(1, 16)]
          + [hist(sm(1))], limit=D(20000, 20000)),
        # see the known finding: methods mentioned in two files or in one function template
        X("methods with equal numbers", "coll", [new(1)],
          [stub(1, f, ret(10 + f, -1)) for f in range(1, 6)] + [call(1, 5, 1)], D(3, 4), [call(1, f, 1) for f in range(1, 6)] + [hist(sm(1))], limit=D(4000, 20000), walks=D(0, 0)),
    ],
    "random": [
        R("independent mocks", "core", D(600, 12000), ops={"stub": 4, "call": 8, "ver": 2, "reset": 0.5, "clear": 0.5, "hist": 2, "del": 0.2, "new": 0.4, "multi": 0.3}, len=(12, 40),
          unique=True, multis=PAIRS),
        R("overloads and qualifiers", "over", D(400, 8000), ops={"stub": 5, "call": 9, "ver": 3, "hist": 2, "reset": 0.3, "clear": 0.3}, len=(12, 40), unique=True),
        R("many methods", "types", D(300, 6000), ops={"stub": 5, "call": 9, "hist": 2}, len=(12, 40), methods=SHOWN),
        R("spied objects", "spy", D(300, 6000), ops={"stub": 4, "call": 9, "reset": 0.5, "clear": 0.5, "hist": 2, "obj": 1, "del": 0.3, "new": 0.5}, len=(12, 30),
          methods=["add", "inc", "dbl", "rec", "thr", "vd", "fix", "mix"], forms={"spy": 3, "spynv": 1, "when": 4, "fake": 1}),
        R("after much other work", "core", D(0, 0), fixed=AGED + OLD),
        R("methods of a large class", "big1", D(100, 2000), ops={"stub": 5, "call": 6, "hist": 1}, len=(30, 80), unique=True),
    ],
    "variants": D(["c++14"], ["c++14", "clang-c++20", "c++17"]),
}

# ------------------------------------------------------------------ C11
PLANS["C11"] = {
    "fields": KVLE,
    "explore": [
        X("reset", "core", [new(1), new(2)],
          [stub(1, 1, ret(11), ret(12, -1)), stub(1, 1, thr(21), mt=eqs(1)), stub(1, 3, do(31, 2)), fake(2, 1), call(1, 1, 1), call(1, 3, 1), call(2, 1, 1),
           ver([pm(1, 1)], mode="bool"), reset(1)], D(5, 6),
          [call(1, 1, 2), call(1, 2, 1, 1), call(1, 4), hist(sm(1)), hist(sunv(sm(1), sm(2))), vno([sm(1)], "bool"), fake(1, 4), ident(1)],
          maxHist=4, maxStmt=2, limit=D(30000, 150000)),
        X("reset with destructor and members", "dtor", [new(1), new(4)],
          [stub(m, 3, do(11), do(12, -1)) for m in (1, 4)] + [stub(m, 1, ret(21, -1)) for m in (1, 4)] + [mset(1, 1, 7), mset(4, 1, 8), reset(1), reset(4)]
          + [call(m, 3) for m in (1, 4)], D(4, 5),
          [call(m, f, 1) for m in (1, 4) for f in (1, 2)] + [call(m, 3, fm=k) for m in (1, 4) for k in (0, 1)] + [mget(1, 1), mget(4, 1), ident(1), ident(4), hist(sm(1), sm(4))],
          maxHist=3, maxStmt=2, limit=D(25000, 150000)),
    ],
    "random": [
        R("reset at any point", "core", D(400, 8000), ops={"stub": 4, "call": 8, "ver": 2, "reset": 2, "hist": 2, "clear": 0.3, "mkh": 0.5}, len=(12, 40),
          nested={"call": 5, "stub": 2, "reset": 2}, actions={"ret": 4, "thr": 2, "do": 1, "scr": 2}, handle=0.0),
        R("data members", "mem", D(400, 8000), ops={"stub": 3, "call": 5, "member": 8, "reset": 2, "hist": 1, "ident": 1}, len=(12, 40), forms={"when": 4, "fake": 1, "spy": 2}),
        R("tracked members", "life", D(300, 5000), ops={"stub": 3, "call": 5, "member": 6, "reset": 2, "live": 2}, len=(12, 30), values=(1, 9)),
        R("destructors", "dtor", D(300, 5000), ops={"stub": 4, "call": 8, "reset": 2, "member": 2, "hist": 1, "ident": 1}, len=(12, 40), mocks=[1, 2, 3, 4, 6]),
        R("spied objects", "spy", D(300, 6000), ops={"stub": 4, "call": 9, "reset": 2, "obj": 1, "hist": 1}, len=(12, 30), fields=KVL,
          methods=["add", "inc", "dbl", "rec", "thr", "vd", "fix", "mix", "cat", "bump"], forms={"spy": 3, "spynv": 1, "when": 4, "fake": 1}),
        R("handles used after a reset", "core", D(200, 4000), ops={"stub": 4, "call": 8, "reset": 1.5, "mkh": 1}, len=(12, 30), handle=0.6, mocks=[1, 2], fields=KVL),
        R("inherited methods", "inh", D(150, 3000), ops={"stub": 4, "call": 8, "reset": 1.5, "ident": 1}, len=(12, 30)),
    ],
}

# ------------------------------------------------------------------ C12
PLANS["C12"] = {
    "fields": KVL,
    "explore": [
        X("clear", "core", [new(1), new(2), fake(2, 1)],
          [stub(1, 1, ret(11), ret(12, 2)), stub(1, 3, do(31, 2)), call(1, 1, 1), call(1, 3, 1), call(2, 1, 1), ver([pm(1, 1)], mode="bool"), clear(1), clear(2)], D(5, 6),
          [call(1, 1, 2), hist(sm(1)), hist(sm(1), sm(2)), hist(sunv(sm(1), sm(2))), vno([sm(1)], "bool"), ver([cat(pm(2, 1), pm(2, 1))], mode="bool"),
           ver([pm(1, 1)], Q("ex", 1), mode="bool")], maxHist=4, maxStmt=2, limit=D(30000, 150000)),
    ],
    "random": [
        R("clear at any point", "core", D(500, 10000), ops={"stub": 4, "call": 8, "ver": 2, "vno": 1, "clear": 2, "hist": 3}, len=(12, 40),
          nested={"call": 5, "stub": 1, "clear": 3}, actions={"ret": 4, "thr": 2, "do": 1, "scr": 2}),
        R("data members", "mem", D(300, 6000), ops={"stub": 3, "call": 5, "member": 8, "clear": 2, "hist": 1}, len=(12, 40), forms={"when": 4, "fake": 1, "spy": 2}),
        R("tracked members", "life", D(200, 4000), ops={"stub": 3, "call": 5, "member": 6, "clear": 2, "live": 2}, len=(12, 30), values=(1, 9)),
        R("spied objects", "spy", D(300, 6000), ops={"stub": 4, "call": 9, "clear": 2, "obj": 1, "hist": 2}, len=(12, 30),
          methods=["add", "inc", "dbl", "rec", "thr", "vd", "fix", "mix", "bump"], forms={"spy": 3, "spynv": 1, "when": 4, "fake": 1}),
        R("destructors", "dtor", D(200, 4000), ops={"stub": 4, "call": 8, "clear": 2, "member": 2, "hist": 2}, len=(12, 40), mocks=[1, 2, 3, 4, 6]),
        R("any signature", "types", D(200, 4000), ops={"stub": 3, "call": 8, "clear": 1.5, "hist": 2}, len=(12, 40), methods=SHOWN),
    ],
}

# ------------------------------------------------------------------ C13
SPM = ["add", "inc", "dbl", "rec", "ping", "pong", "thr", "mix", "bump", "take", "cat", "vd", "fix", "lrg", "tri", "deep", "err"]
SPSHOWN = ["add", "inc", "dbl", "rec", "ping", "pong", "thr", "mix", "bump", "vd", "fix", "tri", "deep", "err"]
SPDEEP = [call(1, 15, 1), call(1, 16, 2), call(1, 16, 3), call(2, 13), call(2, 12, 1)]
SPCALLS = [call(1, 1, 2), call(1, 2, 1), call(1, 3, 1), call(1, 4, 2), call(1, 5, 3), call(1, 6, 2), call(1, 7, 1), call(1, 7, 3), call(1, 8, 1), call(1, 8, 3),
           call(1, 9, 1), call(1, 10, 4), call(1, 11, 3), call(1, 12, 1), call(1, 13), call(1, 14, 2), call(1, 17, 1), call(1, 17, 3)]
CHAIN = [[f for i, f in enumerate((1, 2, 3, 8, 15, 16)) if k >> i & 1] for k in range(64)]     # originals that call each other: deep -> tri -> dbl -> add, deep -> mix -> inc
def nested(m, fs, x):
    """Spies on the methods fs, an original that calls the others, then each of them again."""
    return [new(m)] + [spy(m, f) for f in fs] + [call(m, 16, x), call(m, 16, x)] + [call(m, f, 1) for f in (1, 2, 3, 8, 15)] + [hist(sm(m)), obj(m)]


PLANS["C13"] = {
    "fields": KVL,
    "explore": [
        X("every subset of spied methods", "spy", [new(1)],
          [spy(1, f, nv=(f == 10)) for f in range(1, 18)] + [stub(1, 1, ret(90, -1)), stub(1, 2, thr(91)), fake(1, 6), spy(1, 1, nv=True), spy(1, 11, nv=True)], D(2, 3),
          SPCALLS + [obj(1), hist(sm(1))], limit=D(25000, 120000)),
        X("calls in sequence", "spy", [new(1), new(2)],
          [spy(1, 1), spy(1, 3), spy(1, 4), spy(1, 8), spy(1, 2, eqs(1)), call(1, 2, 1), call(1, 8, 3), call(1, 3, 2), call(1, 4, 2), call(2, 2, 3), spy(2, 2)], D(4, 5),
          [obj(1), obj(2), hist(sm(1), sm(2)), call(1, 1, 1)], maxHist=6, maxStmt=2, limit=D(25000, 150000)),
    ],
    "random": [
        R("originals calling each other", "spy", D(0, 0), fixed=[nested(m, fs, x) for fs in CHAIN for m, x in ((1, 2), (1, 3), (2, 2))]),
        R("spies and stubs", "spy", D(700, 15000), ops={"stub": 4, "call": 10, "obj": 2, "hist": 2, "cells": 1, "ver": 1, "multi": 0.4}, len=(10, 30), methods=SPSHOWN,
          forms={"spy": 5, "spynv": 2, "when": 2, "fake": 1, "asg": 1}, mt={"none": 5, "args": 2}, values=(0, 4),
          multis=[multi("spy", (1, 1), (1, 2)), multi("spy", (1, 3), (2, 1), (1, 1)), multi("fake", (1, 1), (1, 12))]),
        R("all signatures", "spy", D(400, 8000), ops={"stub": 4, "call": 10, "obj": 2, "cells": 1, "poke": 1}, len=(10, 30), methods=SPM,
          forms={"spy": 5, "spynv": 3, "when": 2}, mt={"none": 5, "args": 2}, values=(0, 4)),
        R("scripted actions", "spy", D(300, 6000), ops={"stub": 4, "call": 10, "obj": 2, "hist": 1}, len=(10, 26), methods=SPSHOWN,
          forms={"spy": 4, "when": 4}, actions={"ret": 2, "thr": 2, "scr": 5}, nested={"call": 6, "stub": 2, "clear": 0.5}, mt={"none": 5, "args": 2}),
        R("through handles", "spy", D(200, 4000), ops={"stub": 4, "call": 8, "mkh": 1, "nar": 0.5, "obj": 1}, len=(10, 26), methods=SPSHOWN, handle=0.6,
          forms={"spy": 5, "spynv": 1, "when": 3}, mt={"none": 5, "args": 2}),
    ],
}

# ------------------------------------------------------------------ C14
PLANS["C14"] = {
    "fields": KVL,
    "explore": [
        X("destroy and reset", "spy", [new(1)],
          [spy(1, 1), spy(1, 3), spy(1, 7), spy(1, 8), spy(1, 17), stub(1, 2, thr(21), ret(22)), spy(1, 4), call(1, 7, 3), call(1, 17, 3), call(1, 8, 3), call(1, 4, 2), reset(1), dele(1), new(1)], D(4, 5),
          SPCALLS + [obj(1), ident(1), hist(sm(1))], maxHist=4, maxStmt=2, limit=D(40000, 200000)),
    ],
    "random": [
        R("originals calling each other", "spy", D(0, 0),
          fixed=[nested(1, fs, x) + [end, call(1, 16, 2), call(1, 15, 1), call(1, 8, 1), obj(1)] for fs in CHAIN for x in (2, 3) for end in (reset(1), dele(1))]),
        R("any end", "spy", D(800, 15000), ops={"stub": 5, "call": 10, "obj": 2, "hist": 2, "reset": 1, "del": 1, "new": 1.5, "ident": 0.5}, len=(12, 36), methods=SPSHOWN,
          forms={"spy": 5, "spynv": 2, "when": 2, "fake": 1}, values=(0, 4), mt={"none": 5, "args": 1},
          post=[dele(1), dele(2)] + SPCALLS[:10] + SPDEEP + [obj(1), obj(2)]),
        R("all signatures", "spy", D(300, 6000), ops={"stub": 5, "call": 10, "obj": 2, "reset": 1, "del": 1, "new": 1.5}, len=(12, 36), methods=SPM,
          forms={"spy": 5, "spynv": 2, "when": 2}, mt={"none": 1}, post=[reset(1), reset(2)] + SPCALLS + [obj(1), obj(2)]),
        R("members of the object", "mem", D(200, 4000), ops={"stub": 3, "call": 6, "member": 6, "reset": 1, "del": 0.7, "new": 1}, len=(12, 36), mocks=[3],
          forms={"spy": 3, "when": 3, "fake": 1}),
        R("verification mentions", "spy", D(200, 4000), ops={"stub": 3, "call": 8, "ver": 3, "mkh": 1, "obj": 1, "reset": 0.7, "del": 0.7, "new": 1}, len=(12, 30), methods=SPSHOWN,
          forms={"spy": 5, "when": 2}, modes={"bool": 1}, mt={"none": 3, "args": 1}, post=[dele(1), dele(2)] + SPCALLS[:10] + SPDEEP + [obj(1), obj(2)]),
    ],
}

# ------------------------------------------------------------------ C15
PLANS["C15"] = {
    "fields": KVLE,
    "explore": [
        X("every place of the destructor", "dtor", [new(m) for m in (1, 2, 3, 4, 5, 6)],
          [fake(m, 3) for m in (1, 2, 3, 4)] + [fake(6, 1)] + [stub(m, 3, do(10 + m), thr(20 + m), act("ret", 0, 2)) for m in (1, 2, 3, 4)]
          + [stub(1, 3, scr(5, call(1, 1, 1), call(1, 3))), asg(2, 3, do(31)), stub(1, 1, ret(41, -1)), stub(5, 3, do(51)), mkh(1, 5, 3)], D(1, 2),
          [call(m, 3, fm=k) for m in (1, 2, 3, 4) for k in range(3 if m != 4 else 4)] + [call(6, 1, fm=k) for k in range(3)]
          + [ident(m) for m in range(1, 7)] + [mget(m, 1) for m in (1, 2, 3, 4)] + [call(m, f, 1) for m in (1, 2, 3, 4) for f in (1, 2)] + [hist(sm(1), sm(2), sm(4)), hist(sm(3), sm(6))],
          limit=D(25000, 100000)),
        X("recorded arguments that own the object", "dtor", [new(1), new(2), new(3), new(4)],
          [fake(m, 4) for m in (1, 2, 3, 4)] + [stub(m, 3, do(10 + m, -1)) for m in (1, 2, 3, 4)] + [call(m, 4, 1) for m in (1, 2, 3, 4)] + [call(1, 3), call(1, 4, 0), clear(1), reset(1), reset(2), reset(3), dele(4), new(4)], D(3, 4),
          [reset(1), ident(1), call(2, 3, fm=1), call(3, 3), ident(4), hist(sm(1), sm(2), sm(3))], maxHist=4, maxStmt=2, limit=D(20000, 100000)),
        X("deleting again and again", "dtor", [new(1), new(3), mset(1, 1, 4)],
          [call(1, 3), call(1, 3, fm=1), call(3, 3), stub(1, 3, do(11), do(12)), stub(3, 3, thr(21)), stub(1, 1, ret(31, -1)), call(1, 1, 1), reset(1), setad(2)], D(4, 6),
          [mget(1, 1), ident(1), ident(3), hist(sm(1), sm(3)), ver([pm(1, 3)], Q("ex", 1), mode="bool"), ver([cat(pm(1, 3), pm(1, 1))], mode="bool"), vno([sm(1)], "bool")],
          maxHist=4, maxStmt=2, limit=D(25000, 150000)),
    ],
    "random": [
        R("destructor stubs", "dtor", D(700, 12000), ops={"stub": 4, "call": 8, "ver": 2, "hist": 1, "ident": 1, "member": 2, "reset": 0.4, "clear": 0.3, "mkh": 0.3}, len=(10, 36),
          actions={"ret": 3, "thr": 2, "do": 4, "scr": 2}, nested={"call": 6, "stub": 2}),
        R("inherited destructors", "inh", D(300, 5000), ops={"stub": 4, "call": 8, "ver": 2, "hist": 1, "ident": 1, "reset": 0.4}, len=(10, 36), methods=["dtor", "a", "b"], mocks=[1, 3, 4]),
    ],
    "variants": D(["c++14"], ["c++14", "clang-c++20", "c++17"]),
}

# ------------------------------------------------------------------ C16
PLANS["C16"] = {
    "fields": KVL,
    "explore": [
        X("abandoned and late", "core", [new(1)],
          [stub(1, 1, ret(11), thr(12), ret(13)), stub(1, 1, ret(21), ret(22), ab=0), stub(1, 1, ret(31), ret(32, -1), ab=1), stub(1, 1, ret(41), do(42), ab=2),
           stub(1, 1, ret(51), mt=eqs(1), lc=[call(1, 1, 1), call(1, 1, 2)]), stub(1, 1, ret(61), ret(62), lc=[stub(1, 1, ret(63)), call(1, 1, 1)]),
           mkh(1, 1, 1), hstub(1, ret(71), do(72), ab=1), hstub(1, ret(81), ret(82)), hstub(1, ret(91), lc=[call(1, 1, 1)]), call(1, 1, 1)], D(4, 5),
          [call(1, 1, 2), call(1, 2, 1, 1), hist(sm(1))], maxStmt=3, maxHist=6, limit=D(30000, 150000)),
        X("while an exception is on its way", "core", [new(1)],
          [stub(1, 1, ret(11), thr(12), ret(13)), uw(stub(1, 1, ret(21), ret(22), ab=1)), uw(stub(1, 1, ret(31, -1), ab=0)), uw(stub(1, 1, ret(41), ab=1), call(1, 1, 1)), mkh(1, 1, 1),
           uw(hstub(1, ret(51), ab=1)), hstub(1, ret(61)), uw(uw(stub(1, 1, ret(71), ab=1)), fake(1, 2)), uw(ver([F1], mode="unw"), ver([F2], mode="bool"), asg(1, 1, ret(81), mt=eqs(2))),
           stub(1, 1, scr(91, uw(stub(1, 1, ret(92), ab=1), call(1, 1, 2))), ret(93))], D(3, 4),
          [call(1, 1, 1), call(1, 1, 2), hist(sunv(sm(1)))], maxStmt=3, maxHist=5, limit=D(12000, 60000), variants=D(["c++17"], ["c++17", "c++14", "clang-c++20"])),
        X("several statements of one handle", "core", [new(1), mkh(1, 1, 1)],
          [hstub(1, ret(11), do(12), ab=1), hstub(1, ret(21), thr(22), ab=2), hstub(1, ret(31), ret(32)), fake(0, 0, h=1), asg(0, 0, ret(41), h=1), asg(0, 0, do(42), h=1),
           hstub(1, ret(51), lc=[hstub(1, ret(52), ret(53)), call(1, 1, 1)]), hstub(1, do(61), ret(62), lc=[fake(0, 0, h=1), call(1, 1, 1)]),
           hstub(1, ret(71), lc=[asg(0, 0, ret(72), h=1)]), hstub(1, ret(81), lc=[hstub(1, ret(82), ab=1), call(1, 1, 1)]), mkh(2, 1, 1, eqs(1)), hstub(2, ret(91), lc=[hstub(1, ret(92))]),
           call(1, 1, 1)], D(3, 4), [call(1, 1, 2), hist(sm(1))], maxStmt=4, maxHist=5, limit=D(15000, 100000)),
        X("on a spied object", "spy", [new(1)],
          [stub(1, 1, ret(11), ab=0), stub(1, 1, ret(21), thr(22), ab=1), spy(1, 1), stub(1, 1, ret(31), lc=[call(1, 1, 1), call(1, 3, 1)]), mkh(1, 1, 1), hstub(1, ret(41), ab=1),
           stub(1, 2, thr(51), lc=[call(1, 2, 1)]), stub(1, 12, do(61), ab=0)], D(3, 4),
          [call(1, 1, 1), call(1, 2, 1), call(1, 3, 1), call(1, 12, 1), obj(1)], maxStmt=2, maxHist=6, limit=D(15000, 80000)),
    ],
    "random": [
        R("interrupted statements", "core", D(700, 15000), ops={"stub": 6, "call": 8, "hist": 1, "mkh": 1}, len=(10, 36), unique=True, abandon=0.35, late=0.3,
          lateops={"call": 4, "stub": 1, "ver": 0.5}, handle=0.3, mocks=[1, 2]),
        R("statements of one handle", "core", D(300, 6000), ops={"stub": 6, "call": 8, "mkh": 1}, len=(10, 30), unique=True, abandon=0.35, late=0.3, lateops={"call": 3, "stub": 3},
          handle=0.9, mocks=[1], methods=["f"], mt={"none": 1}),
        R("inside actions", "core", D(300, 6000), ops={"stub": 6, "call": 8}, len=(10, 30), unique=True, abandon=0.3, mocks=[1],
          actions={"ret": 3, "thr": 1, "scr": 4}, nested={"stub": 5, "call": 4}),
        R("exceptions on their way", "core", D(300, 6000), ops={"stub": 4, "call": 8, "uw": 5, "hist": 1, "mkh": 1}, len=(10, 30), unique=True, abandon=0.3, handle=0.3, mocks=[1, 2],
          actions={"ret": 4, "thr": 2, "do": 1, "scr": 2}, nested={"uw": 3, "call": 3, "stub": 1}, variants=D(["c++17"], ["c++17", "c++14", "clang-c++20"])),
        R("any signature", "types", D(300, 6000), ops={"stub": 6, "call": 8}, len=(10, 30), unique=True, abandon=0.4, late=0.2, lateops={"call": 3}),
        R("spied objects", "spy", D(300, 6000), ops={"stub": 6, "call": 9, "obj": 1}, len=(10, 30), methods=SPSHOWN, abandon=0.4, late=0.2, lateops={"call": 3},
          forms={"when": 6, "spy": 2}, mt={"none": 4, "args": 1}),
        R("destructors", "dtor", D(200, 4000), ops={"stub": 6, "call": 8, "ident": 1}, len=(10, 30), abandon=0.4, late=0.2, lateops={"call": 3}, mocks=[1, 2, 3, 4, 6]),
        R("what an abandoned statement held", "life", D(200, 3000), ops={"stub": 6, "call": 5, "live": 4}, len=(10, 26), abandon=0.5, values=(1, 9), errs={0: 1, 3: 3}),
    ],
}

# ------------------------------------------------------------------ C17
PLANS["C17"] = {
    "fields": KVL,
    "explore": [
        X("ReturnAndSet", "types", [new(1)],
          [stub(1, f, sets(0 if TY[f - 1]["rt"] == "void" else 50 + f, *[(p, 60 + p) for p in form["pos"]], fm=form["fm"], n=n))
           for f in EVERY for form in TY[f - 1].get("set", ()) for n in (1, -1)]
          + [call(1, 4, 1), call(1, 4, 2), call(1, 5, 1), call(1, 5, 3), call(1, 6, 7, 2, 5), call(1, 6, 8, 1, 4), call(1, 23, 3, 2), call(1, 25, 1, 4), call(1, 25, 3, 5), call(1, 26, 1), call(1, 26, 3)],
          D(3, 3), [CELLS], maxStmt=1, limit=D(25000, 100000)),
        X("results and exceptions of every type", "types", [new(1)],
          [stub(1, f, a) for f in EVERY for a in
           ([ret(v, n) for n in (1, 2, -1) for v in ({"void": [0], "&int": [1, 3], "&str": [4, 5], "ptr": [0, 2], "bool": [0, 1], "dbl": [-9, 3]}.get(TY[f - 1]["rt"], [0, 7]))]
            + [thr(8, 1, k) for k in (0, 1, 2)] + [thr(9, -1)] + [do({"&int": 2, "&str": 5, "ptr": 1, "bool": 1}.get(TY[f - 1]["rt"], 6), n, fm) for n in (1, 2, -1) for fm in (0, 1)])]
          + [fake(1, f) for f in EVERY if TY[f - 1]["rt"][0] != "&" and TY[f - 1]["rt"] != "mo"], D(1, 1),
          [call(1, f, *some(f)) for f in EVERY], leaf=True, limit=D(30000, 60000)),
    ],
    "random": [
        R("the same exception several times", "types", D(0, 0),
          fixed=[[new(1), stub(1, f, thr(8, n, k), thr(9, -1, k))] + [call(1, f, *some(f))] * 4 for f in EVERY for k in (0, 1, 2, 3) for n in (2, 3)]),
        R("any signature", "types", D(1200, 20000), ops={"stub": 4, "call": 8, "cells": 3, "poke": 1}, len=(10, 30), values=(0, 5),
          actions={"ret": 4, "thr": 1, "do": 5, "def": 1, "set": 5}, mt={"none": 5, "args": 1}),
        R("methods with ReturnAndSet", "types", D(400, 6000), ops={"stub": 4, "call": 8, "cells": 3, "poke": 1}, len=(10, 30), methods=["ri", "pi", "ro", "mix", "rp", "pc", "rs"],
          actions={"ret": 1, "do": 3, "set": 6, "scr": 1}, nested={"cells": 1, "poke": 2, "call": 1}, qty={1: 5, -1: 2}, mt={"none": 5, "args": 1}),
        R("qualified and overloaded", "over", D(200, 3000), ops={"stub": 4, "call": 8}, len=(10, 30)),
        R("inherited", "inh", D(200, 3000), ops={"stub": 4, "call": 8}, len=(10, 30)),
    ],
    "variants": D(["c++14"], ["c++14", "clang-c++14", "c++17", "c++20", "O2-c++17"]),
}

# ------------------------------------------------------------------ C18
# n calls served by a stored condition on a reference, part of them before the referent changes
def lasting(n, k, f=4, *rest):
    more = list(rest)
    return [new(1), poke(1, 2), poke(2, 2), mkh(1, 1, f, args(*([ANY] * len(more) + [c("lt", 3)]))), hstub(1, ret(5, -1)), mkh(2, 1, f, args(*([ANY] * len(more) + [c("gt", 5)])))] + \
           [call(1, f, *more, 1 + i % 2) for i in range(k)] + [poke(1, 7), hist(sh(1)), hist(sh(2)), poke(1, 1)] + \
           [call(1, f, *more, 1 + i % 2) for i in range(k, n)] + [poke(1, 8), poke(2, 9)] + \
           [ver([ph(1)], Q("ex", n), mode="bool"), ver([ph(2)], Q("ex", n), mode="bool"), hist(sh(1)), hist(sh(2)), hist(sm(1)), poke(2, 1), hist(sh(2)), hist(sf(1, f, args(*([ANY] * len(more) + [c("lt", 3)])))),
            ver([ph(1)], Q("al", n)), vno([sm(1)], "bool")]


PLANS["C18"] = {
    "fields": KVL,
    "explore": [
        X("values and references", "types",
          [new(1), fake(1, 4), stub(1, 3, ret(1, -1)), stub(1, 2, ret(1, -1)), stub(1, 23, do(3, -1), mt=args(ANY, c("gt", 1))), fake(1, 1)],
          [call(1, 4, 1), call(1, 4, 2), call(1, 3, 4), call(1, 2, 3), call(1, 23, 2, 2), call(1, 23, 2, 3), poke(1, 9), poke(2, 1), poke(4, 3), stub(1, 4, sets(5, (1, 8), fm=0))], D(4, 5),
          [hist(sm(1)), hist(sf(1, 4, eqs(9))), hist(sf(1, 4, eqs(1))), hist(sf(1, 4, args(c("gt", 1)))), hist(sf(1, 3, eqs(4))), hist(sf(1, 3, eqs(3))), hist(sf(1, 2, eqs(3))),
           hist(sf(1, 23, args(c("eq", 2), c("le", 1)))), ver([pm(1, 4, eqs(8))], Q("ex", 1), mode="bool"), ver([pm(1, 23, args(ANY, c("gt", 1)))], Q("ex", 1), mode="bool")],
          maxHist=4, limit=D(35000, 150000)),
        X("a stored condition looks at the referent each time", "types", [new(1), fake(1, 4), stub(1, 26, ret(3, -1)), mkh(1, 1, 4, args(c("lt", 3))), mkh(2, 1, 26, eqs(2))],
          [call(1, 4, 1), call(1, 4, 2), call(1, 26, 1), poke(1, 7), poke(2, 7), poke(1, 2), poke(2, 1)], D(3, 4),
          [hist(sh(1)), hist(sh(2)), ver([ph(1)], Q("ex", 1), mode="bool"), ver([ph(2)], Q("ex", 1), mode="bool"), vno([sh(1), sh(2)], "bool")], maxHist=4, limit=D(8000, 40000)),
        X("the condition object that served", "types", [new(1), mkh(1, 1, 4, args(c("lt", 3))), hstub(1, ret(5, -1)), mkh(2, 1, 23, args(c("eq", 2), c("eq", 2))), hstub(2, ret(6, -1))],
          [call(1, 4, 1), call(1, 4, 2), call(1, 23, 2, 2), poke(1, 7), poke(2, 7), poke(1, 2), stub(1, 4, ret(9, -1)), nar(1, args(c("lt", 3)))], D(4, 5),
          [ver([ph(1)], Q("ex", 1), mode="bool"), ver([ph(1)], Q("ex", 2), mode="bool"), ver([ph(2)], Q("ex", 1), mode="bool"), ver([pm(1, 4, args(c("lt", 3)))], Q("ex", 1), mode="bool"),
           hist(sh(1)), hist(sh(2)), hist(sm(1)), vno([sh(1)], "bool")], maxHist=4, limit=D(20000, 100000)),
    ],
    "random": [
        R("changing objects", "types", D(900, 15000), ops={"stub": 2, "call": 8, "poke": 5, "hist": 4, "ver": 3}, len=(12, 40), methods=["i", "s", "cs", "ri", "ro", "mix", "vec", "d", "crs"],
          actions={"ret": 3, "do": 4, "set": 4, "scr": 1}, nested={"poke": 3, "call": 2}, qty={1: 2, -1: 3}, using=0.2),
        R("stored handles", "types", D(400, 8000), ops={"stub": 2, "call": 8, "poke": 5, "hist": 3, "ver": 3, "mkh": 1, "nar": 0.5}, len=(12, 40), methods=["ri", "cs", "mix", "ro"], handle=0.6,
          handlepat=0.6, actions={"ret": 3, "do": 2, "set": 3}, qty={1: 1, -1: 3}, using=0.3),
        R("many calls, then a change", "types", D(0, 0), fixed=[lasting(n, k) for n in (3, 5, 6, 8, 12, 40) for k in (0, n // 2, n)] + [lasting(n, k, 23, 2) for n in (5, 9, 20) for k in (0, 3, n)]),
        R("spied originals that write", "spy", D(300, 6000), ops={"stub": 2, "call": 8, "poke": 3, "hist": 3, "ver": 2}, len=(12, 30), methods=["bump", "add", "rec", "inc"],
          forms={"spy": 5, "spynv": 1, "when": 2}),
    ],
}

# ------------------------------------------------------------------ C19
PLANS["C19"] = {
    "fields": ["k", "v", "w", "lg", "ev"],
    "explore": [
        X("listeners and adapters", "core", [new(1), fake(1, 1, eqs(1))],
          [addl(1), addl(2), CLRL, setad(0), setad(1), setad(2), setad(3), setfm(0), setfm(1), setfm(2), call(1, 1, 1)], D(5, 6),
          [call(1, 1, 2), call(1, 2, 1, 1), ver([pm(1, 1)], Q("ex", 5)), ver([pm(1, 1)], Q("ex", 1)), vno([sm(1)]), ver([pm(1, 1)], Q("ex", 5), mode="bool"), vno([sm(1)], "not"),
           ver([pm(1, 1)], Q("ex", 5), mode="copy"), ver([pm(1, 1)], Q("ex", 5), mode="unw"), ver([pm(1, 1)], Q("ex", -1)), call(1, 1, 1)],
          maxHist=1, limit=D(45000, 150000), fields=ALL),
        X("listeners that change the listeners", "core", [new(1), fake(1, 1, eqs(1))],
          [addl(1), addl(2), addl(4), addl(5), CLRL, setad(0), setad(2), call(1, 1, 1), call(1, 1, 2), ver([pm(1, 1)], Q("ex", 5)), vno([sm(1)])], D(4, 5),
          [call(1, 1, 2), ver([pm(1, 1)], Q("ex", 5)), vno([sm(1)]), call(1, 1, 1)],
          maxHist=1, limit=D(20000, 100000), fields=ALL),
    ],
    "random": [
        R("any failure", "core", D(700, 12000), ops={"stub": 2, "call": 6, "ver": 5, "vno": 2, "addl": 1.5, "clrl": 0.4, "setad": 1.5, "setfm": 1}, len=(14, 40), fields=ALL,
          pre=[fake(1, 1), fake(2, 1)], using=0.2, unverified=0.1, listeners=5),
        R("inside actions", "core", D(400, 8000), ops={"stub": 4, "call": 7, "ver": 3, "vno": 1, "addl": 1, "setad": 1}, len=(12, 36), fields=ALL,
          actions={"ret": 2, "thr": 1, "scr": 5}, nested={"call": 5, "ver": 2, "vno": 1, "addl": 1, "setad": 1, "clrl": 0.5, "setfm": 0.5}, listeners=5),
        R("spied and unmocked", "dtor", D(200, 4000), ops={"stub": 2, "call": 8, "ver": 2, "addl": 1, "setad": 1}, len=(12, 36), mocks=[1, 2, 3, 4, 6]),
    ],
}

# ------------------------------------------------------------------ C20
LONG = [new(1), fake(1, 1), fake(1, 3)]
PLANS["C20"] = {
    "fields": ALL,
    "explore": [
        X("texts of all failures", "core", [new(1), new(2), fake(1, 1), fake(2, 1), addl(1)],
          [call(1, 1, 1), call(2, 1, 22), call(1, 1, -3), ver([F1], mode="bool"), setad(1), setfm(1)], D(4, 5),
          [ver(s, q) for s in SHAPES for q in (Q("ex", 7), Q("al", 9))]
          + [ver([pm(1, 1, mt)], Q("ex", 8)) for mt in (args(c("any")), args(c("any", fm=1)), args(c("any", fm=2)), args(c("eq", 4, fm=1)), args(c("ne", 4)), args(c("gt", 5)), args(c("ge", 5)),
                                                        args(c("lt", -2)), args(c("le", 0)), args(c("ap", 3, 1)), pred(0), pred(1, 1))]
          + [ver([pm(1, 2, args(c("eq", 1), c("ne", 2)))]), ver([pm(1, 4)]), ver([pm(1, 3)], Q("ex", 2, 1)), ver([F1, F2], unv=True), ver([F2], Q("ex", 3), [sm(1), sm(2)]), ver([F2], Q("ex", 3), [sf(1, 1)]),
             vno([sm(1)]), vno([sm(1), sm(2)]), vno([sf(1, 1, eqs(1))]), vno([sunv(sm(1)), sm(2)]), call(1, 2, 1, -2), call(1, 4), call(1, 3, 7), ver([FA], Q("ex", 0)),
             ver([F1], Q("ex", 8), mode="copy"), ver([F1], Q("ex", 8), mode="var"), ver([FA], Q("ex", 9, 2)), ver([FA], Q("al", 9, 2)), ver([FA], Q("def", 1, 1))],
          maxHist=3, limit=D(40000, 150000)),
    ],
    "random": [
        R("texts", "core", D(500, 8000), ops={"stub": 2, "call": 8, "ver": 7, "vno": 2, "addl": 0.5, "setad": 0.3, "setfm": 0.2}, len=(12, 36), values=(-3, 120), pre=[fake(1, 1), fake(1, 2), fake(2, 1)],
          using=0.2, unverified=0.1, cat=0.3, rep=0.2, modes={"stmt": 6, "bool": 1, "copy": 1}, mt={"none": 2, "args": 5, "pred": 1}, counts={0: 1, 1: 2, 4: 4, 7: 3, 120: 1}),
        R("texts of all types", "types", D(500, 8000), ops={"stub": 3, "call": 8, "ver": 7, "vno": 2, "addl": 0.5, "poke": 0.5}, len=(12, 36), values=(1, 5),
          methods=["i", "s", "cs", "ri", "ro", "mo", "big", "c", "od", "en", "e8", "vec", "crs", "ll", "ch", "e1", "mix", "z", "rint", "rs", "hx", "cn", "us"],
          mt={"none": 2, "args": 5, "pred": 1}, counts={0: 1, 1: 2, 4: 4, 7: 3}),
        R("texts of strings", "types", D(200, 3000), ops={"stub": 2, "call": 8, "ver": 7, "vno": 2, "poke": 0.5}, len=(12, 30), values=(78, 99), methods=["s", "cs", "c", "cn", "rs"],
          mt={"none": 2, "args": 5}, counts={0: 1, 1: 2, 4: 4, 7: 3}),
        R("overloads, destructors", "over", D(200, 3000), ops={"stub": 2, "call": 8, "ver": 6, "vno": 1}, len=(12, 36)),
        R("destructors", "dtor", D(200, 3000), ops={"stub": 2, "call": 8, "ver": 6, "vno": 1, "addl": 0.3}, len=(12, 36), mocks=[1, 2, 3, 4]),
        R("long histories", "core", D(40, 300), ops={"call": 12, "ver": 1, "vno": 0.6}, len=(70, 130), mocks=[1, 2], mt={"none": 3, "args": 1}, pre=[fake(1, 1), fake(1, 2), fake(1, 3), fake(1, 4), fake(2, 1)],
          post=[ver([FA], Q("ex", 500)), vno([sm(1), sm(2)])], values=(0, 30), modes={"stmt": 1}),
        R("around fifty", "core", D(12, 12), fixed=[LONG + [call(1, 1, k) for k in range(n)] + [ver([FA], Q("ex", 500)), vno([sm(1)]), addl(1), ver([pm(1, 3)])] for n in range(45, 57)]),
    ],
    "variants": D(["c++14"], ["c++14", "clang-c++20", "c++17"]),
}

# ------------------------------------------------------------------ C21
ENDLIFE = [LIVE, drph(1), drph(2), drph(3), LIVE, dele(1), LIVE, dele(2), LIVE, dele(3), LIVE]
PLANS["C21"] = {
    "fields": KVL,
    "explore": [
        X("objects held", "life", [new(1)],
          [stub(1, 1, ret(11), ret(12, 2), mt=eqs(1)), stub(1, 1, thr(13, fm=3), do(14, -1)), stub(1, 2, scr(15, call(1, 1, 1))), mkh(1, 1, 1, eqs(2)), hstub(1, ret(16)), nar(1, eqs(3)),
           drph(1), call(1, 1, 1), call(1, 2, 5), reset(1), clear(1), mstub(1, 1, 21), stub(1, 1, ret(17), ret(18), ab=1)], D(4, 5),
          [LIVE, call(1, 1, 2), mget(1, 1)], maxHist=3, maxStmt=2, limit=D(30000, 150000)),
        X("conditions held", "life", [new(1)],
          [stub(1, 4, ret(11), mt=args(c("eq", 1), c("eq", 2))), stub(1, 4, ret(12), mt=args(c("ne", 3), c("eq", 4))), stub(1, 5, ret(13, -1), mt=args(c("eq", 5), c("eq", 1), c("eq", 6))), stub(1, 4, ret(14), mt=pred(1)),
           stub(1, 2, ret(0), mt=pred(2, 1)), mkh(1, 1, 4, args(c("eq", 7), c("eq", 8))), hstub(1, ret(15)), nar(1, args(c("eq", 9), c("any"))), nar(1, pred(0)), drph(1), call(1, 4, 1, 2), call(1, 5, 5, 1, 6), reset(1)], D(3, 4),
          [LIVE, call(1, 4, 7, 8), call(1, 4, 9, 3)], maxHist=3, maxStmt=2, limit=D(8000, 60000)),
        X("members stubbed again", "life", [new(1), new(3)],
          [mstub(m, i, 20 + 2 * m + i) for m in (1, 3) for i in (1, 3)] + [mstub(1, 1, 31), mstub(3, 1, 32), mset(1, 1, 33), mset(3, 3, 34), reset(1), reset(3), clear(1), clear(3),
                                                                        dele(1), dele(3), new(1), new(3)], D(3, 4),
          [LIVE, mget(1, 1), mget(1, 3), mget(3, 1), mget(3, 3)], maxHist=2, maxStmt=1, limit=D(10000, 60000)),
    ],
    "random": [
        R("any history", "life", D(800, 15000), ops={"stub": 5, "call": 7, "mkh": 1, "nar": 0.7, "drph": 0.5, "member": 3, "reset": 0.7, "clear": 0.7, "live": 3, "ver": 1, "del": 0.3, "new": 0.5},
          len=(12, 40), values=(1, 9), handle=0.3, handlepat=0.2, errs={0: 1, 3: 3}, abandon=0.1, modes={"bool": 1, "stmt": 1}, post=ENDLIFE,
          actions={"ret": 4, "thr": 3, "do": 3}),
        R("nested", "life", D(400, 8000), ops={"stub": 5, "call": 7, "mkh": 1, "member": 1, "reset": 0.7, "clear": 0.7, "live": 2}, len=(12, 30), values=(1, 9), handle=0.3, errs={0: 1, 3: 3},
          actions={"ret": 3, "thr": 2, "do": 2, "scr": 4}, nested={"call": 4, "stub": 3, "clear": 1, "reset": 1, "mkh": 1}, post=ENDLIFE),
        R("all types, with sanitizer", "types", D(400, 8000), fields=KV, ops={"stub": 4, "call": 8, "mkh": 1, "nar": 0.5, "drph": 0.3, "clear": 0.5, "reset": 0.3, "hist": 1}, len=(12, 40), methods=SHOWN, handle=0.3,
          actions={"ret": 4, "thr": 1, "do": 3, "set": 3}),
        R("spied objects, with sanitizer", "spy", D(200, 4000), ops={"stub": 4, "call": 8, "mkh": 1, "nar": 0.5, "clear": 0.5, "reset": 0.3, "del": 0.3, "new": 0.5}, len=(12, 40), handle=0.3,
          forms={"spy": 4, "spynv": 2, "when": 3}),
    ],
}

# ------------------------------------------------------------------ C22
BIGS = ["big%d" % k for k in range(1, 9)]


def bigplan(w, step=1):
    n = range(1, 126, step)
    return X("every position", w, [new(1)], [stub(1, f, ret(f % 90 + 1, -1)) for f in n], D(1, 1),
             [call(1, f, 1) for f in n], leaf=True, near=True)


PLANS["C22"] = {
    "fields": KVL,
    "explore": [
        X("single inheritance, all views", "inh", [new(1), new(2), new(3), new(4)],
          [stub(m, f, ret(10 * m + f, -1)) for m in (1, 2, 3, 4) for f in (1, 2, 3, 4, 5)] + [stub(m, 6, do(6 + m, -1)) for m in (1, 3, 4)], D(1, 2),
          [call(m, f, 1, fm=k) for m in (1, 2, 3, 4) for f in (1, 2, 3, 4, 5) for k in range(3)] + [call(m, 6, fm=k) for m in (1, 3, 4) for k in range(3)]
          + [ident(m) for m in (1, 2, 3, 4)] + [hist(sm(1), sm(2), sm(3))], limit=D(40000, 60000)),
        X("overloads", "over", [new(1)], [stub(1, f, ret(10 + f, -1)) for f in range(1, 16)], D(2, 3),
          [call(1, f, *([] if f in (1, 5, 6, 7, 8) else [1, 1] if f == 11 else [1])) for f in range(1, 16)], limit=D(8000, 20000)),
    ],
    "random": [
        R("thousand methods, part %d" % (k + 1), w, D(40, 400), ops={"stub": 5, "call": 6, "ver": 1, "hist": 1}, len=(60, 120), unique=True, mt={"none": 3, "args": 1},
          fixed=[[new(1)] + [stub(1, f, ret(f % 97 + 1, -1)) for f in order] + [call(1, f, 1) for f in order2] + [ver([pm(1, f)], Q("ex", 1), mode="bool") for f in order2] + [hist(sm(1))]
                 for order, order2 in ((range(1, 126), range(1, 126)), (range(125, 0, -1), range(125, 0, -1)), (range(1, 126, 2), range(1, 126)), (range(2, 126, 2), range(1, 126)))])
        for k, w in enumerate(BIGS)
    ] + [
        R("inheritance chains", "inh", D(400, 8000), ops={"stub": 4, "call": 9, "ver": 2, "hist": 1, "ident": 0.5, "reset": 0.3}, len=(12, 40), unique=True),
        R("overloads and qualifiers", "over", D(200, 5000), ops={"stub": 4, "call": 9, "ver": 2, "hist": 1}, len=(12, 40), unique=True),
        R("places of the destructor", "dtor", D(200, 4000), ops={"stub": 4, "call": 9, "ver": 2, "hist": 1}, len=(12, 40), unique=True, mocks=[1, 2, 3, 4, 6]),
        R("many signatures", "types", D(200, 4000), ops={"stub": 4, "call": 9}, len=(12, 40), unique=True),
    ],
    "variants": D(["c++14"], ["c++14", "clang-c++20"]),
}

# ------------------------------------------------------------------ C23
PLANS["C23"] = {
    "fields": KVL,
    "explore": [
        X("members", "mem", [new(1), new(2)],
          [mset(1, i, 5) for i in (1, 2, 3, 5, 7)] + [mstub(1, i, 6) for i in (1, 3, 4, 6)] + [mset(2, 1, 9), mstub(2, 4, 8), fake(1, 1), reset(1), clear(1)], D(3, 4),
          [mget(1, i) for i in range(1, 8)] + [mget(2, 1), mget(2, 4), call(1, 1, 1), call(1, 2, 1), ident(1)], maxHist=3, maxStmt=1, limit=D(40000, 150000)),
        X("members of an existing object", "mem", [new(3)],
          [mset(3, i, 5) for i in (1, 4, 6)] + [mstub(3, i, 7) for i in (1, 3, 4, 6)] + [mstub(3, 4, 8), spy(3, 1), reset(3), dele(3), new(3)], D(3, 4),
          [mget(3, i) for i in range(1, 8)] + [call(3, 1, 1), call(3, 2, 1), ident(3)], maxHist=3, maxStmt=1, limit=D(10000, 60000)),
    ],
    "random": [
        R("members and methods", "mem", D(800, 12000), ops={"member": 10, "stub": 2, "call": 4, "reset": 0.7, "clear": 0.5, "ident": 1, "del": 0.2, "new": 0.4}, len=(12, 50),
          forms={"when": 4, "fake": 1, "spy": 2}),
        R("identity and casts", "inh", D(200, 3000), ops={"stub": 3, "call": 4, "ident": 4, "reset": 0.7, "clear": 0.5, "del": 0.3, "new": 0.5}, len=(8, 24)),
        R("members of classes with a destructor", "dtor", D(200, 3000), ops={"member": 6, "stub": 2, "call": 5, "reset": 0.7, "ident": 1}, len=(10, 30), mocks=[1, 2, 3, 4]),
        R("class members", "life", D(200, 3000), ops={"member": 8, "stub": 2, "call": 4, "reset": 0.7, "clear": 0.5, "live": 1}, len=(10, 30), values=(1, 9)),
    ],
    "variants": D(["c++14"], ["c++14", "clang-c++20"]),
}

# ------------------------------------------------------------------ C24
import packages
ADAPT = packages.adapters
FULL = packages.battery
PLANS["C24"] = {
    "fields": ALL,
    "explore": [
        X("failures of every kind reach the framework", "core", [new(1), new(2), fake(1, 1, eqs(1)), fake(2, 1)],
          [call(1, 1, 1), call(2, 1, 1), setfm(1), setfm(0), addl(1), ver([pm(1, 1)], mode="bool"), setad(2)], D(3, 4),
          [call(1, 1, 2), call(1, 2, 1, 1), call(1, 4), ver([pm(1, 1)], Q("ex", 5)), ver([pm(1, 1)], Q("ex", 1)), ver([pm(1, 1)], Q("ex", 0)), ver([pm(1, 1), pm(2, 1)]), vno([sm(1)]), vno([sm(1), sm(2)]),
           ver([pm(1, 1)], Q("ex", 5), mode="bool"), vno([sm(1)], "not"), ver([pm(1, 1)], Q("ex", 5), mode="copy"), ver([pm(1, 1)], Q("ex", 5), mode="unw"), ver([pm(1, 1)], Q("ex", -1)),
           ver([cat(pm(1, 1), pm(2, 1))], Q("al", 2), [sm(1), sm(2)], mode="var")],
          maxHist=3, limit=D(2500, 20000), variants=ADAPT, walks=D(40, 300)),
        X("statements and histories", "core", [new(1), new(2), fake(2, 1)],
          [stub(1, 1, ret(11), ret(12, -1)), stub(1, 1, ret(21), thr(22), mt=eqs(1)), stub(1, 1, scr(31, call(1, 1, 1)), do(32, 2), mt=args(c("gt", 1))), call(1, 1, 1), call(1, 1, 2), call(2, 1, 1), reset(1), clear(2)], D(4, 5),
          [ver([cat(pm(1, 1), pm(2, 1))], mode="bool"), ver([pm(1, 1, eqs(1))], Q("ex", 2)), vno([sm(1), sm(2)]), hist(sunv(sm(1), sm(2))), call(1, 3, 1)],
          maxHist=4, maxStmt=2, limit=D(8000, 60000), variants=FULL),
    ],
    "random": [
        R("failures, also inside actions", "core", D(120, 2000), ops={"stub": 3, "call": 7, "ver": 5, "vno": 2, "setfm": 0.7, "setad": 0.4, "addl": 0.4}, len=(12, 36), variants=ADAPT,
          pre=[fake(1, 1), fake(2, 1)], actions={"ret": 4, "thr": 1, "scr": 2}, nested={"call": 4, "ver": 2, "vno": 1}, using=0.2, unverified=0.1),
        R("long reports", "core", D(8, 40), ops={"call": 12, "ver": 1, "vno": 0.6}, len=(70, 90), mocks=[1, 2], variants=ADAPT, pre=[fake(1, 1), fake(1, 2), fake(2, 1)],
          mt={"none": 3, "args": 1}, post=[ver([FA], Q("ex", 500)), vno([sm(1), sm(2)])], values=(0, 30), modes={"stmt": 1}),
    ] + [
        R("battery", w, D(n, 20 * n), ops=dict(ops), len=(12, 36), fields=f, variants=FULL, **kw)
        for w, n, f, ops, kw in (
            ("core", 300, ALL, {"stub": 4, "call": 8, "ver": 4, "vno": 1, "hist": 2, "reset": 0.5, "clear": 0.5, "mkh": 0.5, "mks": 0.5, "multi": 0.3, "addl": 0.3, "setad": 0.3},
             dict(handle=0.2, stored=2, late=0.1, lateops={"call": 3}, abandon=0.1, multis=PAIRS)),
            ("over", 120, KVL, {"stub": 4, "call": 8, "ver": 3, "hist": 1, "reset": 0.3}, {}),
            ("spy", 150, KVL, {"stub": 4, "call": 9, "obj": 1, "hist": 2, "reset": 0.6, "del": 0.4, "new": 0.7}, dict(methods=SPSHOWN, forms={"spy": 5, "spynv": 2, "when": 3, "fake": 1})),
            ("dtor", 120, KVL, {"stub": 4, "call": 8, "ver": 2, "hist": 1, "member": 2, "reset": 0.5, "ident": 1}, dict(mocks=[1, 2, 3, 4, 6])),
            ("mem", 120, KVL, {"member": 8, "stub": 2, "call": 4, "reset": 0.7, "clear": 0.5, "ident": 1}, dict(forms={"when": 4, "fake": 1, "spy": 2})),
            ("life", 120, KVL, {"stub": 5, "call": 7, "mkh": 1, "nar": 0.7, "drph": 0.5, "member": 3, "reset": 0.7, "clear": 0.7, "live": 3}, dict(values=(1, 9), handle=0.3, errs={0: 1, 3: 3}, abandon=0.1, post=ENDLIFE)),
            ("inh", 120, KVL, {"stub": 4, "call": 9, "ver": 2, "hist": 1, "ident": 0.5, "reset": 0.3}, {}),
            ("types", 200, KVL, {"stub": 4, "call": 8, "cells": 2, "poke": 1, "ver": 2}, dict(methods=SHOWN, actions={"ret": 4, "thr": 1, "do": 4, "set": 4})),
        )
    ],
}
