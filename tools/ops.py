"""Constructors of operations, actions, conditions and patterns (see FakeIt.tla)."""

NONE = {"k": "none"}


def pred(p, fm=0):
    return {"k": "pred", "p": p, "fm": fm}


def c(k, v=0, e=0, fm=0):
    return {"k": k, "v": v, "e": e, "fm": fm}


def args(*cs):
    return {"k": "args", "c": list(cs), "fm": 0}


def eqs(*vs):
    return args(*[c("eq", v) for v in vs])


def act(t, v=0, n=1, w=(), ops=(), x=0, fm=0):
    return {"t": t, "v": v, "n": n, "w": [list(p) for p in w], "ops": list(ops), "x": x, "fm": fm}


def ret(v, n=1, fm=0):
    return act("ret", v, n, fm=fm)


def thr(v, n=1, fm=0):
    return act("thr", v, n, fm=fm)


def do(v, n=1, fm=0):
    return act("do", v, n, fm=fm)


def scr(v, *ops, **kw):
    return act("scr", v, kw.get("n", 1), ops=ops, x=kw.get("x", 0))


def sets(v, *w, **kw):
    return act("set", v, kw.get("n", 1), w=w, fm=kw.get("fm", 0))


DEF = act("def", 0, -1)
DLG = act("dlg", 0, -1)
DLGNV = act("dlg", 0, -1, fm=1)


def new(m):
    return {"t": "new", "m": m}


def dele(m):
    return {"t": "del", "m": m}


def reset(m):
    return {"t": "reset", "m": m}


def clear(m):
    return {"t": "clear", "m": m}


def stub(m, f, *ac, **kw):
    return {"t": "stub", "m": m, "f": f, "h": kw.get("h", 0), "mt": kw.get("mt", NONE),
            "ac": list(ac), "fm": kw.get("fm", "when"), "ab": kw.get("ab", -1), "lc": list(kw.get("lc", ()))}


def hstub(h, *ac, **kw):
    return stub(0, 0, *ac, h=h, **kw)


def fake(m, f, mt=NONE, h=0):
    return stub(m, f, DEF, fm="fake", mt=mt, h=h)


def spy(m, f, mt=NONE, h=0, nv=False):
    return stub(m, f, DLGNV if nv else DLG, fm="spynv" if nv else "spy", mt=mt, h=h)


def asg(m, f, a, mt=NONE, h=0):
    return stub(m, f, dict(a, n=-1), fm="asg", mt=mt, h=h)


def multi(k, *xs):
    ac = {"fake": DEF, "spy": DLG, "spynv": DLGNV}[k]
    return {"t": "multi", "fm": k, "ac": ac, "xs": [{"m": x[0], "f": x[1], "mt": x[2] if len(x) > 2 else NONE} for x in xs]}


def call(m, f, *a, **kw):
    return {"t": "call", "m": m, "f": f, "a": list(a), "fm": kw.get("fm", 0)}


def rpt(m, f, n, *a, **kw):
    """The same call n times, served by a statement of plain results."""
    return {"t": "rpt", "m": m, "f": f, "n": n, "a": list(a), "fm": 0, "x": kw.get("x", 0)}


def uw(*ops):
    """Operations of a destructor that runs because of an exception."""
    return {"t": "uw", "ops": list(ops)}


# patterns
def pm(m, f, mt=NONE):
    return {"k": "m", "m": m, "f": f, "mt": mt}


def ph(h):
    return {"k": "h", "h": h}


def cat(l, r):
    return {"k": "cat", "l": l, "r": r}


def rep(l, n, fm=0):
    return {"k": "rep", "l": l, "n": n, "fm": fm}


# sources
def sm(m):
    return {"k": "mock", "m": m}


def sf(m, f, mt=NONE):
    return {"k": "meth", "m": m, "f": f, "mt": mt}


def sh(h):
    return {"k": "h", "h": h}


def ss(k):
    """A stored source."""
    return {"k": "s", "s": k}


def sunv(*xs):
    return {"k": "unv", "xs": list(xs)}


def Q(k="def", n=1, fm=0):
    return {"k": k, "n": n, "fm": fm}


def used(xs):
    ms, hs, st = set(), set(), set()

    def walk(x):
        if "m" in x:
            ms.add(x["m"])
        if "h" in x:
            hs.add(x["h"])
        if "s" in x:
            st.add(x["s"])
        for k in ("l", "r"):
            if k in x:
                walk(x[k])
        for y in x.get("xs", ()):
            walk(y)
    for x in xs:
        walk(x)
    return {"use": sorted(ms), "useh": sorted(hs), "uses": sorted(st)}


def ver(pat, q=None, src=(), unv=False, mode="stmt", lc=()):
    pat = list(pat)
    src = list(src)
    return dict({"t": "ver", "pat": pat, "src": src, "unv": unv, "q": q or Q(), "mode": mode, "lc": list(lc)}, **used(pat + src))


def vno(src, mode="stmt"):
    src = list(src)
    return dict({"t": "vno", "src": src, "mode": mode}, **used(src))


def hist(*src):
    """The recorded invocations the sources select, in order."""
    return dict({"t": "hist", "src": list(src)}, **used(src))


def mks(k, x):
    """Stores a source; only mocks, method filters and Unverified of those."""
    return dict({"t": "mks", "s": k, "x": x}, **used([x]))


def age(kind, n):
    """Work on mocks of its own: kind 0 calls, 1 methods, 2 statements, 3 mocks, 4 verifications."""
    return {"t": "age", "v": kind, "n": n}


def mkh(h, m, f, mt=NONE):
    return {"t": "mkh", "h": h, "m": m, "f": f, "mt": mt}


def nar(h, mt):
    return {"t": "nar", "h": h, "mt": mt}


def drph(h):
    return {"t": "drph", "h": h}


def addl(v):
    return {"t": "addl", "v": v}


CLRL = {"t": "clrl"}


def setad(v):
    return {"t": "setad", "v": v}


def setfm(v):
    return {"t": "setfm", "v": v}


def poke(cell, v):
    return {"t": "poke", "c": cell, "v": v}


CELLS = {"t": "cells"}
LIVE = {"t": "live"}


def mset(m, i, v):
    return {"t": "mset", "m": m, "i": i, "v": v}


def mget(m, i):
    return {"t": "mget", "m": m, "i": i}


def mstub(m, i, v):
    return {"t": "mstub", "m": m, "i": i, "v": v}


def ident(m):
    return {"t": "ident", "m": m}


def obj(m):
    return {"t": "obj", "m": m}
