"""The worlds: mocked classes, their methods and the mocks of a run.

One description serves the specification (World in FakeIt.tla) and the program
generators; the driver implements the classes (driver/w_<name>.cpp).
"""


def P(t, k="v"):
    return {"t": t, "k": k}


def M(nm, pt, rt="int", kind="m", orig=0, **kw):
    """kw: set (forms of ReturnAndSet), fms (ways to call), norec (recorded arguments cannot be
    compared later: moved from or a dead temporary), nofake"""
    r = {"nm": nm, "pt": [P(*p) if isinstance(p, tuple) else P(p) for p in pt],
         "rt": rt, "kind": kind, "orig": orig}
    r.update(kw)
    return r


def T(methods, members=()):
    return {"methods": list(methods), "members": [{"t": t} for t in members]}


def K(nm, ty, spy=False, n=0):
    return {"nm": nm, "ty": ty, "spy": spy, "ob": {"n": n}}


STR = [""] + ["%04d" % i + (" %d%s\\\"'\t\n" if 80 <= i < 90 else "x" * 400 + "." if 90 <= i < 100 else "") for i in range(1, 100)]
TEXT = {
    "str": STR,
    "cstr": ['"%s"' % x for x in STR],
    "dbl": ["%g" % (i * 0.5) for i in range(100)],
    "bool": ["false", "true"],
    "char": ["'%s'" % (chr(97 + i) if i else "?") for i in range(26)],   # the driver shows NUL as ?
    "ll": [str(i * 10000000000) for i in range(100)],
    "big": ["?"] * 100,
    "odd": ["?"] * 100,
    "mo": ["?"] * 100,
    "vec": ["?"] * 100,
    "trk": ["?"] * 100,
    "held": ["?"] * 100,
    "enum": ["?"] * 100,
    "hex": ["%d/0x%x" % (i + 16, i + 16) for i in range(100)],
    "us": ["<U%d>" % i for i in range(100)],
    "cnul": ["[nullptr]"] + ['"%s"' % x for x in STR[1:]],
}

A = T([M("f", ["int"]), M("g", ["int", "int"]), M("p", ["int"], "void"), M("z", [])])
B = T([M("f", ["int"]), M("k", ["int"])])


def F(fm, *pos):
    return {"fm": fm, "pos": list(pos)}


TYPES = T([
    M("i", ["int"]),
    M("s", ["str"], "str"),
    M("cs", [("str", "r")], "str"),
    M("ri", [("int", "r")], set=[F(0, 1), F(1, 1)]),
    M("pi", [("int", "p")], set=[F(0, 1), F(1, 1)]),
    M("ro", ["int", ("int", "r"), ("str", "r")], "void", set=[F(0, 2), F(1, 3), F(2, 2, 3), F(3, 3, 2)]),
    M("mo", ["mo"], "mo"),
    M("rr", ["str"], norec=True),
    M("big", ["big"], "big"),
    M("rint", [], "&int"),
    M("pint", [], "ptr"),
    M("d", ["dbl"], "dbl"),
    M("c", ["cstr"]),
    M("od", ["odd"]),
    M("en", ["enum", "bool", "char"], "bool"),
    M("e8", ["int"] * 8),
    M("vec", ["vec"], "vec"),
    M("pc", [("int", "r"), ("int", "p")]),
    M("crs", ["int"], "&str"),
    M("ll", ["ll"], "ll"),
    M("ch", ["char"], "char"),
    M("e1", ["enum"], "enum"),
    M("mix", ["str", ("int", "r")], set=[F(0, 2)]),
    M("z", [], "str"),
    M("rp", [("int", "r"), ("str", "p")], set=[F(0, 1, 2), F(1, 1), F(2, 2), F(3, 2, 1)]),
    M("rs", [("int", "r")], "str", set=[F(0, 1), F(1, 1)]),
    M("hx", ["hex"]),
    M("cn", ["cnul"]),
    M("us", ["us"], "us"),
])

OVER = T([M("f", []), M("f", ["int"]), M("f", ["int"]), M("f", ["str"]), M("r", []), M("r", []), M("r", []), M("r", []),
          M("v", ["int"]), M("w", ["int"]), M("f", ["int", "int"]), M("f", ["ll"]),
          M("q", ["int"]), M("s", ["int"], "str"), M("n", ["int"], "void")])

def spied(fix):
    return T([M("add", ["int"]), M("inc", ["int"]), M("dbl", ["int"]), M("rec", ["int"]), M("ping", ["int"]), M("pong", ["int"]),
              M("thr", ["int"]), M("mix", ["int"]), M("bump", [("int", "r")]), M("take", ["mo"], norec=True),
              M("cat", ["str"], "str", norec=True), M("vd", ["int"], "void"), M("fix", [], orig=fix), M("lrg", ["big"], "big", norec=True),
              M("tri", ["int"]), M("deep", ["int"]), M("err", ["int"])])


DTOR = M("dtor", [], "void", "dtor", fms=3)
DTORB = M("dtor", [], "void", "dtor", fms=4)
FG = [M("f", ["int"]), M("g", ["int"])]
HOLD = M("h", ["held"])                              # a value other than 0 owns the mocked object

INHM = [M("a", ["int"], fms=3), M("b", ["int"], fms=3), M("c", ["int"], fms=3), M("d", ["int"], fms=3), M("e", ["str"], "str")]

LIFE = T([M("t", ["trk"], "trk"), M("v", ["trk"], "void"), M("i", ["int"]), M("w", ["trk", "trk"]), M("x", ["trk", "int", "trk"], "trk")], ["class", "int", "class"])
LIFES = T([M("i", ["int"], orig=63)], ["class", "int", "class"])
MEM = T([M("f", ["int"]), M("g", ["int"])], ["int", "char", "dbl", "class", "ll", "class", "arr"])
MEMS = T([M("f", ["int"], orig=61), M("g", ["int"], orig=62)], ["int", "char", "dbl", "class", "ll", "class", "arr"])

WORLDS = {
    "core": {"types": [A, B], "mocks": [K("m1", 1), K("m2", 1), K("m3", 2)], "cells": []},
    "types": {"types": [TYPES], "mocks": [K("m1", 1)], "cells": [1, 2, 3, 4, 5], "ct": ["int"] * 3 + ["str"] * 2,
              "src": ["w_types.cpp"] + ["w_types%d.cpp" % i for i in range(1, 8)]},
    "over": {"types": [OVER], "mocks": [K("m1", 1), K("m2", 1)], "cells": []},
    "spy": {"types": [spied(77), spied(78)], "mocks": [K("m1", 1, True, 5), K("m2", 2, True, 7), K("m3", 1)], "cells": [1, 2], "ct": ["int"] * 2},
    "dtor": {"types": [T(FG + [DTOR, HOLD], ["plain"]), T(FG + [DTORB, HOLD], ["plain"]), T(FG + [M("dtor", [], "void", "nodtor")], ["plain"]), T([DTOR])],
             "mocks": [K("m1", 1), K("m2", 1), K("m3", 1), K("m4", 2), K("m5", 3), K("m6", 4)], "cells": []},
    "life": {"types": [LIFE, LIFES], "mocks": [K("m1", 1), K("m2", 1), K("m3", 2, True)], "cells": []},
    "mem": {"types": [MEM, MEMS], "mocks": [K("m1", 1), K("m2", 1), K("m3", 2, True)], "cells": []},
    "inh": {"types": [T(INHM + [DTOR]), T(INHM)], "mocks": [K("m1", 1), K("m2", 2), K("m3", 1), K("m4", 1)], "cells": []},
    "coll": {"types": [T([M("f", ["int"]), M("f", ["ll"]), M("g", ["int"]), M("h", ["int"]), M("k", ["int"])])], "mocks": [K("m1", 1)], "cells": [],
             "src": ["w_coll.cpp", "w_coll2.cpp"]},
}
for _n in range(8):
    WORLDS["big%d" % (_n + 1)] = {
        "types": [T([M("f%d%02d" % (1 + _i // 100, _i % 100), ["int"]) for _i in range(_n * 125, _n * 125 + 125)])],
        "mocks": [K("m1", 1)], "cells": []}


def world(name):
    w = dict(WORLDS[name])
    w["name"] = name
    w["text"] = TEXT
    return w


def sources(name):
    return ["main.cpp"] + WORLDS[name].get("src", ["w_%s.cpp" % name])
