------------------------------- MODULE Props --------------------------------
(***************************************************************************)
(* The properties, stated independently of how Step computes its result:   *)
(* Holds(p, s, op, r) says that the step r = Step(s, op) satisfies         *)
(* property p.  TLC evaluates it for every operation of an alphabet in     *)
(* every reachable state (Gen) and for every step of every validated       *)
(* trace (Trace).  r.g is the ghost record of the step: how every call     *)
(* was served and how every verification was evaluated, nested ones        *)
(* included.                                                               *)
(***************************************************************************)
EXTENDS FakeIt

Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Ghosts(r, e) == {j \in DOMAIN r.g : r.g[j].e = e}
GhostSeq(r, e) == SelectSeq(r.g, LAMBDA x : x.e = e)
With(s, cl) == [s EXCEPT !.cl = cl]
Own(s, m, q) == SelectSeq(q, LAMBDA x : x.m = m)

RECURSIVE Total(_), NthAction(_, _)
\* calls a statement can serve, -1 = no limit
Total(ac) == IF ac = <<>> THEN 0
             ELSE IF ac[1].n < 0 THEN -1
             ELSE LET t == Total(Tail(ac)) IN IF t < 0 THEN -1 ELSE ac[1].n + t
\* the action that serves call number k (from 0), as written
NthAction(ac, k) == IF ac[1].n < 0 \/ k < ac[1].n THEN ac[1] ELSE NthAction(Tail(ac), k - ac[1].n)
Spent(t) == Total(t.ac0) >= 0 /\ t.srv >= Total(t.ac0)
SameAction(x, y) == [x EXCEPT !.n = 0] = [y EXCEPT !.n = 0]

Accepting(s, cl, m, f, a, sts) == {j \in DOMAIN sts : Accepts(With(s, cl), sts[j].mt, m, f, a)}

\* mocks and methods an operation may touch, nested operations included
RECURSIVE Touched(_, _), TouchedAll(_, _)
ActOps(ac) == IF \E i \in DOMAIN ac : ac[i].t = "scr" THEN {ac[i].ops : i \in {j \in DOMAIN ac : ac[j].t = "scr"}} ELSE {}
TouchedAll(s, ops) == UNION {Touched(s, ops[i]) : i \in DOMAIN ops}
Named(s, op) == {op.use[i] : i \in DOMAIN op.use}
                \cup {s.hd[op.useh[i]].m : i \in DOMAIN op.useh}
                \cup UNION {{s.so[op.uses[i]].ms[j] : j \in DOMAIN s.so[op.uses[i]].ms} : i \in DOMAIN op.uses}
Touched(s, op) ==
  CASE op.t \in {"call", "rpt"} -> {op.m}
    [] op.t = "stub"  -> {IF op.h # 0 THEN s.hd[op.h].m ELSE op.m} \cup TouchedAll(s, op.lc)
    [] op.t = "multi" -> {op.xs[i].m : i \in DOMAIN op.xs}
    [] op.t = "ver"   -> Named(s, op) \cup TouchedAll(s, op.lc)
    [] op.t \in {"vno", "hist", "mks"} -> Named(s, op)
    [] op.t \in {"new", "del", "reset", "clear", "mkh", "mset", "mstub"} -> {op.m}
    [] OTHER -> {}

\* a call served by an action that runs further operations
Scripted(r) == \E j \in Ghosts(r, "serve") : r.g[j].ac # <<>> /\ r.g[j].ac[1].t = "scr"
Nested(op, r) == Scripted(r) \/ op.t = "uw" \/ (op.t \in {"stub", "ver"} /\ op.lc # <<>>)

-----------------------------------------------------------------------------
C01(s, op, r) ==
  /\ \A j \in Ghosts(r, "serve") :
       LET g == r.g[j]  acc == Accepting(s, g.cl, g.m, g.f, g.a, g.sts)
       IN  acc # {} /\ g.i = Max(acc) /\ (g.ac = <<>> <=> Spent(g.sts[g.i]))
  /\ \A j \in Ghosts(r, "reject") :
       LET g == r.g[j] IN Accepting(s, g.cl, g.m, g.f, g.a, g.sts) = {}

C02(s, op, r) ==
  /\ \A j \in Ghosts(r, "serve") :
       LET g == r.g[j]  t == g.sts[g.i]
       IN  IF g.ac = <<>> THEN Spent(t)
           ELSE ~Spent(t) /\ SameAction(g.ac[1], NthAction(t.ac0, t.srv))
  /\ \A m \in Mocks : \A f \in Methods(m) : \A i \in DOMAIN r.s.st[m][f] :
       LET t == r.s.st[m][f][i] IN Total(t.ac0) >= 0 => t.srv <= Total(t.ac0)
  \* of many calls, the first and the last of every run of equal results
  /\ op.t = "rpt" /\ r.o.k = "ok" /\ Accepting(s, s.cl, op.m, op.f, op.a, s.st[op.m][op.f]) # {} =>
       LET t     == s.st[op.m][op.f][Max(Accepting(s, s.cl, op.m, op.f, op.a, s.st[op.m][op.f]))]
           R     == 1 .. (Len(r.o.w) \div 2)
           Up(j) == t.srv + SumSeq([k \in 1 .. j |-> r.o.w[2 * k]])
       IN  /\ Up(Len(r.o.w) \div 2) = t.srv + op.n
           /\ \A j \in R : IF r.o.w[2 * j - 1] = -1 THEN j = Max(R) /\ Up(j - 1) = Total(t.ac0)
                           ELSE /\ NthAction(t.ac0, Up(j - 1)).v = r.o.w[2 * j - 1]
                                /\ NthAction(t.ac0, Up(j) - 1).v = r.o.w[2 * j - 1]

Usable(s, m, f, a) ==
  LET acc == Accepting(s, s.cl, m, f, a, s.st[m][f])
  IN  acc # {} /\ ~Spent(s.st[m][f][Max(acc)])
Left(s) == [m \in Mocks |-> [f \in Methods(m) |-> [i \in DOMAIN s.st[m][f] |->
              [mt |-> s.st[m][f][i].mt, ac |-> DropDone(s.st[m][f][i].ac), srv |-> s.st[m][f][i].srv]]]]
C03(s, op, r) ==
  op.t = "call" /\ r.o.k # "skip" /\ ~IsSpy(op.m) /\ ~IsDtor(op.m, op.f) =>
    IF Usable(s, op.m, op.f, op.a)
    THEN r.g[1].e = "serve" /\ (~Scripted(r) => Ghosts(r, "unexpected") = {} /\ r.o.ev = <<>>)
    ELSE /\ r.o.k = IF s.ad \in {1, 3} THEN "adp" ELSE "unx"
         /\ Cardinality(Ghosts(r, "unexpected")) = 1
         /\ Left(r.s) = Left(s)
         /\ Len(r.o.ev) = Len(s.ls) + (IF s.ad = 0 THEN 0 ELSE 1)

C04(s, op, r) ==
  Ghosts(r, "forget") = {} =>
       LET served == GhostSeq(r, "serve")
       IN  /\ Len(r.s.hs) = Len(s.hs) + Len(served)
           /\ \A i \in DOMAIN s.hs : [r.s.hs[i] EXCEPT !.v = s.hs[i].v] = s.hs[i]
           /\ \A i \in DOMAIN served :
                LET h == r.s.hs[Len(s.hs) + i]
                IN  h.m = served[i].m /\ h.f = served[i].f /\ h.a = served[i].a

-----------------------------------------------------------------------------
(* Counting: the largest number of occurrences that follow each other      *)
(* without overlap, over all ways to place the sequences.                  *)
SmallScope == 9      \* Best tries all placements: compared on scopes up to this size
RECURSIVE Ends(_, _, _, _), Best(_, _, _, _)
Places(s, q, e, p) == {x \in p .. (Len(q) - Len(e) + 1) : MatchAt(s, q, e, x)}
Ends(s, q, pat, p) ==
  IF pat = <<>> THEN {p}
  ELSE UNION {Ends(s, q, Tail(pat), x + Len(pat[1])) : x \in Places(s, q, pat[1], p)}
Best(s, q, pat, p) ==
  LET e == Ends(s, q, pat, p)
  IN  IF e = {} THEN 0 ELSE 1 + Max({Best(s, q, pat, x) : x \in e})

RECURSIVE PatLen(_)
PatLen(pat) == IF pat = <<>> THEN 0 ELSE Len(pat[1]) + PatLen(Tail(pat))

\* the state in which the verification of op was evaluated
At(s, op) == IF op.lc = <<>> THEN s ELSE RunOps(MentionSrcs(MentionSeqs(s, op.pat), op.src), op.lc)

IsVerdict(o) == o.k \in {"ok", "vfail", "nfail", "adp", "true", "false"}
Negative(op) == op.q.k \in {"ex", "al"} /\ (op.q.n < 0 \/ (op.q.fm = 4 /\ op.q.n # 1))
Passed(op, o) == IF op.mode = "not" THEN o.k = "false" ELSE o.k \in {"ok", "true"}

C05(s, op, r) ==
  op.t = "ver" /\ r.o.k # "skip" =>
    IF (\E i \in DOMAIN op.pat : BadRepetition(op.pat[i])) \/ (Negative(op) /\ op.mode # "unw")
    THEN r.o.k = "inv" /\ (op.lc = <<>> => r.s.hs = s.hs)
    ELSE IF op.mode = "unw" THEN r.o.k = "abd"
    ELSE LET t   == At(s, op)
             q   == Scope(t, op)
             pat == [i \in DOMAIN op.pat |-> Flat(t, op.pat[i])]
             n   == Best(t, q, pat, 1)
         IN  s.ad # 2 /\ Len(q) <= SmallScope => (Passed(op, r.o) <=> Meets(op.q, n))

Verified(h) == {i \in DOMAIN h : h[i].v}
C06(s, op, r) ==
  /\ op.t = "ver" /\ r.o.k # "skip" /\ ~Nested(op, r) =>
       LET g == GhostSeq(r, "verify")
       IN  IF g = <<>> THEN r.s.hs = s.hs
           ELSE /\ Len(g) = 1
                /\ Verified(r.s.hs) = Verified(s.hs) \cup (IF g[1].pass THEN g[1].got ELSE {})
                /\ g[1].got \subseteq {g[1].scope[i] : i \in DOMAIN g[1].scope}
                \* complete, disjoint occurrences
                /\ Cardinality(g[1].got) = g[1].n * PatLen(g[1].pat)
                \* whatever is marked can be seen as that many occurrences on its own
                /\ Cardinality(g[1].got) <= SmallScope => Best(s, Sorted(g[1].got), g[1].pat, 1) = g[1].n
  /\ op.t = "vno" /\ r.o.k # "skip" =>
       LET sel == SelectedAll(s, op.src)
           bad == {i \in sel : ~s.hs[i].v}
       IN  /\ r.s.hs = s.hs
           /\ op.mode # "unw" /\ s.ad # 2 => (Passed(op, r.o) <=> bad = {})
  /\ op.t \notin {"ver", "vno"} /\ ~Nested(op, r) /\ Ghosts(r, "forget") = {} =>
       Verified(r.s.hs) = Verified(s.hs)

\* only what is in the scope counts
C07(s, op, r) ==
  op.t = "ver" /\ r.o.k # "skip" /\ Ghosts(r, "verify") # {} /\ op.lc = <<>> =>
    LET g    == GhostSeq(r, "verify")[1]
        inS  == {g.scope[i] : i \in DOMAIN g.scope}
        must == IF op.src # <<>> THEN SelectedAll(s, op.src)
                ELSE {i \in DOMAIN s.hs : \E j \in DOMAIN op.pat : s.hs[i].m \in Involved(s, op.pat[j])}
        only == [s EXCEPT !.hs = [i \in 1 .. Len(g.scope) |-> s.hs[g.scope[i]]]]
        pat  == [i \in DOMAIN op.pat |-> Flat(s, op.pat[i])]
    IN  /\ inS = IF op.unv THEN {i \in must : ~s.hs[i].v} ELSE must
        /\ \A i, j \in DOMAIN g.scope : i < j => g.scope[i] < g.scope[j]
        /\ Len(g.scope) <= SmallScope => g.n = Best(only, [i \in 1 .. Len(g.scope) |-> i], pat, 1)

C08(s, op, r) ==
  op.t \in {"ver", "vno"} /\ r.o.k \notin {"skip", "inv"} /\ (op.t = "vno" \/ ~Negative(op)) =>
    LET R(mode) == Step(s, [op EXCEPT !.mode = mode])
        t == R("bool")  f == R("not")  w == R("twice")  st == R("stmt")  u == R("unw")
    IN  /\ t.o.k \in {"true", "false"}
        /\ f.o.k = (IF t.o.k = "true" THEN "false" ELSE "true")
        /\ w.o.k = t.o.k /\ w.o.w[1] = w.o.w[2]
        /\ t.s = f.s /\ t.s = w.s /\ t.s = st.s
        /\ (op.t = "vno" \/ op.lc = <<>>) => t.o.ev = <<>> /\ f.o.ev = <<>> /\ w.o.ev = <<>> /\ t.o.tx = <<>>
        /\ s.ad # 2 => (st.o.k = "ok" <=> t.o.k = "true")
        /\ R("var").o = st.o /\ R("copy").o = st.o
        /\ u.o.k = "abd" /\ u.s.hs = (IF op.t = "ver" THEN At(s, op).hs ELSE s.hs)
        /\ (op.t = "vno" \/ op.lc = <<>>) => u.o.ev = <<>>

\* the conditions of ordinary types are related the way their names say
Sat(k, t, v, x) == Satisfies([k |-> k, v |-> v, e |-> 0, fm |-> 0], t, x)
CondLaws(t, v) ==
  t # "odd" =>
  \A x \in -1 .. 5 :
    /\ Sat("ne", t, v, x) = ~Sat("eq", t, v, x)
    /\ Sat("ge", t, v, x) = (Sat("gt", t, v, x) \/ Sat("eq", t, v, x))
    /\ Sat("le", t, v, x) = (Sat("lt", t, v, x) \/ Sat("eq", t, v, x))
    /\ Sat("lt", t, v, x) = Sat("gt", t, x, v)
    /\ Sat("any", t, v, x)
    /\ \A e \in 0 .. 3 : Satisfies([k |-> "ap", v |-> v, e |-> e, fm |-> 0], t, x) <=>
                          (v # NaN /\ x - v <= e /\ v - x <= e)
\* the list is accepted exactly when the position-wise conditions are
C09(s, op, r) ==
  /\ op.t = "stub" /\ op.h = 0 /\ op.mt.k = "args" =>
       \A i \in DOMAIN op.mt.c : CondLaws(Params(op.m, op.f)[i].t, op.mt.c[i].v)
  /\ \A j \in Ghosts(r, "serve") :
       LET g == r.g[j]  mt == g.sts[g.i].mt
       IN  mt.k = "args" => \A p \in DOMAIN g.a :
             Satisfies(mt.c[p], Params(g.m, g.f)[p].t, ArgValue(With(s, g.cl), Params(g.m, g.f)[p], g.a[p]))
  /\ C01(s, op, r)

PerMock(s, m) == [mk |-> s.mk[m], st |-> s.st[m], mem |-> s.mem[m], hs |-> Own(s, m, s.hs)]
C10(s, op, r) ==
  /\ ~Nested(op, r) => \A m \in Mocks \ Touched(s, op) : PerMock(r.s, m) = PerMock(s, m)
  \* other methods of the same mock
  /\ op.t = "stub" /\ r.o.k = "ok" /\ ~Nested(op, r) =>
       LET m == IF op.h # 0 THEN s.hd[op.h].m ELSE op.m
           f == IF op.h # 0 THEN s.hd[op.h].f ELSE op.f
       IN  /\ r.s.hs = s.hs
           /\ \A g \in Methods(m) \ {f} : r.s.st[m][g] = s.st[m][g]
  /\ op.t = "call" /\ ~Nested(op, r) =>
       \A m \in Mocks : \A f \in Methods(m) :
         r.s.st[m][f] # s.st[m][f] => \E j \in Ghosts(r, "serve") : r.g[j].m = m /\ r.g[j].f = f
  /\ op.t = "ver" /\ ~Nested(op, r) => r.s.st = s.st /\ r.s.mem = s.mem
  /\ op.t \in {"vno", "hist"} => r.s.st = s.st /\ r.s.mem = s.mem /\ r.s.hs = s.hs

C11(s, op, r) ==
  op.t = "reset" /\ r.o.k = "ok" =>
    /\ r.s.st[op.m] = Init0.st[op.m] /\ r.s.bd[op.m] = Init0.bd[op.m]
    /\ Own(s, op.m, r.s.hs) = <<>>
    /\ ~IsSpy(op.m) => r.s.mem[op.m] = Init0.mem[op.m]
    /\ IsSpy(op.m) => r.s.mem[op.m] = s.mem[op.m] /\ r.s.ob = s.ob
    /\ Do(r.s, [t |-> "reset", m |-> op.m]).s.st = r.s.st
    /\ \A m \in Mocks \ {op.m} : PerMock(r.s, m) = PerMock(s, m)

C12(s, op, r) ==
  op.t = "clear" /\ r.o.k = "ok" =>
    /\ Own(s, op.m, r.s.hs) = <<>>
    /\ r.s.st = s.st /\ r.s.bd = s.bd /\ r.s.mem = s.mem /\ r.s.ob = s.ob /\ r.s.hd = s.hd
    /\ \A m \in Mocks \ {op.m} : PerMock(r.s, m) = PerMock(s, m)

C13(s, op, r) ==
  op.t = "call" /\ IsSpy(op.m) =>
    IF s.mk[op.m] # "on" \/ s.st[op.m][op.f] = <<>>
    THEN \* untouched: the call itself is not recorded
         \A j \in Ghosts(r, "serve") : r.g[j].f # op.f \/ r.g[j].m # op.m
         \/ Sig(op.m, op.f).nm \in {"ping", "pong"}
    ELSE Usable(s, op.m, op.f, op.a) =>
         /\ r.g[1].e = "serve" /\ r.g[1].m = op.m /\ r.g[1].f = op.f
         /\ r.g[1].ac[1].t = "dlg" =>
              \* same end, same effects as calling the original while only this method is untouched
              LET o == Original([s EXCEPT !.sw = {<<op.m, op.f>>}], op.m, op.f, op.a)
              IN  o.o.k = r.o.k /\ o.o.v = r.o.v /\ o.o.w = r.o.w /\ o.s.ob = r.s.ob /\ o.s.cl = r.s.cl

C14(s, op, r) ==
  /\ r.s.sw = {} /\ r.s.stk = <<>>
  /\ op.t \in {"reset", "del"} /\ r.o.k = "ok" /\ IsSpy(op.m) =>
       /\ \A f \in Methods(op.m) : ~Intercepted(r.s, op.m, f)
       /\ r.s.ob = s.ob /\ r.s.mem[op.m] = s.mem[op.m]

C15(s, op, r) ==
  op.t = "call" /\ IsDtor(op.m, op.f) /\ ~IsSpy(op.m) /\ r.o.k # "skip" =>
    /\ r.s.mk[op.m] = "on"
    /\ ~Nested(op, r) => r.s.mem = s.mem /\ \A f \in Methods(op.m) \ {op.f} : r.s.st[op.m][f] = s.st[op.m][f]
    /\ ~s.bd[op.m][op.f] => r.o.k = "ret" /\ r.s.hs = s.hs /\ r.s.st = s.st /\ r.o.ev = <<>>
    /\ Usable(s, op.m, op.f, op.a) => r.g[1].e = "serve"

C16(s, op, r) ==
  /\ op.t = "stub" /\ r.o.k = "abd" => r.s.st = s.st /\ r.s.hs = s.hs
  /\ op.t = "stub" /\ r.o.k = "ok" =>
       LET m == IF op.h # 0 THEN s.hd[op.h].m ELSE op.m
           f == IF op.h # 0 THEN s.hd[op.h].f ELSE op.f
           n == Len(r.s.st[m][f])
       IN  /\ n > 0
           /\ LET t == r.s.st[m][f][n] IN t.ac0 = op.ac /\ t.srv = 0
           \* what ran before the end never saw the new statement
           /\ \A j \in Ghosts(r, "serve") : Len(r.g[j].sts) < n \/ <<r.g[j].m, r.g[j].f>> # <<m, f>>
  /\ op.t = "uw" /\ (\A i \in DOMAIN op.ops : op.ops[i].t = "stub" /\ op.ops[i].ab >= 0) => r.s.st = s.st /\ r.s.hs = s.hs
  /\ op.t # "stub" => C02(s, op, r)

C17(s, op, r) ==
  op.t = "call" /\ ~Nested(op, r) /\ Ghosts(r, "serve") # {} /\ ~IsSpy(op.m) =>
    LET g == r.g[1]
    IN  g.ac # <<>> =>
        LET a == g.ac[1]
        IN  /\ a.t # "set" => r.s.cl = s.cl
            /\ a.t = "set" => \A c \in DOMAIN s.cl :
                 r.s.cl[c] = (LET w == {i \in DOMAIN a.w : op.a[a.w[i][1]] = c}
                              IN  IF w = {} THEN s.cl[c] ELSE a.w[Max(w)][2])
            /\ a.t = "def" => r.o.k = "ret" /\ r.o.v = 0
            /\ a.t \in {"ret", "set", "do"} => r.o.k = "ret" /\ r.o.v = (IF IsVoid(op.m, op.f) THEN 0 ELSE a.v)
            /\ a.t = "thr" => r.o.k = "thr" /\ r.o.w = <<a.v, a.fm>>

ByValue(m, f) == \A i \in DOMAIN Params(m, f) : Params(m, f)[i].k # "r"
C18(s, op, r) ==
  /\ op.t \in {"poke", "call"} /\ Ghosts(r, "forget") = {} =>
       \A i \in DOMAIN s.hs : r.s.hs[i].a = s.hs[i].a /\ r.s.hs[i].m = s.hs[i].m
  /\ op.t = "poke" => r.s.hs = s.hs /\ r.s.st = s.st
  /\ op.t = "ver" /\ ~Nested(op, r) /\ Ghosts(r, "verify") # {} =>
       \* the verdict on value arguments does not depend on the caller's objects now
       LET g == GhostSeq(r, "verify")[1]
       IN  (\A i \in DOMAIN g.pat : \A j \in DOMAIN g.pat[i] : ByValue(g.pat[i][j].m, g.pat[i][j].f)) /\ op.src = <<>> =>
           Step(With(s, [c \in DOMAIN s.cl |-> 77]), op).o.k = r.o.k

Reports(r) == Cardinality(Ghosts(r, "unexpected"))
              + Cardinality({j \in Ghosts(r, "verify") : ~r.g[j].pass}) + Cardinality({j \in Ghosts(r, "nomore") : r.g[j].bad # {}})
Delivered(s) == [i \in 1 .. Len(s.ls) |-> "L" \o ToString(s.ls[i])] \o (IF s.ad = 0 THEN <<>> ELSE <<"D" \o ToString(s.ad)>>)
\* the listeners registered after all of ls were told: 4 registers listener 1, 5 clears
RECURSIVE Registered(_, _)
Registered(now, ls) ==
  IF ls = <<>> THEN now
  ELSE Registered(IF ls[1] = 4 THEN Append(now, 1) ELSE IF ls[1] = 5 THEN <<>> ELSE now, Tail(ls))
Reporting(op) == op.t \in {"ver", "vno"} /\ op.mode \in Statements
C19(s, op, r) ==
  /\ ~Nested(op, r) =>
       LET n == IF op.t = "call" \/ Reporting(op) THEN Reports(r) ELSE 0
           d == Delivered(s)
       IN  /\ n <= 1
           /\ Len(r.o.ev) = n * Len(d)
           /\ Len(r.o.tx) = n * Len(d) + (IF r.o.k \in {"unx", "vfail", "nfail"} THEN 1 ELSE 0)
           /\ (r.o.k = "adp" => s.ad \in {1, 3} /\ r.o.v = s.ad)
           /\ (r.o.k \in {"unx", "vfail", "nfail"} => n = 1)
  /\ op.t \notin {"addl", "clrl", "setad", "setfm"} /\ ~Nested(op, r) =>
       /\ r.s.ad = s.ad /\ r.s.fm = s.fm
       /\ (IF r.o.ev = <<>> THEN r.s.ls = s.ls ELSE r.s.ls = Registered(s.ls, s.ls))

\* the text depends on the failure only: not on listeners, on what happened outside the
\* scope of the verification, or on how often it is asked for
C20(s, op, r) ==
  (op.t = "vno" \/ (op.t = "ver" /\ op.lc = <<>>) \/ op.t = "call") /\ ~Nested(op, r) /\ Len(r.o.tx) > 0 =>
    LET again == Step([r.s EXCEPT !.ls = <<>>, !.ad = 0], [op EXCEPT !.t = @])
        mine  == Step([s EXCEPT !.ls = <<>>, !.ad = 0], op)
    IN  /\ Len(mine.o.tx) <= 1
        /\ (s.ad = 0 => mine.o.tx = <<r.o.tx[Len(r.o.tx)]>>)
        /\ (op.t = "ver" /\ ~op.unv => again.o.tx = mine.o.tx)

C21(s, op, r) ==
  /\ MustLive(r.s) \subseteq MayLive(r.s)
  /\ ((\A m \in Mocks : r.s.mk[m] = "none") /\ (\A h \in Handles : ~r.s.hd[h].on) =>
       \* what is left belongs to the existing objects
       MayLive(r.s) = UNION {{r.s.mem[m][i].v : i \in {x \in Members(m) : TypeOf(m).members[x].t = "class"}} : m \in {x \in Mocks : IsSpy(x)}} \ {0})
  /\ op.t = "stub" /\ r.o.k = "ok" /\ op.fm \notin {"fake", "spy", "spynv"} /\ ~Nested(op, r) =>
       LET m == IF op.h # 0 THEN s.hd[op.h].m ELSE op.m
           f == IF op.h # 0 THEN s.hd[op.h].f ELSE op.f
       IN  ActionObjects(Wanted(op.ac), m, f) \ {0} \subseteq MustLive(r.s)

C23(s, op, r) ==
  /\ op.t \in {"mset", "mstub"} /\ r.o.k = "ok" =>
       /\ \A m \in Mocks : \A i \in Members(m) : <<m, i>> # <<op.m, op.i>> => r.s.mem[m][i] = s.mem[m][i]
       /\ r.s.mem[op.m][op.i].v = op.v
       /\ r.s.st = s.st /\ r.s.hs = s.hs
  /\ op.t \notin {"mset", "mstub", "reset", "del", "new"} /\ ~Nested(op, r) => r.s.mem = s.mem
  /\ op.t = "mget" /\ r.o.k = "ret" => r.o.v = s.mem[op.m][op.i].v

Always(s, op, r) == r.s.sw = {} /\ r.s.stk = <<>>

Holds(p, s, op, r) ==
  /\ Always(s, op, r)
  /\ CASE p = "C01" -> C01(s, op, r)
       [] p = "C02" -> C02(s, op, r)
       [] p = "C03" -> C03(s, op, r)
       [] p = "C04" -> C04(s, op, r)
       [] p = "C05" -> C05(s, op, r)
       [] p = "C06" -> C06(s, op, r)
       [] p = "C07" -> C07(s, op, r)
       [] p = "C08" -> C08(s, op, r)
       [] p = "C09" -> C09(s, op, r)
       [] p = "C10" -> C10(s, op, r)
       [] p = "C11" -> C11(s, op, r)
       [] p = "C12" -> C12(s, op, r)
       [] p = "C13" -> C13(s, op, r)
       [] p = "C14" -> C14(s, op, r)
       [] p = "C15" -> C15(s, op, r) /\ C02(s, op, r)
       [] p = "C16" -> C16(s, op, r)
       [] p = "C17" -> C17(s, op, r)
       [] p = "C18" -> C18(s, op, r)
       [] p = "C19" -> C19(s, op, r)
       [] p = "C20" -> C20(s, op, r)
       [] p = "C21" -> C21(s, op, r)
       [] p = "C22" -> C10(s, op, r) /\ C01(s, op, r)
       [] p = "C23" -> C23(s, op, r)
       [] p = "C24" -> C01(s, op, r) /\ C03(s, op, r) /\ C05(s, op, r) /\ C08(s, op, r) /\ C19(s, op, r)
       [] OTHER -> TRUE
=============================================================================
