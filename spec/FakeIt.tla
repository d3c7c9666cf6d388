------------------------------- MODULE FakeIt -------------------------------
(***************************************************************************)
(* Executable specification of the observable behaviour of FakeIt.         *)
(*                                                                         *)
(* The library is single threaded and deterministic, so the specification  *)
(* is one operator                                                         *)
(*                                                                         *)
(*        Step(s, op)  =  [ s |-> next state,  o |-> outcome ]             *)
(*                                                                         *)
(* where op is one public call (create a mock, complete a stubbing         *)
(* statement, call a mocked method, verify, ...), s is everything the      *)
(* library has to remember and the outcome is everything the caller, the   *)
(* listeners and the testing framework adapter can see.  A call made from  *)
(* inside another one (by an action of a stub, by the original body of a   *)
(* spied method, or before the end of a statement) is part of the outer    *)
(* operation and evaluated recursively.                                    *)
(*                                                                         *)
(* Values.  Every argument and result is an integer here; the test driver  *)
(* maps it to a value of the C++ type of the parameter (order preserving   *)
(* for the types that have an order).  0 is the default value of a type.   *)
(*                                                                         *)
(* Worlds.  The mocked classes, their methods and the mocks of a run are   *)
(* data (World): the specification is the same for all of them.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

World == JsonDeserialize(IOEnv.FK_WORLD)

-----------------------------------------------------------------------------
(* The world: mocks, methods, parameters                                   *)

Mocks         == 1 .. Len(World.mocks)
TypeOf(m)     == World.types[World.mocks[m].ty]
Methods(m)    == 1 .. Len(TypeOf(m).methods)
Sig(m, f)     == TypeOf(m).methods[f]
Params(m, f)  == Sig(m, f).pt
Arity(m, f)   == Len(Params(m, f))
IsSpy(m)      == World.mocks[m].spy          \* a mock of an existing object
IsDtor(m, f)  == Sig(m, f).kind = "dtor"
NoDtor(m, f)  == Sig(m, f).kind = "nodtor"   \* stands for Dtor(m) of a class without a virtual destructor
IsVoid(m, f)  == Sig(m, f).rt = "void"
Members(m)    == 1 .. Len(TypeOf(m).members)
Handles       == 1 .. 3
Stored        == 1 .. 2                       \* places for a stored source of invocations
FullName(m,f) == World.mocks[m].nm \o "." \o (IF IsDtor(m, f) THEN "destructor" ELSE Sig(m, f).nm)

NoHandle == [on |-> FALSE, m |-> 0, f |-> 0, mt |-> [k |-> "none"], mid |-> 0]
NoSource == [on |-> FALSE, ms |-> <<>>, x |-> [k |-> "none"]]

\* the members of a spied object are live objects
FreshMembers(m) == [i \in Members(m) |-> [v |-> 0, stubbed |-> IsSpy(m)]]
NoStatements(m) == [f \in Methods(m) |-> <<>>]
NotMentioned(m) == [f \in Methods(m) |-> FALSE]

(* The state                                                               *)
(*   mk   per mock: "none" (not created), "on"                             *)
(*   bd   per method: some statement or verification mentioned it          *)
(*   st   per method: the completed stubbing statements, oldest first.     *)
(*        mt condition, mid identity of the condition object,              *)
(*        ac actions left, ac0 actions as written, srv calls served        *)
(*   hs   all recorded invocations in call order; v = verified             *)
(*   cl   the caller's objects that can be passed by reference or pointer  *)
(*   hd   method handles the user stored                                   *)
(*   so   sources of invocations the user stored, ms the mocks in them     *)
(*   ls   registered listeners, ad adapter in force, fm formatter in force *)
(*   mem  data members; ob state of the spied objects                      *)
(*   sw   methods whose original is running for a spy                      *)
(*   stk  mocks with a call in progress                                    *)
(*   uw   an exception is on its way while the current operation runs      *)
(*   nx   next identity of a condition object                              *)
(*   lg, ev, tx, gh  what the current operation has shown so far: actions  *)
(*        run, events delivered, texts and data delivered, and (ghost) how *)
(*        calls were served and verifications evaluated                    *)
Init0 ==
  [ mk  |-> [m \in Mocks |-> "none"],
    bd  |-> [m \in Mocks |-> NotMentioned(m)],
    st  |-> [m \in Mocks |-> NoStatements(m)],
    hs  |-> <<>>,
    cl  |-> World.cells,
    hd  |-> [h \in Handles |-> NoHandle],
    so  |-> [h \in Stored |-> NoSource],
    ls  |-> <<>>,
    ad  |-> 0,
    fm  |-> 0,
    mem |-> [m \in Mocks |-> FreshMembers(m)],
    ob  |-> [m \in Mocks |-> World.mocks[m].ob],
    sw  |-> {},
    stk |-> <<>>,
    uw  |-> FALSE,
    nx  |-> 1,
    lg  |-> <<>>, ev |-> <<>>, tx |-> <<>>, gh |-> <<>> ]

Outcome(k, v)     == [k |-> k, v |-> v, w |-> <<>>]
Result(s, k, v)   == [s |-> s, o |-> Outcome(k, v)]
ResultW(s, k, w)  == [s |-> s, o |-> [k |-> k, v |-> 0, w |-> w]]
Skip(s)           == Result(s, "skip", 0)

Log(s, x)    == [s EXCEPT !.lg = Append(@, x)]
Ghost(s, x)  == [s EXCEPT !.gh = Append(@, x)]

-----------------------------------------------------------------------------
(* Small helpers                                                           *)

RECURSIVE Join(_, _), SumSeq(_), SelectIdx(_, _, _)
Join(q, sep) == IF q = <<>> THEN ""
                ELSE IF Len(q) = 1 THEN q[1]
                ELSE q[1] \o sep \o Join(Tail(q), sep)
SumSeq(q) == IF q = <<>> THEN 0 ELSE q[1] + SumSeq(Tail(q))

\* the numbers of lo..hi that are in I, in increasing order
SelectIdx(lo, hi, I) == IF lo > hi THEN <<>>
                        ELSE IF lo \in I THEN <<lo>> \o SelectIdx(lo + 1, hi, I)
                        ELSE SelectIdx(lo + 1, hi, I)
Sorted(I) == IF I = {} THEN <<>>
             ELSE LET lo == CHOOSE x \in I : \A y \in I : x <= y
                      hi == CHOOSE x \in I : \A y \in I : x >= y
                  IN  SelectIdx(lo, hi, I)
MapSeq(q, Op(_)) == [i \in 1 .. Len(q) |-> Op(q[i])]
FlatSet(S) == UNION S

-----------------------------------------------------------------------------
(* Argument conditions (C09)                                               *)

NaN == -9          \* the value of type "dbl" that is not a number

\* Type "odd" has comparison operators that disagree with each other on
\* purpose: conditions have to use the operator they are named after.
CmpEq(t, x, y) == CASE t = "odd" -> x % 2 = y % 2
                    [] t = "dbl" -> x # NaN /\ y # NaN /\ x = y
                    [] OTHER -> x = y
CmpNe(t, x, y) == CASE t = "odd" -> x \div 2 # y \div 2
                    [] t = "dbl" -> ~(x # NaN /\ y # NaN /\ x = y)
                    [] OTHER -> x # y
CmpLt(t, x, y) == CASE t = "odd" -> x % 3 < y % 3
                    [] t = "dbl" -> x # NaN /\ y # NaN /\ x < y
                    [] OTHER -> x < y
CmpLe(t, x, y) == CASE t = "odd" -> x % 4 <= y % 4
                    [] t = "dbl" -> x # NaN /\ y # NaN /\ x <= y
                    [] OTHER -> x <= y
CmpGt(t, x, y) == CASE t = "odd" -> x % 5 > y % 5
                    [] t = "dbl" -> x # NaN /\ y # NaN /\ x > y
                    [] OTHER -> x > y
CmpGe(t, x, y) == CASE t = "odd" -> x % 7 >= y % 7
                    [] t = "dbl" -> x # NaN /\ y # NaN /\ x >= y
                    [] OTHER -> x >= y
Abs(x) == IF x < 0 THEN -x ELSE x

Satisfies(c, t, x) ==
  CASE c.k = "any" -> TRUE
    [] c.k = "eq"  -> CmpEq(t, x, c.v)
    [] c.k = "ne"  -> CmpNe(t, x, c.v)
    [] c.k = "gt"  -> CmpGt(t, x, c.v)
    [] c.k = "ge"  -> CmpGe(t, x, c.v)
    [] c.k = "lt"  -> CmpLt(t, x, c.v)
    [] c.k = "le"  -> CmpLe(t, x, c.v)
    [] c.k = "ap"  -> x # NaN /\ c.v # NaN /\ Abs(x - c.v) <= c.e

\* The value a condition sees: an argument passed by reference designates an
\* object of the caller and is looked up now; everything else is a snapshot.
ArgValue(s, p, a) == IF p.k = "r" THEN s.cl[a] ELSE a
ArgValues(s, m, f, a) == [i \in 1 .. Arity(m, f) |-> ArgValue(s, Params(m, f)[i], a[i])]

Accepts(s, mt, m, f, a) ==
  CASE mt.k = "none" -> TRUE
    [] mt.k = "pred" -> SumSeq(ArgValues(s, m, f, a)) % 3 = mt.p
    [] mt.k = "args" -> \A i \in 1 .. Arity(m, f) :
                           Satisfies(mt.c[i], Params(m, f)[i].t, ArgValue(s, Params(m, f)[i], a[i]))

-----------------------------------------------------------------------------
(* Texts (C20)                                                             *)

ValueText(t, v) ==
  IF t = "dbl" /\ v = NaN THEN "nan"
  ELSE IF t \in DOMAIN World.text /\ v + 1 \in DOMAIN World.text[t]
  THEN World.text[t][v + 1] ELSE ToString(v)

ArgText(s, p, a) == ValueText(p.t, ArgValue(s, p, a))
CallText(s, m, f, a) ==
  FullName(m, f) \o "(" \o Join([i \in 1 .. Arity(m, f) |-> ArgText(s, Params(m, f)[i], a[i])], ", ") \o ")"
InvText(s, i) == CallText(s, s.hs[i].m, s.hs[i].f, s.hs[i].a)

\* the conditions on C strings hold a std::string, which is shown without quotes
CondText(c, pt) ==
  LET t == IF pt = "cstr" THEN "str" ELSE pt IN
  CASE c.k = "any" -> "Any"
    [] c.k = "eq"  -> ValueText(t, c.v)
    [] c.k = "ne"  -> "!=" \o ValueText(t, c.v)
    [] c.k = "gt"  -> ">"  \o ValueText(t, c.v)
    [] c.k = "ge"  -> ">=" \o ValueText(t, c.v)
    [] c.k = "lt"  -> "<"  \o ValueText(t, c.v)
    [] c.k = "le"  -> "<=" \o ValueText(t, c.v)
    [] c.k = "ap"  -> ValueText(t, c.v) \o "+/-" \o ValueText(t, c.e)

MatcherText(mt, m, f) ==
  CASE mt.k = "none" -> "( Any arguments )"
    [] mt.k = "pred" -> "( user defined matcher )"
    [] mt.k = "args" -> "(" \o Join([i \in 1 .. Arity(m, f) |-> CondText(mt.c[i], Params(m, f)[i].t)], ", ") \o ")"

RECURSIVE SeqText(_, _)
SeqText(s, x) ==
  CASE x.k = "m"   -> FullName(x.m, x.f) \o MatcherText(x.mt, x.m, x.f)
    [] x.k = "h"   -> LET h == s.hd[x.h] IN FullName(h.m, h.f) \o MatcherText(h.mt, h.m, h.f)
    [] x.k = "cat" -> SeqText(s, x.l) \o " + " \o SeqText(s, x.r)
    [] x.k = "rep" -> IF x.l.k \in {"cat", "rep"}
                      THEN "(" \o SeqText(s, x.l) \o ") * " \o ToString(x.n)
                      ELSE SeqText(s, x.l) \o " * " \o ToString(x.n)
PatternText(s, pat) == Join([i \in 1 .. Len(pat) |-> SeqText(s, pat[i])], " ... ")

TextLimit == 50
ListText(s, is) ==
  LET n == IF Len(is) > TextLimit THEN TextLimit ELSE Len(is)
  IN  Join([i \in 1 .. n |-> "  " \o InvText(s, is[i])], "\n")
      \o (IF Len(is) > n THEN "\n  ..." ELSE "")
DataList(s, is) == "[" \o Join([i \in 1 .. Len(is) |-> InvText(s, is[i])], ";") \o "]"

UnexpectedText(what, call) ==
  "Unexpected method invocation: " \o call \o "\n" \o
  (IF what = "unmatched"
   THEN "  Could not find any recorded behavior to support this method call."
   ELSE "  An unmocked method was invoked. All used virtual methods must be stubbed!")

SequenceText(s, pat, how, n, count, is) ==
  "Verification error\nExpected pattern: " \o PatternText(s, pat) \o
  "\nExpected matches: " \o how \o " " \o ToString(n) \o
  "\nActual matches  : " \o ToString(count) \o
  "\nActual sequence : total of " \o ToString(Len(is)) \o " actual invocations" \o
  (IF is = <<>> THEN "." ELSE ":\n") \o ListText(s, is)

NoMoreText(s, is) ==
  "Verification error\nExpected no more invocations!! but the following unverified invocations were found:\n"
  \o ListText(s, is)

-----------------------------------------------------------------------------
(* Events (C19): every listener in registration order, then the adapter    *)
(* in force.  Adapter 0 is the one of the framework: it throws the         *)
(* exception of the kind of event.  1 and 3 are user adapters that throw   *)
(* their own exception, 2 is one that returns.  Listener 4 registers       *)
(* listener 1 and listener 5 clears the listeners, each when it is told;   *)
(* the event at hand still goes to those registered when it was fired.     *)

RECURSIVE Notify(_, _, _, _)
Notify(s, ls, what, data) ==
  IF ls = <<>> THEN s
  ELSE Notify([s EXCEPT !.ev = Append(@, "L" \o ToString(ls[1]) \o " " \o what),
                        !.tx = Append(@, "L" \o ToString(ls[1]) \o " " \o data),
                        !.ls = CASE ls[1] = 4 -> Append(@, 1)
                                 [] ls[1] = 5 -> <<>>
                                 [] OTHER     -> @],
              Tail(ls), what, data)

Formatted(s, what, text) == IF s.fm = 0 THEN text ELSE "F" \o ToString(s.fm) \o " " \o what

\* own: outcome when the event ends in the exception of the library
Fire(s, what, data, text, own) ==
  LET t  == Formatted(s, what, text)
      s1 == Notify(s, s.ls, what, data)
      s2 == IF s.ad = 0 THEN s1
            ELSE [s1 EXCEPT !.ev = Append(@, "D" \o ToString(s.ad) \o " " \o what),
                            !.tx = Append(@, "D" \o ToString(s.ad) \o " " \o t)]
      lib == [s2 EXCEPT !.tx = Append(@, "X " \o t)]
  IN  CASE s.ad = 0       -> Result(lib, own, 0)
        [] s.ad \in {1,3} -> Result(s2, "adp", s.ad)
        [] s.ad = 2       -> IF own = "unx" THEN Result(lib, own, 0) ELSE Result(s2, "ok", 0)

\* a call without usable behaviour (C03): reported, never answered
Unexpected(s, what, call) ==
  Fire(Ghost(s, [e |-> "unexpected", what |-> what]), what, what \o " " \o call,
       UnexpectedText(what, call), "unx")

-----------------------------------------------------------------------------
(* Stubbing statements                                                     *)

Mention(s, m, f) == [s EXCEPT !.bd[m][f] = TRUE]

Statement(mt, mid, ac) == [mt |-> mt, mid |-> mid, ac |-> ac, ac0 |-> ac, srv |-> 0]

AddStatement(s, m, f, mt, mid, ac) ==
  [Mention(s, m, f) EXCEPT !.st[m][f] = Append(@, Statement(mt, mid, ac))]

\* actions that are used up; n = -1 means forever
RECURSIVE DropDone(_)
DropDone(ac) == IF ac # <<>> /\ ac[1].n = 0 THEN DropDone(Tail(ac)) ELSE ac
Consume(ac) == IF ac[1].n > 0 THEN <<[ac[1] EXCEPT !.n = @ - 1]>> \o Tail(ac) ELSE ac

\* the newest statement that accepts the arguments, 0 if there is none (C01)
RECURSIVE NewestFrom(_, _, _, _, _)
NewestFrom(s, m, f, a, i) ==
  IF i = 0 THEN 0
  ELSE IF Accepts(s, s.st[m][f][i].mt, m, f, a) THEN i
  ELSE NewestFrom(s, m, f, a, i - 1)

Intercepted(s, m, f) ==
  /\ s.mk[m] = "on"
  /\ <<m, f>> \notin s.sw
  /\ IF IsSpy(m) THEN s.st[m][f] # <<>> ELSE s.bd[m][f]

Callable(s, m) == s.mk[m] = "on" \/ IsSpy(m)

(* What an action reports about the arguments it received.                 *)
Received(s, m, f, a) ==
  Join([i \in 1 .. Arity(m, f) |->
          LET p == Params(m, f)[i]
          IN  IF p.k = "v" THEN ToString(a[i])
              ELSE IF a[i] = 0 THEN "null"
              ELSE "c" \o ToString(a[i]) \o "=" \o ToString(s.cl[a[i]])], ",")

RECURSIVE Write(_, _, _)
\* ReturnAndSet: w is a sequence of <<position, value>>
Write(s, a, w) == IF w = <<>> THEN s
                  ELSE Write([s EXCEPT !.cl[a[w[1][1]]] = w[1][2]], a, Tail(w))

-----------------------------------------------------------------------------
(* Calls                                                                   *)

RECURSIVE Call(_, _, _, _), Original(_, _, _, _), RunAction(_, _, _, _, _),
          Do(_, _), RunOps(_, _), RunThrough(_, _)

Push(s, m) == [s EXCEPT !.stk = Append(@, m)]
Pop(s)     == [s EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]

Call(s, m, f, a) ==
  IF ~Intercepted(s, m, f) THEN Original(s, m, f, a)
  ELSE
    LET i == NewestFrom(s, m, f, a, Len(s.st[m][f]))
    IN  IF i = 0
        THEN Unexpected(Ghost(s, [e |-> "reject", m |-> m, f |-> f, a |-> a, sts |-> s.st[m][f], cl |-> s.cl]),
                        "unmatched", CallText(s, m, f, a))
        ELSE
          LET st  == s.st[m][f][i]
              s1  == [s EXCEPT !.hs = Append(@, [m |-> m, f |-> f, a |-> a, v |-> FALSE, mid |-> st.mid])]
              ac  == DropDone(st.ac)
              s2  == Ghost(s1, [e |-> "serve", m |-> m, f |-> f, a |-> a, i |-> i, sts |-> s.st[m][f], cl |-> s.cl,
                                ac |-> IF ac = <<>> THEN <<>> ELSE <<[ac[1] EXCEPT !.n = 0]>>])
          IN  IF ac = <<>>
              THEN Unexpected([s2 EXCEPT !.st[m][f][i].ac = <<>>], "unmatched", CallText(s, m, f, a))
              ELSE LET s3 == [s2 EXCEPT !.st[m][f][i].ac = Consume(ac), !.st[m][f][i].srv = @ + 1]
                       r  == RunAction(Push(s3, m), m, f, a, ac[1])
                   IN  [s |-> Pop(r.s), o |-> r.o]

Returned(s, m, f, v) == Result(s, "ret", IF IsVoid(m, f) THEN 0 ELSE v)
Threw(s, ac)         == ResultW(s, "thr", <<ac.v, ac.fm>>)

RunAction(s, m, f, a, ac) ==
  CASE ac.t = "ret" -> Returned(s, m, f, ac.v)
    [] ac.t = "def" -> Returned(s, m, f, 0)
    [] ac.t = "thr" -> Threw(s, ac)
    [] ac.t = "do"  -> Returned(Log(s, "A" \o ToString(ac.v) \o "(" \o Received(s, m, f, a) \o ")"), m, f, ac.v)
    [] ac.t = "set" -> Returned(Write(s, a, ac.w), m, f, ac.v)
    [] ac.t = "scr" -> LET s1 == Log(s, "S" \o ToString(ac.v) \o "(" \o Received(s, m, f, a) \o ")")
                           r  == IF ac.x = 2 THEN RunThrough(s1, ac.ops) ELSE Result(RunOps(s1, ac.ops), "ok", 0)
                           s3 == Log(r.s, "E" \o ToString(ac.v) \o "(" \o Received(r.s, m, f, a) \o ")")
                       IN  IF r.o.k # "ok" THEN r ELSE IF ac.x = 1 THEN Threw(s3, ac) ELSE Returned(s3, m, f, ac.v)
    [] ac.t = "dlg" -> LET on == <<m, f>> \in s.sw
                           r  == Original([s EXCEPT !.sw = @ \cup {<<m, f>>}], m, f, a)
                       IN  [s |-> IF on THEN r.s ELSE [r.s EXCEPT !.sw = @ \ {<<m, f>>}], o |-> r.o]

RunOps(s, ops) ==
  IF ops = <<>> THEN s
  ELSE LET r == Do(s, ops[1])
       IN  RunOps(Log(r.s, "-> " \o r.o.k \o " " \o ToString(r.o.v)), Tail(ops))

\* a call that ends in an exception ends the operations and the action
RunThrough(s, ops) ==
  IF ops = <<>> THEN Result(s, "ok", 0)
  ELSE LET r == Do(s, ops[1])
       IN  IF ops[1].t = "call" /\ r.o.k \in {"thr", "unx", "adp"} THEN r
           ELSE RunThrough(Log(r.s, "-> " \o r.o.k \o " " \o ToString(r.o.v)), Tail(ops))

(* Original methods of the spied objects; a mock that owns its instance    *)
(* has none.  The bodies below are those of the classes of the driver.     *)
Val(s, m, f, a, i) == ArgValue(s, Params(m, f)[i], a[i])
Err(s, v) == ResultW(s, "thr", <<v, 0>>)
MethodNamed(m, nm) == CHOOSE f \in Methods(m) : Sig(m, f).nm = nm
\* continue with the value of a call, or pass on the way it ended
Then(r, K(_, _)) == IF r.o.k = "ret" THEN K(r.s, r.o.v) ELSE r

Original(s, m, f, a) ==
  IF ~IsSpy(m)
  THEN IF IsDtor(m, f) THEN Result(s, "ret", 0)                     \* deleting is ignored (C15)
       ELSE Unexpected(s, "unmocked", "unknown()")
  ELSE LET b == Sig(m, f).nm
           V(name, args) == Call(s, m, MethodNamed(m, name), args)
       IN
  CASE b = "add"  -> Result(s, "ret", s.ob[m].n + Val(s, m, f, a, 1))
    [] b = "inc"  -> LET n == s.ob[m].n + Val(s, m, f, a, 1)
                     IN  Result([s EXCEPT !.ob[m].n = n], "ret", n)
    [] b = "dbl"  -> Then(V("add", a), LAMBDA s1, v : Result(s1, "ret", 2 * v))
    [] b = "rec"  -> IF a[1] <= 0 THEN Result(s, "ret", 0)
                     ELSE Then(V("rec", <<a[1] - 1>>), LAMBDA s1, v : Result(s1, "ret", a[1] + v))
    [] b = "ping" -> IF a[1] <= 0 THEN Result(s, "ret", 0)
                     ELSE Then(V("pong", <<a[1] - 1>>), LAMBDA s1, v : Result(s1, "ret", 1 + v))
    [] b = "pong" -> IF a[1] <= 0 THEN Result(s, "ret", 0)
                     ELSE Then(V("ping", <<a[1] - 1>>), LAMBDA s1, v : Result(s1, "ret", 1 + v))
    [] b = "thr"  -> IF a[1] > 2 THEN Err(s, a[1]) ELSE Result(s, "ret", a[1])
    [] b = "mix"  -> \* changes the object, calls inc, then throws for large arguments
                     LET s1 == [s EXCEPT !.ob[m].n = @ + 1]
                     IN  Then(Call(s1, m, MethodNamed(m, "inc"), a),
                              LAMBDA s2, v : IF a[1] > 2 THEN Err(s2, v) ELSE Result(s2, "ret", v))
    [] b = "bump" -> \* changes the caller's object
                     Result([s EXCEPT !.cl[a[1]] = @ + 10], "ret", s.cl[a[1]])
    [] b = "take" -> Result(s, "ret", a[1])                          \* move-only argument
    [] b = "cat"  -> Result(s, "ret", a[1] + 1)                      \* std::string in and out
    [] b = "lrg"  -> Result(s, "ret", a[1] + s.ob[m].n)              \* returned through memory
    [] b = "vd"   -> Result([s EXCEPT !.ob[m].n = @ + 5], "ret", 0)  \* void
    [] b = "err"  -> IF a[1] > 2 THEN ResultW(s, "thr", <<a[1], 4>>) ELSE Result(s, "ret", a[1])   \* a std::range_error
    [] b = "tri"  -> Then(V("dbl", a), LAMBDA s1, v : Result(s1, "ret", 1 + v))
    [] b = "deep" -> Then(V("tri", a), LAMBDA s1, v : Then(Call(s1, m, MethodNamed(m, "mix"), a),
                                                           LAMBDA s2, w : Result(s2, "ret", v + w)))
    [] OTHER      -> Result(s, "ret", Sig(m, f).orig)                \* fixed value

\* The same call many times.  The outcome lists the results in order as pairs
\* <<result, how many times>>, -1 for a call that was unexpected.  Used with
\* statements of plain results only; x = 1 clears the history afterwards.
RECURSIVE Runs(_, _, _)
Runs(ac, k, w) ==
  LET a == DropDone(ac)
  IN  IF k = 0 THEN [ac |-> a, w |-> w]
      ELSE IF a = <<>> THEN [ac |-> a, w |-> w \o <<-1, k>>]
      ELSE IF a[1].n < 0 \/ a[1].n > k
      THEN [ac |-> <<[a[1] EXCEPT !.n = IF @ < 0 THEN @ ELSE @ - k]>> \o Tail(a), w |-> w \o <<a[1].v, k>>]
      ELSE Runs(Tail(a), k - a[1].n, w \o <<a[1].v, a[1].n>>)

RepeatedCallOp(s, op) ==
  LET i == NewestFrom(s, op.m, op.f, op.a, Len(s.st[op.m][op.f]))
  IN  IF s.mk[op.m] # "on" THEN Skip(s)
      ELSE IF i = 0 THEN ResultW(IF op.x = 1 THEN [Ghost(s, [e |-> "forget", m |-> op.m]) EXCEPT !.hs = SelectSeq(@, LAMBDA y : y.m # op.m)]
                                 ELSE s, "ok", <<-1, op.n>>)
      ELSE LET t   == s.st[op.m][op.f][i]
               r   == Runs(t.ac, op.n, <<>>)
               bad == IF r.w # <<>> /\ r.w[Len(r.w) - 1] = -1 THEN r.w[Len(r.w)] ELSE 0
               s1  == [s EXCEPT !.st[op.m][op.f][i].ac = r.ac, !.st[op.m][op.f][i].srv = @ + (op.n - bad)]
               inv == [m |-> op.m, f |-> op.f, a |-> op.a, v |-> FALSE, mid |-> t.mid]
           IN  ResultW(IF op.x = 1 THEN [Ghost(s1, [e |-> "forget", m |-> op.m]) EXCEPT !.hs = SelectSeq(@, LAMBDA y : y.m # op.m)]
                       ELSE [s1 EXCEPT !.hs = @ \o [j \in 1 .. op.n |-> inv]], "ok", r.w)

-----------------------------------------------------------------------------
(* Verification                                                            *)

\* the elementary conditions of a sequence, in order
RECURSIVE Flat(_, _), Repeat(_, _), Involved(_, _), BadRepetition(_)
Repeat(q, n) == IF n <= 0 THEN <<>> ELSE q \o Repeat(q, n - 1)
Flat(s, x) ==
  CASE x.k = "m"   -> <<[m |-> x.m, f |-> x.f, mt |-> x.mt, mid |-> 0]>>
    [] x.k = "h"   -> LET h == s.hd[x.h] IN <<[m |-> h.m, f |-> h.f, mt |-> h.mt, mid |-> h.mid]>>
    [] x.k = "cat" -> Flat(s, x.l) \o Flat(s, x.r)
    [] x.k = "rep" -> Repeat(Flat(s, x.l), x.n)
Involved(s, x) ==
  CASE x.k = "m"   -> {x.m}
    [] x.k = "h"   -> {s.hd[x.h].m}
    [] x.k = "cat" -> Involved(s, x.l) \cup Involved(s, x.r)
    [] x.k = "rep" -> Involved(s, x.l)
BadRepetition(x) ==
  CASE x.k = "cat" -> BadRepetition(x.l) \/ BadRepetition(x.r)
    [] x.k = "rep" -> x.n < 1 \/ BadRepetition(x.l)
    [] OTHER -> FALSE

\* an invocation always satisfies the condition object that served it (C18)
ElemMatches(s, e, i) ==
  LET inv == s.hs[i]
  IN  /\ e.m = inv.m /\ e.f = inv.f
      /\ \/ e.mid # 0 /\ e.mid = inv.mid
         \/ Accepts(s, e.mt, inv.m, inv.f, inv.a)

\* sources: [k |-> "mock", m], [k |-> "meth", m, f, mt], [k |-> "h", h], [k |-> "unv", xs]
\* and [k |-> "s", s], a stored one: it selects from what is recorded when it is used
RECURSIVE Selected(_, _), SelectedAll(_, _)
Selected(s, x) ==
  CASE x.k = "mock" -> {i \in DOMAIN s.hs : s.hs[i].m = x.m}
    [] x.k = "unv"  -> {i \in SelectedAll(s, x.xs) : ~s.hs[i].v}
    [] x.k = "meth" -> {i \in DOMAIN s.hs : ElemMatches(s, [m |-> x.m, f |-> x.f, mt |-> x.mt, mid |-> 0], i)}
    [] x.k = "h"    -> {i \in DOMAIN s.hs : ElemMatches(s, Flat(s, x)[1], i)}
    [] x.k = "s"    -> Selected(s, s.so[x.s].x)
SelectedAll(s, xs) == UNION {Selected(s, xs[i]) : i \in DOMAIN xs}

\* scope of a verification (C07), as increasing positions in the history
Scope(s, op) ==
  LET involved == UNION {Involved(s, op.pat[i]) : i \in DOMAIN op.pat}
      base     == IF op.src = <<>> THEN {i \in DOMAIN s.hs : s.hs[i].m \in involved}
                  ELSE SelectedAll(s, op.src)
  IN  Sorted(IF op.unv THEN {i \in base : ~s.hs[i].v} ELSE base)

\* first place at or after p (position in the scope q) where e matches consecutively
RECURSIVE FindSeq(_, _, _, _), FindPattern(_, _, _, _, _), FindAll(_, _, _, _, _, _)
MatchAt(s, q, e, p) == \A j \in 1 .. Len(e) : ElemMatches(s, e[j], q[p + j - 1])
FindSeq(s, q, e, p) ==
  IF p + Len(e) - 1 > Len(q) THEN 0
  ELSE IF MatchAt(s, q, e, p) THEN p
  ELSE FindSeq(s, q, e, p + 1)
\* one occurrence of the pattern from p on: [end |-> 0] or where it ends and what it matched
FindPattern(s, q, pat, p, got) ==
  IF pat = <<>> THEN [end |-> p, got |-> got]
  ELSE LET at == FindSeq(s, q, pat[1], p)
       IN  IF at = 0 THEN [end |-> 0, got |-> {}]
           ELSE FindPattern(s, q, Tail(pat), at + Len(pat[1]),
                            got \cup {q[j] : j \in at .. (at + Len(pat[1]) - 1)})
FindAll(s, q, pat, p, n, got) ==
  LET r == FindPattern(s, q, pat, p, {})
  IN  IF r.end = 0 THEN [n |-> n, got |-> got]
      ELSE FindAll(s, q, pat, r.end, n + 1, got \cup r.got)

Meets(q, n) == CASE q.k = "def" -> n >= 1
                 [] q.k = "any" -> TRUE
                 [] q.k = "ex"  -> n = q.n
                 [] q.k = "al"  -> n >= q.n

MarkVerified(s, I) == [s EXCEPT !.hs = [i \in DOMAIN s.hs |-> IF i \in I THEN [s.hs[i] EXCEPT !.v = TRUE] ELSE s.hs[i]]]

\* mentions made while a pattern or a list of sources is written
RECURSIVE MentionSeq(_, _), MentionSrcs(_, _), MentionSeqs(_, _)
MentionSeq(s, x) ==
  CASE x.k = "m"   -> Mention(s, x.m, x.f)
    [] x.k = "h"   -> s
    [] x.k = "cat" -> MentionSeq(MentionSeq(s, x.l), x.r)
    [] x.k = "rep" -> MentionSeq(s, x.l)
MentionSeqs(s, pat) == IF pat = <<>> THEN s ELSE MentionSeqs(MentionSeq(s, pat[1]), Tail(pat))
MentionSrcs(s, xs) ==
  IF xs = <<>> THEN s
  ELSE LET x  == xs[1]
           s1 == CASE x.k = "meth" -> Mention(s, x.m, x.f)
                   [] x.k = "unv"  -> MentionSrcs(s, x.xs)
                   [] OTHER -> s
       IN  MentionSrcs(s1, Tail(xs))

Verdict(s, mode, b) ==
  CASE mode = "bool"  -> Result(s, IF b THEN "true" ELSE "false", 0)
    [] mode = "not"   -> Result(s, IF b THEN "false" ELSE "true", 0)
    [] mode = "twice" -> ResultW(s, IF b THEN "true" ELSE "false", <<IF b THEN 1 ELSE 0, IF b THEN 1 ELSE 0>>)

Statements == {"stmt", "var", "copy"}     \* the forms that report a failure

Evaluate(s, op) ==
  LET q    == Scope(s, op)
      pat  == [i \in DOMAIN op.pat |-> Flat(s, op.pat[i])]
      r    == FindAll(s, q, pat, 1, 0, {})
      pass == Meets(op.q, r.n)
      g    == Ghost(s, [e |-> "verify", scope |-> q, pat |-> pat, n |-> r.n, got |-> r.got, pass |-> pass])
      s1   == IF pass THEN MarkVerified(g, r.got) ELSE g
      how  == IF op.q.k = "ex" THEN "exactly" ELSE "at least"
      want == IF op.q.k = "def" THEN 1 ELSE op.q.n
      data == "seq " \o (IF op.q.k = "ex" THEN "exact" ELSE "atleast") \o
              " exp=" \o ToString(want) \o " act=" \o ToString(r.n) \o
              " pat=" \o PatternText(s, op.pat) \o " all=" \o DataList(s, q) \o " at=ok"
  IN  IF op.mode \in Statements
      THEN IF pass THEN Result(s1, "ok", 0)
           ELSE Fire(s1, "seq", data, SequenceText(s, op.pat, how, want, r.n, q), "vfail")
      ELSE Verdict(s1, op.mode, pass)

\* a negative number, or n_Time with n other than one
BadQuantity(q) == q.k \in {"ex", "al"} /\ (q.n < 0 \/ (q.fm = 4 /\ q.n # 1))

VerifyOp(s, op) ==
  LET s1 == MentionSrcs(MentionSeqs(s, op.pat), op.src)
  IN  IF \E i \in DOMAIN op.pat : BadRepetition(op.pat[i]) THEN Result(MentionSeqs(s, op.pat), "inv", 0)
      ELSE LET s2 == RunOps(s1, op.lc)
           IN  IF op.mode = "unw" THEN Result(s2, "abd", 0)
               ELSE IF BadQuantity(op.q) THEN Result(s2, "inv", 0)
               ELSE Evaluate(s2, op)

VerifyNoOtherOp(s, op) ==
  LET s1   == MentionSrcs(s, op.src)
      all  == SelectedAll(s1, op.src)
      bad  == {i \in all : ~s1.hs[i].v}
      g    == Ghost(s1, [e |-> "nomore", all |-> all, bad |-> bad])
      data == "nomore all=" \o DataList(s1, Sorted(all)) \o " unv=" \o DataList(s1, Sorted(bad)) \o " at=ok"
  IN  IF op.mode = "unw" THEN Result(s1, "abd", 0)
      ELSE IF op.mode \in Statements
      THEN IF bad = {} THEN Result(g, "ok", 0)
           ELSE Fire(g, "nomore", data, NoMoreText(s1, Sorted(bad)), "nfail")
      ELSE Verdict(g, op.mode, bad = {})

\* the invocations the sources select, in order, as a verification reports them
HistOp(s, op) ==
  LET s1 == MentionSrcs(s, op.src)
      q  == Sorted(SelectedAll(s1, op.src))
  IN  Result([s1 EXCEPT !.lg = @ \o [i \in 1 .. Len(q) |-> InvText(s1, q[i])]], "ok", Len(q))

-----------------------------------------------------------------------------
(* The other operations                                                    *)

\* everything the library remembers about mock m is dropped
Forget(s, m) ==
  [Ghost(s, [e |-> "forget", m |-> m]) EXCEPT
            !.bd[m]  = NotMentioned(m),
            !.st[m]  = NoStatements(m),
            !.hs     = SelectSeq(@, LAMBDA x : x.m # m),
            !.mem[m] = IF IsSpy(m) THEN @ ELSE FreshMembers(m)]

OnStack(s, m) == \E i \in DOMAIN s.stk : s.stk[i] = m

NewOp(s, m) == IF s.mk[m] = "on" THEN Skip(s)
               ELSE Result([Forget(s, m) EXCEPT !.mk[m] = "on"], "ok", 0)

DropHandles(s, m) == [s EXCEPT !.hd = [h \in Handles |-> IF @[h].on /\ @[h].m = m THEN NoHandle ELSE @[h]]]
\* a stored source is not used any more after a mock in it was reset or destroyed
DropSources(s, m) == [s EXCEPT !.so = [h \in Stored |-> IF @[h].on /\ (\E i \in DOMAIN @[h].ms : @[h].ms[i] = m)
                                                        THEN NoSource ELSE @[h]]]

DelOp(s, m) == IF s.mk[m] # "on" \/ OnStack(s, m) THEN Skip(s)
               ELSE Result([DropSources(DropHandles(Forget(s, m), m), m) EXCEPT !.mk[m] = "none"], "ok", 0)

ResetOp(s, m) == IF s.mk[m] # "on" \/ OnStack(s, m) THEN Skip(s)
                 ELSE Result(DropSources(Forget(s, m), m), "ok", 0)

ClearOp(s, m) == IF s.mk[m] # "on" THEN Skip(s)
                 ELSE Result([Ghost(s, [e |-> "forget", m |-> m]) EXCEPT !.hs = SelectSeq(@, LAMBDA x : x.m # m)], "ok", 0)

\* One stubbing statement.  Through a stored handle (op.h) it uses the condition
\* object of the handle; otherwise it creates its own.
StubOp(s, op) ==
  LET byH == op.h # 0
      m   == IF byH THEN s.hd[op.h].m ELSE op.m
      f   == IF byH THEN s.hd[op.h].f ELSE op.f
      mt  == IF byH THEN s.hd[op.h].mt ELSE op.mt
      mid == IF byH THEN s.hd[op.h].mid ELSE s.nx
      s1  == IF byH THEN s ELSE [Mention(s, m, f) EXCEPT !.nx = @ + 1]
  IN  IF byH /\ ~s.hd[op.h].on THEN Skip(s)
      ELSE IF s.mk[m] # "on" THEN Skip(s)
      ELSE IF NoDtor(m, f) THEN Result(s, "rte", 0)                   \* rejected (C15)
      ELSE IF op.ab >= 0 THEN Result(s1, "abd", 0)                   \* abandoned (C16)
      ELSE LET s2 == RunOps(s1, op.lc)
           IN  Result(AddStatement(s2, m, f, mt, mid, op.ac), "ok", 0)

\* Fake or Spy of several methods in one statement
RECURSIVE MultiOp(_, _, _)
MultiOp(s, xs, ac) ==
  IF xs = <<>> THEN Result(s, "ok", 0)
  ELSE LET x == xs[1]
       IN  MultiOp([AddStatement(s, x.m, x.f, x.mt, s.nx, <<ac>>) EXCEPT !.nx = @ + 1], Tail(xs), ac)

MakeHandleOp(s, op) ==
  IF s.mk[op.m] # "on" THEN Skip(s)
  ELSE IF NoDtor(op.m, op.f) THEN Result(s, "rte", 0)
  ELSE Result([Mention(s, op.m, op.f) EXCEPT
                 !.hd[op.h] = [on |-> TRUE, m |-> op.m, f |-> op.f, mt |-> op.mt, mid |-> s.nx],
                 !.nx = @ + 1], "ok", 0)

NarrowOp(s, op) ==
  IF ~s.hd[op.h].on THEN Skip(s)
  ELSE IF op.mt.k = "none" THEN Result(s, "ok", 0)
  ELSE Result([s EXCEPT !.hd[op.h].mt = op.mt, !.hd[op.h].mid = s.nx, !.nx = @ + 1], "ok", 0)

MakeSourceOp(s, op) ==
  Result([MentionSrcs(s, <<op.x>>) EXCEPT !.so[op.s] = [on |-> TRUE, ms |-> op.use, x |-> op.x]], "ok", 0)

MemberOp(s, op) ==
  LET m == op.m  i == op.i
      x == s.mem[m][i]
      cls == TypeOf(m).members[i].t = "class"        \* needs construction before use
  IN  IF s.mk[m] # "on" /\ ~(IsSpy(m) /\ op.t # "mstub") THEN Skip(s)
      ELSE CASE op.t = "mset"  -> IF cls /\ ~x.stubbed THEN Skip(s)
                                  ELSE Result([s EXCEPT !.mem[m][i].v = op.v], "ok", 0)
             [] op.t = "mget"  -> IF cls /\ ~x.stubbed THEN Skip(s)
                                  ELSE Result(s, "ret", x.v)
             [] op.t = "mstub" -> Result([s EXCEPT !.mem[m][i] = [v |-> op.v, stubbed |-> TRUE]], "ok", 0)

\* live user objects (C21): those that must and those that may still exist
\* Tracked objects: values of type "trk", exceptions of form 3 and function objects.
Holds1(a, m, f) == \/ a.t \in {"do", "scr"}
                   \/ a.t = "thr" /\ a.fm = 3
                   \/ a.t = "ret" /\ Sig(m, f).rt = "trk"
ActionObjects(ac, m, f) == {ac[i].v : i \in {j \in DOMAIN ac : Holds1(ac[j], m, f)}}
Wanted(ac) == SelectSeq(ac, LAMBDA a : a.n # 0)
CondObjects(mt, m, f) ==
  IF mt.k = "args" THEN {mt.c[i].v : i \in {j \in DOMAIN mt.c : mt.c[j].k # "any" /\ Params(m, f)[j].t = "trk"}}
  ELSE IF mt.k = "pred" THEN {50 + mt.p} ELSE {}                       \* an object of the predicate
PerStmt(s, Op(_, _, _)) ==
  UNION {UNION {UNION {Op(s.st[m][f][i], m, f) : i \in DOMAIN s.st[m][f]} : f \in Methods(m)} : m \in Mocks}
MustLive(s) ==
  (PerStmt(s, LAMBDA t, m, f : CondObjects(t.mt, m, f) \cup ActionObjects(Wanted(t.ac), m, f))
   \cup UNION {CondObjects(s.hd[h].mt, s.hd[h].m, s.hd[h].f) : h \in {x \in Handles : s.hd[x].on}}
   \cup UNION {{s.hs[i].a[j] : j \in {k \in DOMAIN s.hs[i].a : Params(s.hs[i].m, s.hs[i].f)[k].t = "trk"}} : i \in DOMAIN s.hs}
   \cup UNION {{s.mem[m][i].v : i \in {x \in Members(m) : s.mem[m][x].stubbed /\ TypeOf(m).members[x].t = "class"}} : m \in Mocks}) \ {0}
MayLive(s) == (MustLive(s) \cup PerStmt(s, LAMBDA t, m, f : ActionObjects(t.ac0, m, f))) \ {0}

\* the mocks, handles and sources an operation names exist
Exist(s, op) ==
  /\ \A i \in DOMAIN op.use : s.mk[op.use[i]] = "on"
  /\ \A i \in DOMAIN op.useh : s.hd[op.useh[i]].on
  /\ \A i \in DOMAIN op.uses : s.so[op.uses[i]].on

\* Operations of a destructor that runs because of an exception.  Statements that
\* are judged at their end cannot be told there from interrupted ones and are left out.
UnwindOp(s, op) ==
  LET r == RunOps([s EXCEPT !.uw = TRUE], op.ops)
  IN  Result([r EXCEPT !.uw = s.uw], "abd", 0)
JudgedAtEnd(op) == \/ op.t = "stub" /\ op.fm = "when" /\ op.ab < 0
                   \/ op.t \in {"ver", "vno"} /\ op.mode \in Statements
                   \/ op.t = "hist"

Do(s, op) ==
  CASE s.uw /\ JudgedAtEnd(op) -> Skip(s)
    [] op.t = "uw"    -> UnwindOp(s, op)
    [] op.t = "new"   -> NewOp(s, op.m)
    [] op.t = "del"   -> DelOp(s, op.m)
    [] op.t = "reset" -> ResetOp(s, op.m)
    [] op.t = "clear" -> ClearOp(s, op.m)
    [] op.t = "stub"  -> StubOp(s, op)
    [] op.t = "multi" -> IF \A i \in DOMAIN op.xs : s.mk[op.xs[i].m] = "on" THEN MultiOp(s, op.xs, op.ac) ELSE Skip(s)
    [] op.t = "call"  -> IF Callable(s, op.m) THEN Call(s, op.m, op.f, op.a) ELSE Skip(s)
    [] op.t = "rpt"   -> RepeatedCallOp(s, op)
    [] op.t = "ver"   -> IF Exist(s, op) THEN VerifyOp(s, op) ELSE Skip(s)
    [] op.t = "vno"   -> IF Exist(s, op) THEN VerifyNoOtherOp(s, op) ELSE Skip(s)
    [] op.t = "hist"  -> IF Exist(s, op) THEN HistOp(s, op) ELSE Skip(s)
    [] op.t = "mkh"   -> MakeHandleOp(s, op)
    [] op.t = "nar"   -> NarrowOp(s, op)
    [] op.t = "mks"   -> IF Exist(s, op) THEN MakeSourceOp(s, op) ELSE Skip(s)
    [] op.t = "age"   -> Result(s, "ok", 0)       \* work on other mocks, which are gone afterwards (C10)
    [] op.t = "drph"  -> Result([s EXCEPT !.hd[op.h] = NoHandle], "ok", 0)
    [] op.t = "addl"  -> Result([s EXCEPT !.ls = Append(@, op.v)], "ok", 0)
    [] op.t = "clrl"  -> Result([s EXCEPT !.ls = <<>>], "ok", 0)
    [] op.t = "setad" -> Result([s EXCEPT !.ad = op.v], "ok", 0)
    [] op.t = "setfm" -> Result([s EXCEPT !.fm = op.v], "ok", 0)
    [] op.t = "poke"  -> Result([s EXCEPT !.cl[op.c] = op.v], "ok", 0)
    [] op.t = "cells" -> ResultW(s, "ok", s.cl)
    [] op.t \in {"mset", "mget", "mstub"} -> MemberOp(s, op)
    [] op.t = "ident" -> IF Callable(s, op.m) THEN Result(s, "ok", 0) ELSE Skip(s)
    [] op.t = "obj"   -> Result(s, "ret", s.ob[op.m].n)
    [] op.t = "live"  -> [s |-> s, o |-> [k |-> "live", v |-> 0, w |-> <<Sorted(MustLive(s)), Sorted(MayLive(s))>>]]

Quiet(s) == [s EXCEPT !.lg = <<>>, !.ev = <<>>, !.tx = <<>>, !.gh = <<>>]

Step(s, op) ==
  LET r == Do(s, op)
  IN  [s |-> Quiet(r.s),
       o |-> [k |-> r.o.k, v |-> r.o.v, w |-> r.o.w, lg |-> r.s.lg, ev |-> r.s.ev, tx |-> r.s.tx],
       g |-> r.s.gh]

=============================================================================
