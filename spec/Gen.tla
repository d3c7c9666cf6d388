-------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Exhaustive exploration of the specification over an alphabet of         *)
(* operations.  In every reachable state every operation of the alphabet   *)
(* is evaluated, the property under check must hold for it, and the        *)
(* predicted outcomes are printed together with one path to the state, so  *)
(* that the driver can replay every transition on the real code.  The      *)
(* first Cfg.walk operations lead to new states, the others are evaluated  *)
(* in them (with Cfg.leaf only at the ends of the paths).                  *)
(***************************************************************************)
EXTENDS Props

Cfg == JsonDeserialize(IOEnv.FK_CFG)
Ops == Cfg.ops

RECURSIVE RunAll(_, _)
RunAll(s, ops) == IF ops = <<>> THEN s ELSE RunAll(Step(s, ops[1]).s, Tail(ops))

VARIABLES s, path
vars == <<s, path>>

Init == s = RunAll(Init0, Cfg.pre) /\ path = <<>>

InBounds(t) == /\ Len(t.hs) <= Cfg.maxHist
               /\ \A m \in Mocks : \A f \in Methods(m) : Len(t.st[m][f]) <= Cfg.maxStmt
               /\ t.nx <= Cfg.maxCond
               /\ Len(t.ls) <= 3

Next == /\ Len(path) < Cfg.depth
        /\ \E i \in 1 .. Cfg.walk :
             LET r == Step(s, Ops[i])
             IN  /\ r.o.k # "skip"
                 /\ InBounds(r.s)
                 /\ s' = r.s
                 /\ path' = Append(path, i)

Spec == Init /\ [][Next]_vars

View == s

Shown(o) == [x \in (DOMAIN o) \cap {Cfg.fields[i] : i \in DOMAIN Cfg.fields} |-> o[x]]

Eval == IF ~Cfg.leaf THEN DOMAIN Ops
        ELSE IF Len(path) < Cfg.depth THEN 1 .. Cfg.walk
        ELSE (Cfg.walk + 1) .. Len(Ops)

\* one evaluation of all operations serves both the property and the replay
Explored ==
  LET rs   == [i \in Eval |-> Step(s, Ops[i])]
      fail == {i \in Eval : ~Holds(Cfg.prop, s, Ops[i], rs[i])}
      seen == SelectSeq([i \in DOMAIN Ops |-> i], LAMBDA i : i \in Eval /\ rs[i].o.k # "skip")
  IN  /\ IF fail = {} THEN TRUE
         ELSE PrintT(<<"PROPERTY VIOLATED", Cfg.prop, [i \in DOMAIN path |-> Ops[path[i]]],
                       Ops[CHOOSE i \in fail : TRUE], rs[CHOOSE i \in fail : TRUE]>>) /\ FALSE
      /\ IF Cfg.emit
         THEN PrintT("@" \o ToJson([p |-> path, i |-> seen, o |-> [j \in DOMAIN seen |-> Shown(rs[seen[j]].o)]]))
         ELSE TRUE
=============================================================================
