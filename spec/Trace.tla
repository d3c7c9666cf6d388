------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of traces recorded from the real code.  The input is a file  *)
(* of scripts; every script is the sequence of operations the driver       *)
(* executed together with the outcome it observed for each.  A script is   *)
(* accepted when every observed outcome is the one the specification       *)
(* allows.  Rejected scripts are printed and the validation goes on with   *)
(* the next one.                                                           *)
(***************************************************************************)
EXTENDS Props

Scripts == ndJsonDeserialize(IOEnv.FK_TRACE)
Prop    == IOEnv.FK_PROP

VARIABLES s, n, i      \* state, script, next event of the script
vars == <<s, n, i>>

Init == s = Init0 /\ n = 1 /\ i = 1

ToSet(q) == {q[j] : j \in DOMAIN q}

\* the observed fields that the property speaks about
Agrees(o, r) ==
  IF r.o.k = "live"
  THEN /\ o.k = "live"
       /\ ToSet(r.o.w[1]) \subseteq ToSet(o.w)
       /\ ToSet(o.w) \subseteq ToSet(r.o.w[2])
  ELSE \A x \in DOMAIN o : o[x] = r.o[x]

Next ==
  /\ n <= Len(Scripts)
  /\ IF i > Len(Scripts[n].ops)
     THEN /\ s' = Init0 /\ n' = n + 1 /\ i' = 1
          /\ IF n = Len(Scripts) THEN PrintT("#\"DONE\"") ELSE TRUE
     ELSE LET op == Scripts[n].ops[i]
              r  == Step(s, op)
          IN  IF Agrees(Scripts[n].outs[i], r)
              THEN IF Holds(Prop, s, op, r)
                   THEN s' = r.s /\ n' = n /\ i' = i + 1
                   ELSE PrintT("!" \o ToJson([id |-> Scripts[n].id, at |-> i, prop |-> Prop])) /\ FALSE
              ELSE /\ PrintT("#" \o ToJson([id |-> Scripts[n].id, at |-> i, exp |-> r.o]))
                   /\ s' = s /\ n' = n /\ i' = Len(Scripts[n].ops) + 1

Spec == Init /\ [][Next]_vars

=============================================================================
