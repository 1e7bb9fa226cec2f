------------------------------ MODULE TraceOwn ------------------------------
(* Validates recorded programs against Own.  Events are <<kind, arg, list>>.   *)
EXTENDS Own, Json, IOUtils
Programs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES p, l, verdict
vars == <<ovars, p, l, verdict>>
Admit(e) ==
  CASE e[1] = 1 -> New(e[2])
    [] e[1] = 2 -> Drop(e[2])
    [] e[1] = 3 -> Use(e[2])
    [] e[1] = 4 -> Give(e[2])
    [] e[1] = 5 -> Take(e[2])
    [] e[1] = 6 -> Call(Range(e[3]))
    [] e[1] = 7 -> Ret(e[2], e[3])
    [] e[1] = 8 -> Done
    [] e[1] = 9 -> Panic
    [] e[1] = 10 -> End
    [] OTHER -> FALSE /\ UNCHANGED ovars      \* a call that never returned
\* the last event, and no other, is the end of the program
Due == (l + 1 = Len(Programs[p].ev)) <=> (Programs[p].ev[l + 1][1] = 10)
Init == OInit /\ p \in DOMAIN Programs /\ l = 0 /\ verdict = "ok"
Next ==
  /\ verdict = "ok"
  /\ l < Len(Programs[p].ev)
  /\ l' = l + 1 /\ p' = p
  /\ \/ Due /\ Admit(Programs[p].ev[l + 1]) /\ verdict' = "ok"
     \/ ~(Due /\ ENABLED Admit(Programs[p].ev[l + 1]))
        /\ UNCHANGED ovars /\ verdict' = "diverged"
        /\ PrintT("DIVERGED " \o ToJson([prog |-> p, id |-> Programs[p].id, ev |-> l + 1]))
Spec == Init /\ [][Next]_vars
View == <<p, l, verdict>>
Conforms == verdict = "ok"
=============================================================================
