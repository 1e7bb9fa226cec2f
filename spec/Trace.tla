-------------------------------- MODULE Trace --------------------------------
(* Trace validation: every recorded program must be a behaviour of Vecmat.    *)
(* One initial state per program, one transition per recorded call.           *)
EXTENDS Vecmat, Json, IOUtils

Programs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES p,    \* the program
          l,    \* calls consumed so far
          reg,  \* the registers
          verdict
vars == <<p, l, reg, verdict>>

Init == p \in DOMAIN Programs /\ l = 0 /\ reg = <<>> /\ verdict = "ok"
Next ==
  /\ verdict = "ok"
  /\ l < Len(Programs[p].ev)
  /\ p' = p
  /\ l' = l + 1
  /\ LET e == Programs[p].ev[l + 1] IN
     IF Admits(Programs[p].L, reg, e)
     THEN reg' = Apply(Programs[p].L, reg, e) /\ verdict' = "ok"
     ELSE reg' = reg /\ verdict' = "diverged"
          /\ PrintT("DIVERGED " \o ToJson([prog |-> p, id |-> Programs[p].id, ev |-> l + 1]))
Spec == Init /\ [][Next]_vars
View == <<p, l, verdict>>
Conforms == verdict = "ok"
=============================================================================
