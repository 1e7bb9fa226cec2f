------------------------------- MODULE MC_Own -------------------------------
(* Own itself, exhaustively for few elements and registers, with the history   *)
(* of destructor calls: every element ever created is, at any time, in exactly *)
(* one of the places, dead, or lost by a panic; it dies once and stays dead.   *)
EXTENDS Own
CONSTANTS Ids, RegIds
VARIABLE deaths     \* how often the destructor ran, per element
Seqs == {<<>>} \union {<<a>> : a \in Ids} \union {<<a, b>> : a, b \in Ids}
MInit == OInit /\ deaths = [x \in Ids |-> 0]
Other == \/ \E x \in Ids : New(x) \/ Use(x) \/ Give(x) \/ Take(x)
         \/ \E rs \in SUBSET RegIds : Call(rs)
         \/ calling /\ \E i \in RegIds, s \in Seqs : Ret(i, s)
         \/ Done \/ Panic \/ End
Next == /\ ~ended
        /\ \/ Other /\ UNCHANGED deaths
           \/ \E x \in Ids : Drop(x) /\ deaths' = [deaths EXCEPT ![x] = @ + 1]
Spec == MInit /\ [][Next]_<<ovars, deaths>>
Once == \A x \in Ids : deaths[x] =< 1
Accounted == \A x \in Ids : x \in born <=> (x \in Live \/ x \in leaked \/ deaths[x] = 1)
DeadIsNowhere == \A x \in Ids : deaths[x] = 1 => x \notin Live \union leaked
\* a program without panics that reached its end dropped everything exactly once
AllDropped == ended /\ leaked = {} => \A x \in born : deaths[x] = 1
LeakedIsLost == [][leaked \subseteq leaked']_<<ovars, deaths>>
=============================================================================
