----------------------------- MODULE MC_IterWords -----------------------------
(* Scenario generator for C03: every word of iterator calls up to a length.    *)
(* "b" and "e" (from the back, exact length) only apply to two-ended iterators. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLE w
Steps == {<<"n", 0>>, <<"k", 0>>, <<"k", 1>>, <<"k", 2>>, <<"b", 0>>, <<"s", 0>>}
Ends == {<<"c", 0>>, <<"l", 0>>, <<"r", 0>>, <<"f", 0>>, <<"v", 0>>}
Closed(x) == x # <<>> /\ x[Len(x)] \in Ends
Init == w = <<>>
Next == /\ ~Closed(w) /\ Len(w) < Depth
        /\ \/ \E a \in Steps : (IF w = <<>> THEN TRUE ELSE w[Len(w)] # a \/ a # <<"s", 0>>) /\ w' = Append(w, a)
           \/ \E a \in Ends : w' = Append(w, a)
        /\ (Closed(w') => PrintT("SCENARIO " \o ToJson(w')))
Spec == Init /\ [][Next]_w
=============================================================================
