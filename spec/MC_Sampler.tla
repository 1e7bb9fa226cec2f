------------------------------ MODULE MC_Sampler ------------------------------
(* The sampling loop as a machine over a script of draws (C16): take the draws  *)
(* of one attempt, keep the sample if its condition holds, otherwise forget it. *)
(* Whatever it returns satisfies DrawPost; it returns the first good attempt;   *)
(* and it does return if there is one.                                         *)
EXTENDS Sampler
CONSTANTS Values, Attempts
Few == {0, 3, -5}
Many == {0, 4, 5, -3}
VARIABLES what, script, at, buf, got
vars == <<what, script, at, buf, got>>
Size(w) == CASE w = "nonzero" -> 2 [] w = "invertible" -> 4
Cond(w, v) == IF w = "nonzero" THEN Long(v) ELSE Regular(2, v)
Init == /\ what \in {"nonzero", "invertible"}
        /\ script \in [1..(Attempts * Size(what)) -> Values]
        /\ at = 0 /\ buf = <<>> /\ got = <<>>
Draw == /\ got = <<>> /\ Len(buf) < Size(what) /\ at < Len(script)
        /\ at' = at + 1 /\ buf' = Append(buf, script[at + 1]) /\ UNCHANGED <<what, script, got>>
Accept == /\ got = <<>> /\ Len(buf) = Size(what) /\ Cond(what, buf)
          /\ got' = <<buf>> /\ UNCHANGED <<what, script, at, buf>>
Reject == /\ got = <<>> /\ Len(buf) = Size(what) /\ ~Cond(what, buf)
          /\ buf' = <<>> /\ UNCHANGED <<what, script, at, got>>
Next == Draw \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Sample == IF what = "invertible" THEN Rows(2, got[1]) ELSE got[1]
Conforms == got # <<>> => DrawPost(<<"any">>, "d", <<what, 2>>, <<script>>, <<at, Sample>>)
Sound == got # <<>> => Cond(what, got[1])
\* no other end is admitted by the postcondition than the one the machine comes to
Only == got # <<>> => \A m \in 1..Len(script), i \in 1..Attempts :
          DrawPost(<<"any">>, "d", <<what, 2>>, <<script>>, <<m, LET v == Attempt(script, Size(what), i) IN IF what = "invertible" THEN Rows(2, v) ELSE v>>)
          => m = at
HasGood == \E i \in 1..Attempts : Cond(what, Attempt(script, Size(what), i))
Returns == HasGood ~> got # <<>>
=============================================================================
