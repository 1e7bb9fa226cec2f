------------------------------- MODULE MC_Words -------------------------------
(* Scenario generator for C12: every history of at most Depth compositions    *)
(* and inversions that starts from two transformations.  Registers 1, 2 hold  *)
(* the generators; each action appends its result.  The harness replays every *)
(* history on the real types; the trace specification judges the results.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLE hist     \* sequence of <<i>> (invert) or <<i, j>> (compose)
Regs == 1..(2 + Len(hist))
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \/ \E i \in Regs : hist' = Append(hist, <<i>>)
           \/ \E i, j \in Regs : hist' = Append(hist, <<i, j>>)
        \* only histories whose last result uses everything produced before it are interesting
        /\ (Len(hist') = Depth) =>
              \A m \in 1..(Depth - 1) : \E q \in (m + 1)..Depth : \E x \in DOMAIN hist'[q] : hist'[q][x] = m + 2
        /\ (Len(hist') = Depth => PrintT("SCENARIO " \o ToJson(hist')))
Spec == Init /\ [][Next]_hist
=============================================================================
