--------------------------------- MODULE Own ---------------------------------
(* C01: who owns which element.  Every element has an identity.  At any time   *)
(* a live element is in exactly one place:                                     *)
(*   hand    with the program (a closure argument, a returned value ...)       *)
(*   limbo   inside a running call of the library                              *)
(*   reg[i]  an element of container or iterator i of the program              *)
(*   leaked  lost by a call that panicked (nobody may touch it any more)       *)
(* and a dead element is in none.  The actions are the micro-steps of calls.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES born,    \* all identities ever created
          hand, limbo, leaked,
          reg,     \* register -> sequence of identities
          calling, \* inside a call of the library
          ended
ovars == <<born, hand, limbo, leaked, reg, calling, ended>>

Range(s) == {s[i] : i \in DOMAIN s}
Held == UNION {Range(reg[i]) : i \in DOMAIN reg}
Live == hand \union limbo \union Held
Put(i, s) == IF i \in DOMAIN reg THEN [reg EXCEPT ![i] = s] ELSE [j \in DOMAIN reg \union {i} |-> IF j = i THEN s ELSE reg[j]]

OInit == born = {} /\ hand = {} /\ limbo = {} /\ leaked = {} /\ reg = <<>> /\ calling = FALSE /\ ended = FALSE
\* the program creates an element
New(x) == /\ x \notin born
          /\ born' = born \union {x} /\ hand' = hand \union {x}
          /\ UNCHANGED <<limbo, leaked, reg, calling, ended>>
\* the destructor of an element runs
Drop(x) == /\ x \in hand \union limbo
           /\ hand' = hand \ {x} /\ limbo' = limbo \ {x}
           /\ UNCHANGED <<born, leaked, reg, calling, ended>>
\* an element is read in place
Use(x) == x \in Live /\ UNCHANGED ovars
\* the program hands an element to the library / gets one from it
Give(x) == /\ x \in hand
           /\ hand' = hand \ {x} /\ limbo' = limbo \union {x}
           /\ UNCHANGED <<born, leaked, reg, calling, ended>>
Take(x) == /\ x \in limbo
           /\ limbo' = limbo \ {x} /\ hand' = hand \union {x}
           /\ UNCHANGED <<born, leaked, reg, calling, ended>>
\* a call begins and takes over the registers in rs
Call(rs) == /\ ~calling
            /\ rs \subseteq DOMAIN reg
            /\ limbo' = limbo \union UNION {Range(reg[i]) : i \in rs}
            /\ reg' = [i \in DOMAIN reg |-> IF i \in rs THEN <<>> ELSE reg[i]]
            /\ calling' = TRUE
            /\ UNCHANGED <<born, hand, leaked, ended>>
\* register i now holds exactly the elements s
Ret(i, s) == /\ Range(s) \subseteq limbo
             /\ Cardinality(Range(s)) = Len(s)
             /\ i \in DOMAIN reg => reg[i] = <<>>
             /\ limbo' = limbo \ Range(s)
             /\ reg' = Put(i, s)
             /\ UNCHANGED <<born, hand, leaked, calling, ended>>
\* the call returned: nothing may have got lost in it
Done == calling /\ limbo = {} /\ calling' = FALSE /\ UNCHANGED <<born, hand, limbo, leaked, reg, ended>>
\* the call panicked: what it still held may be lost, but for ever
Panic == /\ calling /\ calling' = FALSE
         /\ leaked' = leaked \union limbo /\ limbo' = {}
         /\ UNCHANGED <<born, hand, reg, ended>>
\* the program has dropped everything it had
End == ~calling /\ Live = {} /\ ended' = TRUE /\ UNCHANGED <<born, hand, limbo, leaked, reg, calling>>

\* what the rules above amount to
Disjoint == /\ hand \intersect limbo = {} /\ hand \intersect Held = {} /\ limbo \intersect Held = {}
            /\ leaked \intersect Live = {}
            /\ Live \union leaked \subseteq born
            /\ \A i, j \in DOMAIN reg : i # j => Range(reg[i]) \intersect Range(reg[j]) = {}
=============================================================================
