------------------------------- MODULE OwnProof -------------------------------
(* The ownership rules of Own keep every element in exactly one place, for any  *)
(* number of elements, registers and calls (MC_Own: the same, exhaustively for   *)
(* a few).  Checked with tlapm.                                                 *)
EXTENDS Own, TLAPS
VARIABLE dead       \* the elements whose destructor ran
pvars == <<born, hand, limbo, leaked, reg, calling, ended, dead>>

PInit == OInit /\ dead = {}
Step(Ids, RegIds) ==
  \/ /\ \/ \E x \in Ids : New(x) \/ Use(x) \/ Give(x) \/ Take(x)
        \/ \E rs \in SUBSET RegIds : Call(rs)
        \/ \E i \in RegIds, s \in Seq(Ids) : Ret(i, s)
        \/ Done \/ Panic \/ End
     /\ dead' = dead
  \/ \E x \in Ids : Drop(x) /\ dead' = dead \union {x}

\* every element is in exactly one place: with the program, in the library, in one register, lost or dead
OnePlace == /\ hand \intersect limbo = {} /\ hand \intersect Held = {} /\ limbo \intersect Held = {}
            /\ leaked \intersect (hand \union limbo \union Held) = {}
            /\ dead \intersect (hand \union limbo \union Held \union leaked) = {}
            /\ born = hand \union limbo \union Held \union leaked \union dead
            /\ \A i, j \in DOMAIN reg : i # j => Range(reg[i]) \intersect Range(reg[j]) = {}

LEMMA InitOk == PInit => OnePlace
  BY DEF PInit, OInit, OnePlace, Held, Range

LEMMA PutHeld == ASSUME NEW i, NEW s, i \in DOMAIN reg => reg[i] = <<>>
                 PROVE  /\ DOMAIN Put(i, s) = DOMAIN reg \union {i}
                        /\ Put(i, s)[i] = s
                        /\ \A j \in DOMAIN reg : j # i => Put(i, s)[j] = reg[j]
  BY DEF Put

\* a register changes only in Call and Ret
LEMMA Same == ASSUME reg' = reg PROVE Held' = Held
  BY DEF Held, Range

THEOREM NewOk == ASSUME NEW x, OnePlace, New(x), dead' = dead PROVE OnePlace'
  <1>1. Held' = Held BY DEF New, Held, Range
  <1> QED BY <1>1 DEF New, OnePlace, Range
THEOREM UseOk == ASSUME NEW x, OnePlace, Use(x), dead' = dead PROVE OnePlace'
  BY DEF Use, OnePlace, ovars, Held, Range
THEOREM GiveOk == ASSUME NEW x, OnePlace, Give(x), dead' = dead PROVE OnePlace'
  <1>1. Held' = Held BY DEF Give, Held, Range
  <1> QED BY <1>1 DEF Give, OnePlace, Range
THEOREM TakeOk == ASSUME NEW x, OnePlace, Take(x), dead' = dead PROVE OnePlace'
  <1>1. Held' = Held BY DEF Take, Held, Range
  <1> QED BY <1>1 DEF Take, OnePlace, Range
THEOREM DropOk == ASSUME NEW x, OnePlace, Drop(x), dead' = dead \union {x} PROVE OnePlace' /\ x \notin dead
  <1>1. Held' = Held BY DEF Drop, Held, Range
  <1> QED BY <1>1 DEF Drop, OnePlace, Range
THEOREM DoneOk == ASSUME OnePlace, Done, dead' = dead PROVE OnePlace'
  <1>1. Held' = Held BY DEF Done, Held, Range
  <1> QED BY <1>1 DEF Done, OnePlace, Range
THEOREM PanicOk == ASSUME OnePlace, Panic, dead' = dead PROVE OnePlace'
  <1>1. Held' = Held BY DEF Panic, Held, Range
  <1> QED BY <1>1 DEF Panic, OnePlace, Range
THEOREM EndOk == ASSUME OnePlace, End, dead' = dead PROVE OnePlace' /\ (leaked = {} => dead = born)
  <1>1. Held' = Held BY DEF End, Held, Range
  <1> QED BY <1>1 DEF End, OnePlace, Range, Live
THEOREM CallOk == ASSUME NEW rs, OnePlace, Call(rs), dead' = dead PROVE OnePlace'
  <1>1. DOMAIN reg' = DOMAIN reg BY DEF Call
  <1>2. \A i \in DOMAIN reg : i \in rs => reg'[i] = <<>> BY DEF Call
  <1>3. \A i \in DOMAIN reg : i \notin rs => reg'[i] = reg[i] BY DEF Call
  <1>4. \A i \in DOMAIN reg : i \in rs => Range(reg'[i]) = {} BY <1>2 DEF Range
  <1>5. \A i \in DOMAIN reg : i \notin rs => Range(reg'[i]) = Range(reg[i]) BY <1>3 DEF Range
  <1>6. Held' = UNION {Range(reg[i]) : i \in (DOMAIN reg) \ rs}
    BY <1>1, <1>4, <1>5 DEF Held
  <1>7. limbo' = limbo \union UNION {Range(reg[i]) : i \in rs} /\ rs \subseteq DOMAIN reg BY DEF Call
  <1>8. limbo' \union Held' = limbo \union Held BY <1>6, <1>7 DEF Held
  <1>9. limbo' \intersect Held' = {}
    <2>1. ASSUME NEW e \in limbo', e \in Held' PROVE FALSE
      <3>1. PICK j \in (DOMAIN reg) \ rs : e \in Range(reg[j]) BY <1>6, <2>1
      <3>2. e \in Held BY <3>1 DEF Held
      <3>3. e \notin limbo BY <3>2 DEF OnePlace
      <3>4. PICK i \in rs : e \in Range(reg[i]) BY <1>7, <2>1, <3>3
      <3>5. i # j /\ i \in DOMAIN reg BY <1>7, <3>1, <3>4
      <3> QED BY <3>1, <3>4, <3>5 DEF OnePlace
    <2> QED BY <2>1
  <1>10. \A i, j \in DOMAIN reg' : i # j => Range(reg'[i]) \intersect Range(reg'[j]) = {}
    BY <1>1, <1>4, <1>5 DEF OnePlace
  <1>11. hand' = hand /\ leaked' = leaked /\ born' = born BY DEF Call
  <1> QED BY <1>8, <1>9, <1>10, <1>11 DEF OnePlace
THEOREM RetOk == ASSUME NEW i, NEW s, OnePlace, Ret(i, s), dead' = dead PROVE OnePlace'
  <1>0. (i \in DOMAIN reg => reg[i] = <<>>) /\ reg' = Put(i, s) /\ Range(s) \subseteq limbo /\ limbo' = limbo \ Range(s) BY DEF Ret
  <1>1. DOMAIN reg' = DOMAIN reg \union {i} /\ reg'[i] = s /\ \A j \in DOMAIN reg : j # i => reg'[j] = reg[j]
    BY <1>0, PutHeld
  <1>2. i \in DOMAIN reg => Range(reg[i]) = {} BY <1>0 DEF Range
  <1>3. \A j \in DOMAIN reg : j # i => Range(reg'[j]) = Range(reg[j]) BY <1>1 DEF Range
  <1>4. Range(reg'[i]) = Range(s) BY <1>1 DEF Range
  <1>5. Held' = Held \union Range(s) BY <1>1, <1>2, <1>3, <1>4 DEF Held
  <1>6. \A j \in DOMAIN reg : Range(reg[j]) \subseteq Held BY DEF Held
  <1>7. \A j, k \in DOMAIN reg' : j # k => Range(reg'[j]) \intersect Range(reg'[k]) = {}
    BY <1>0, <1>1, <1>3, <1>4, <1>6 DEF OnePlace
  <1>8. hand' = hand /\ leaked' = leaked /\ born' = born BY DEF Ret
  <1> QED BY <1>0, <1>5, <1>7, <1>8 DEF OnePlace

THEOREM StepOk == ASSUME NEW Ids, NEW RegIds, OnePlace, [Step(Ids, RegIds)]_pvars PROVE OnePlace'
  <1>1. CASE UNCHANGED pvars BY <1>1 DEF pvars, OnePlace, Held, Range
  <1>2. CASE Step(Ids, RegIds)
    BY <1>2, NewOk, UseOk, GiveOk, TakeOk, DropOk, DoneOk, PanicOk, EndOk, CallOk, RetOk DEF Step
  <1> QED BY <1>1, <1>2

THEOREM Safe == ASSUME NEW CONSTANT Ids, NEW CONSTANT RegIds
                PROVE PInit /\ [][Step(Ids, RegIds)]_pvars => []OnePlace
  <1>1. PInit => OnePlace BY InitOk
  <1>2. OnePlace /\ [Step(Ids, RegIds)]_pvars => OnePlace' BY StepOk
  <1> QED BY <1>1, <1>2, PTL
=============================================================================
