-------------------------------- MODULE Format --------------------------------
(* Text forms (C17).  The operand holds the text of every component; k names   *)
(* the type: <<"v", n>>, <<"m", rows, columns>>, <<"c">>, <<"q">>.              *)
EXTENDS Integers, Sequences, SequencesExt, TLC
Cat(s) == FoldSeq(LAMBDA x, y : y \o x, "", s)   \* in order
Joined(s) == Cat([i \in DOMAIN s |-> IF i = 1 THEN s[i] ELSE ", " \o s[i]])
MatLine(s) == "  " \o Cat([i \in DOMAIN s |-> s[i] \o ", "]) \o "\n"
TextOf(k, x) ==
  CASE k[1] = "v" -> "Vector" \o ToString(k[2]) \o "(" \o Joined(x) \o ")"
    [] k[1] = "m" -> "\nMatrix" \o ToString(k[2]) \o "x" \o ToString(k[3]) \o "(\n" \o Cat([i \in DOMAIN x |-> MatLine(x[i])]) \o ")\n"
    [] k[1] = "c" -> "Complex(" \o Joined(x) \o ")"
    [] k[1] = "q" -> "Quaternion(" \o Joined(x) \o ")"
Shaped(k, x) == /\ k[1] = "v" => Len(x) = k[2]
                /\ k[1] = "m" => Len(x) = k[2] /\ \A i \in DOMAIN x : Len(x[i]) = k[3]
\* a writer with room for c characters takes the first c and then refuses: so does the call
Fits(c, t) == IF Len(t) <= c THEN <<TRUE, t>> ELSE <<FALSE, SubSeq(t, 1, c)>>
TextPost(L, o, k, a, r) ==
  CASE o = "room" -> Shaped(k[2], a[1]) /\ r = Fits(k[1], TextOf(k[2], a[1]))
    [] o = "sulk" -> r = (k[1] \notin 1 .. a[1])   \* component number k[1] of a[1] refuses
    [] OTHER -> Shaped(k, a[1]) /\ r = TextOf(k, a[1])
=============================================================================
