------------------------------- MODULE MC_Elem -------------------------------
(* Laws of the scalar operators the component-wise specification is built from  *)
(* (C05, C06), for all 4-bit integers, signed and not.                         *)
EXTENDS Func
VARIABLES L, x, y, z
vars == <<L, x, y, z>>
Lanes == {<<"z", -8, 7>>, <<"z", 0, 15>>}
Init == L \in Lanes /\ x \in L[2]..L[3] /\ y = 99 /\ z = 0
Next == y = 99 /\ UNCHANGED <<L, x>> /\ y' \in L[2]..L[3] /\ z' \in L[2]..L[3]
Spec == Init /\ [][Next]_vars
Op(o) == S2(L, o, x, y)
Division == y # 99 /\ y # 0 =>
  /\ ~ScalarPanics(L, "div", x, y) =>
       /\ x = y * Op("div") + Op("rem") /\ Abs(Op("rem")) < Abs(y) /\ (Op("rem") = 0 \/ Sgn(Op("rem")) = Sgn(x))
       /\ x = y * Op("divf") + Op("modf") /\ Abs(Op("modf")) < Abs(y) /\ (Op("modf") = 0 \/ Sgn(Op("modf")) = Sgn(y))
       /\ Op("divf") <= Op("div") /\ Op("div") - Op("divf") <= 1
       /\ (x >= 0 /\ y > 0 => Op("divf") = Op("div") /\ Op("modf") = Op("rem"))
Zero == y = 0 => \A o \in {"div", "rem", "divf", "modf", "divmodf"} : ScalarPanics(L, o, x, y)
Bits == y # 99 =>
  /\ \A o \in {"and", "or", "xor"} : InR(L, Op(o)) /\ SBit(L, o, x, y) = SBit(L, o, y, x)
  /\ SBit(L, "xor", SBit(L, "xor", x, y), y) = x
  /\ S1(L, "not", S1(L, "not", x)) = x /\ SBit(L, "xor", x, S1(L, "not", x)) = S1(L, "not", 0)
  /\ S1(L, "not", SBit(L, "and", x, y)) = SBit(L, "or", S1(L, "not", x), S1(L, "not", y))
  /\ SBit(L, "and", x, SBit(L, "or", y, z)) = SBit(L, "or", SBit(L, "and", x, y), SBit(L, "and", x, z))
  /\ SBit(L, "or", x, y) = SBit(L, "xor", SBit(L, "xor", x, y), SBit(L, "and", x, y))
Orders == y # 99 => \A M \in {L, <<"zf">>, <<"po">>} :
  LET c(o) == SCmp(M, o, ToBits(L, x), ToBits(L, y)) IN
  /\ c("vne") = ~c("veq") /\ c("vlt") = (c("vle") /\ c("vne")) /\ c("vgt") = (c("vge") /\ c("vne"))
  /\ c("vle") = SCmp(M, "vge", ToBits(L, y), ToBits(L, x))
  /\ (c("veq") <=> ToBits(L, x) = ToBits(L, y))
  /\ (M[1] # "po" => c("vlt") = ~c("vge"))
NotANumber == SCmp(<<"zf">>, "vne", x, NaN) /\ \A o \in Comparisons \ {"vne"} : ~SCmp(<<"zf">>, o, x, NaN) /\ ~SCmp(<<"zf">>, o, NaN, NaN)
\* quarters
Rounding ==
  /\ \A o \in {"floor", "ceil", "trunc", "round"} : Q1(o, x) % 4 = 0 /\ Abs(Q1(o, x) - x) < 4 /\ Q1(o, Q1(o, x)) = Q1(o, x)
  /\ Q1("floor", x) <= x /\ x <= Q1("ceil", x) /\ Abs(Q1("round", x) - x) <= 2 /\ Abs(Q1("trunc", x)) <= Abs(x)
  /\ Q1("trunc", x) + Q1("fract", x) = x /\ Q1("ceil", x) = -Q1("floor", -x)
  /\ (Abs(x) % 4 = 2 => Abs(Q1("round", x)) > Abs(x))
=============================================================================
