-------------------------------- MODULE Elem --------------------------------
(* Component-wise operators (C05).  k = rank of the container (0 scalar, 1    *)
(* vector, 2 matrix).                                                         *)
EXTENDS Linalg

EMap(k, F(_), a) ==
  CASE k = 0 -> F(a)
    [] k = 1 -> [i \in DOMAIN a |-> F(a[i])]
    [] k = 2 -> [i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> F(a[i][j])]]
EZip(k, F(_, _), a, b) ==
  CASE k = 0 -> F(a, b)
    [] k = 1 -> [i \in DOMAIN a |-> F(a[i], b[i])]
    [] k = 2 -> [i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> F(a[i][j], b[i][j])]]
EAll(k, F(_), a) ==
  CASE k = 0 -> F(a)
    [] k = 1 -> \A i \in DOMAIN a : F(a[i])
    [] k = 2 -> \A i \in DOMAIN a : \A j \in DOMAIN a[i] : F(a[i][j])
ESome(k, F(_, _), a, b) ==
  CASE k = 0 -> F(a, b)
    [] k = 1 -> \E i \in DOMAIN a : F(a[i], b[i])
    [] k = 2 -> \E i \in DOMAIN a : \E j \in DOMAIN a[i] : F(a[i][j], b[i][j])

InR(L, x) == L[2] <= x /\ x <= L[3]
ScalarPanics(L, o, x, y) ==
  IF L[1] # "z" THEN FALSE
  ELSE CASE o = "neg" -> ~InR(L, -x)
         [] o = "add" -> ~InR(L, x + y)
         [] o = "sub" -> ~InR(L, x - y)
         [] o = "mul" -> ~InR(L, x * y)
         [] o \in {"div", "rem", "divf", "modf", "divmodf"} -> y = 0 \/ (L[2] < 0 /\ x = L[2] /\ y = -1)
         [] OTHER -> FALSE

\* two's complement view of lo..hi for the bit operators
ToBits(L, x) == IF x < 0 THEN x + (L[3] - L[2] + 1) ELSE x
OfBits(L, x) == IF x > L[3] THEN x - (L[3] - L[2] + 1) ELSE x
TermOp(c, x, y) == "(" \o x \o c \o y \o ")"
SBit(L, o, x, y) ==
  IF L[1] = "t" THEN TermOp(IF o = "and" THEN "&" ELSE IF o = "or" THEN "|" ELSE "^", x, y)
  ELSE OfBits(L, IF o = "and" THEN ToBits(L, x) & ToBits(L, y)
                 ELSE IF o = "or" THEN ToBits(L, x) | ToBits(L, y)
                 ELSE ToBits(L, x) ^^ ToBits(L, y))
S1(L, o, x) ==
  CASE o = "neg" -> SNeg(L, x)
    [] o = "not" -> IF L[1] = "t" THEN "!" \o x ELSE IF L[2] = 0 THEN L[3] - x ELSE -x - 1
S2(L, o, x, y) ==
  CASE o = "add" -> SAdd(L, x, y)
    [] o = "sub" -> SSub(L, x, y)
    [] o = "mul" -> SMul(L, x, y)
    [] o = "div" -> IF L[1] = "t" THEN TermOp("/", x, y)
                    ELSE IF L[1] \in {"z", "zf"} THEN TDiv(x, y)
                    ELSE SMul(L, x, SInv(L, y))
    [] o = "rem" -> IF L[1] = "t" THEN TermOp("%", x, y) ELSE TRem(x, y)
    [] o = "divf" -> FDiv(x, y)
    [] o = "modf" -> FMod(x, y)
    [] OTHER -> SBit(L, o, x, y)

\* comparisons: floats with a NaN, and ("po") sets of bits under inclusion, are only partially ordered
NaN == 2000000001
Leq(L, x, y) == CASE L[1] = "po" -> x & y = x
                  [] L[1] = "zf" -> x # NaN /\ y # NaN /\ x <= y
                  [] OTHER -> x <= y
Same(L, x, y) == Leq(L, x, y) /\ Leq(L, y, x)
SCmp(L, o, x, y) ==
  CASE o = "veq" -> Same(L, x, y)
    [] o = "vne" -> ~Same(L, x, y)
    [] o = "vlt" -> Leq(L, x, y) /\ ~Same(L, x, y)
    [] o = "vle" -> Leq(L, x, y)
    [] o = "vgt" -> Leq(L, y, x) /\ ~Same(L, x, y)
    [] o = "vge" -> Leq(L, y, x)
Comparisons == {"veq", "vne", "vlt", "vle", "vgt", "vge"}

Unary == {"neg", "not"}
Scaled == {"muls", "divs", "rems"}             \* container with a scalar on the right
BaseOf(o) == CASE o = "muls" -> "mul" [] o = "divs" -> "div" [] o = "rems" -> "rem" [] o = "smul" -> "mul"

ElemPanics(L, o, k, a) ==
  CASE o \in {"any", "all"} -> FALSE
    [] o \in Unary -> ESome(k, LAMBDA x, y : ScalarPanics(L, o, x, y), a[1], a[1])
    [] o \in Scaled -> ESome(k, LAMBDA x, y : ScalarPanics(L, BaseOf(o), x, a[2]), a[1], a[1])
    [] o = "smul" -> ESome(k, LAMBDA x, y : ScalarPanics(L, "mul", a[1], y), a[2], a[2])
    [] OTHER -> ESome(k, LAMBDA x, y : ScalarPanics(L, o, x, y), a[1], a[2])

ElemPost(L, o, k, a, r) ==
  CASE o = "any" -> r = ~EAll(k, LAMBDA x : ~x, a[1])
    [] o = "all" -> r = EAll(k, LAMBDA x : x, a[1])
    [] o \in Unary -> r = EMap(k, LAMBDA x : S1(L, o, x), a[1])
    [] o \in Scaled -> r = EMap(k, LAMBDA x : S2(L, BaseOf(o), x, a[2]), a[1])
    [] o = "smul" -> r = EMap(k, LAMBDA x : S2(L, "mul", a[1], x), a[2])
    [] o = "divmodf" -> r = <<EZip(k, FDiv, a[1], a[2]), EZip(k, FMod, a[1], a[2])>>
    [] o \in Comparisons -> r = EZip(k, LAMBDA x, y : SCmp(L, o, x, y), a[1], a[2])
    [] OTHER -> r = EZip(k, LAMBDA x, y : S2(L, o, x, y), a[1], a[2])
=============================================================================
