----------------------------- MODULE MC_OwnWords -----------------------------
(* Scenario generator for C01: histories of calls on containers of one shape.  *)
(* Slots hold containers ("c"), transposed ones ("t"), containers of pairs     *)
(* ("p"), iterators by value ("i"); consumed slots hold "x".  par chooses the  *)
(* user callback that panics: 0 none, 1 the first, 2 one in the middle, 3 the  *)
(* last, 4 the last, but after it has made its result.                         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Pan
VARIABLES slot, hist, fin
Step(name, used, made, par) ==
  /\ hist' = Append(hist, <<name, used, par>>)
  /\ slot' = [i \in DOMAIN slot |-> IF i \in {used[j] : j \in DOMAIN used} THEN "x" ELSE slot[i]] \o (IF par = 0 THEN made ELSE <<>>)
Keep(name, used, made, par) ==   \* the operands stay
  hist' = Append(hist, <<name, used, par>>) /\ slot' = slot \o (IF par = 0 THEN made ELSE <<>>)
Is(k) == {i \in DOMAIN slot : slot[i] = k}
Act ==
  /\ \/ \E o \in {"init", "iter", "default", "zero"}, q \in Pan : Keep(o, <<>>, <<"c">>, q)
     \/ \E o \in {"iterfew", "itermore", "itervec", "group"}, q \in {0, 2} \intersect Pan : Keep(o, <<>>, IF o \in {"itermore", "itervec"} THEN <<"c">> ELSE <<>>, q)
     \/ Keep("uninit", <<>>, <<"c">>, 0)
     \/ \E i \in Is("c") :
          \/ \E o \in {"map", "neg", "not", "scan", "enumerate"}, q \in Pan : Step(o, <<i>>, <<"c">>, q)
          \/ \E o \in {"fold", "foldfirst", "foreach", "sum", "max", "min", "viait"}, q \in Pan : Step(o, <<i>>, <<>>, q)
          \/ \E o \in {"clone"}, q \in Pan : Keep(o, <<i>>, <<"c">>, q)
          \/ \E o \in {"iszero", "mutate", "fmt"}, q \in {0, 1, 2} \intersect Pan : Keep(o, <<i>>, <<>>, q)
          \/ \E o \in {"arr", "conv", "tuple"} : Step(o, <<i>>, <<"c">>, 0)
          \/ Step("tr", <<i>>, <<"t">>, 0)
          \/ Step("it", <<i>>, <<"i">>, 0)
          \/ Step("drop", <<i>>, <<>>, 0)
          \/ Keep("view", <<i>>, <<>>, 0)
     \/ \E i, j \in Is("c") : i # j /\
          \/ Step("zip", <<i, j>>, <<"p">>, 0)
          \/ \E o \in {"add", "sub", "mul", "div", "rem", "and", "or", "xor", "divfloor", "modfloor"}, q \in Pan : Step(o, <<i, j>>, <<"c">>, q)
          \/ \E q \in Pan : Step("divmod", <<i, j>>, <<"c", "c">>, q)
          \/ \E o \in {"dot", "veq", "vlt"}, q \in Pan : Step(o, <<i, j>>, <<>>, q)
          \/ \E o \in {"sumiter", "prod"}, q \in Pan : Step(o, <<i, j>>, <<"c">>, q)
          \/ \E o \in {"add=", "sub=", "mul=", "div=", "rem=", "and=", "or=", "xor="}, q \in Pan :
               /\ hist' = Append(hist, <<o, <<i, j>>, q>>)
               /\ slot' = [slot EXCEPT ![j] = "x"]
          \/ Keep("eq", <<i, j>>, <<>>, 0)
     \/ \E i \in Is("t") : Step("trback", <<i>>, <<"c">>, 0) \/ Step("drop", <<i>>, <<>>, 0)
     \/ \E i \in Is("p") : Step("unzip", <<i>>, <<"c", "c">>, 0) \/ Step("drop", <<i>>, <<>>, 0)
                           \/ \E q \in Pan : Step("mappair", <<i>>, <<"c">>, q)
     \/ \E i \in Is("i") : Keep("next", <<i>>, <<>>, 0) \/ Keep("nth", <<i>>, <<>>, 0) \/ Step("drop", <<i>>, <<>>, 0)
                           \/ Step("rest", <<i>>, <<>>, 0) \/ Step("recollect", <<i>>, <<>>, 0)
Init == slot = <<"c", "c">> /\ hist = <<>> /\ fin = FALSE
Next == \/ Len(hist) < Depth /\ Act /\ UNCHANGED fin
        \/ Len(hist) = Depth /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<slot, hist>>
Spec == Init /\ [][Next]_<<slot, hist, fin>>
Emit == ~fin \/ PrintT("SCENARIO " \o ToJson(hist))
=============================================================================
