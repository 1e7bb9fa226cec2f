------------------------------- MODULE Vecmat -------------------------------
(* The system: registers holding vecmat values, and one action per public     *)
(* call.  An action e = [op |-> <<group, name>>, k, s, d, r, ok] reads the     *)
(* registers s and leaves r in register d (ok), or panics (~ok).  Calls of     *)
(* some groups also change what their first operand register holds.           *)
EXTENDS Elem, Func, Prod, Reduce, Mobius, Seqs, Store, Sampler, Format, Near, Prim, CFunc

Panics(L, g, o, k, a) ==
  CASE g = "e" -> ElemPanics(L, o, k, a)
    [] g = "l" -> ProdPanics(L, o, k, a)
    [] g = "p" -> PrimPanics(L, o, k, a)
    [] g \in {"v", "w"} -> StorePanics(L, o, k, a)
    [] OTHER -> FALSE
\* calls that may panic: they combine the elements of something without elements (C20)
MayPanic(L, g, o, k, a) ==
  CASE g = "r" -> ReduceMayPanic(L, o, k, a)
    [] g = "l" -> ProdMayPanic(L, o, k, a)
    [] g = "t" -> SeqMayPanic(L, o, k, a)
    [] OTHER -> FALSE
Post(L, g, o, k, a, r) ==
  CASE g = "e" -> ElemPost(L, o, k, a, r)
    [] g = "l" -> ProdPost(L, o, k, a, r)
    [] g = "r" -> ReducePost(L, o, k, a, r)
    [] g = "h" -> HyperPost(L, o, k, a, r)
    [] g = "x" -> XformPost(L, o, k, a, r)
    [] g = "m" -> MoPost(L, o, k, a, r)
    [] g = "t" -> SeqPost(L, o, k, a, r)
    [] g = "n" -> NPost(L, o, k, a, r)
    [] g = "f" -> FuncPost(L, o, k, a, r)
    [] g = "i" -> InterpPost(L, o, k, a, r)
    [] g = "d" -> DrawPost(L, o, k, a, r)
    [] g = "s" -> StatPost(L, o, k, a, r)
    [] g = "y" -> TextPost(L, o, k, a, r)
    [] g = "a" -> NearPost(L, o, k, a, r)
    [] g = "p" -> PrimPost(L, o, k, a, r)
    [] g = "z" -> CFuncPost(L, o, k, a, r)
    [] g = "v" -> ViewPost(L, o, k, a, r)
    [] g = "w" -> WritePost(L, o, k, a, r)

Admits(L, reg, e) ==
  e.op[1] = "load" \/
  LET a == [i \in DOMAIN e.s |-> reg[e.s[i]]]
      must == Panics(L, e.op[1], e.op[2], e.k, a)
  IN IF e.ok THEN ~must /\ Post(L, e.op[1], e.op[2], e.k, a, e.r)
     ELSE must \/ MayPanic(L, e.op[1], e.op[2], e.k, a)
Changes == {"n", "w"}
Effect(L, g, o, k, a) == IF g = "n" THEN NEffect(L, o, k, a) ELSE WriteEffect(L, o, k, a)
Apply(L, reg, e) ==
  LET reg1 == IF e.d > Len(reg) THEN Append(reg, e.r) ELSE [reg EXCEPT ![e.d] = e.r]
  IN IF e.op[1] \in Changes /\ e.ok
     THEN [reg1 EXCEPT ![e.s[1]] = Effect(L, e.op[1], e.op[2], e.k, [i \in DOMAIN e.s |-> reg[e.s[i]]])]
     ELSE reg1
=============================================================================
