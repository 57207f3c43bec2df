------------------------------- MODULE MC_C15 -------------------------------
(* C15 on the specification: contents of scratch fields have no influence,   *)
(* an action with separate output repeated on the same inputs writes the     *)
(* same again, and actions on disjoint fields commute.                       *)
EXTENDS EffLaw
CONSTANT Deep
VARIABLES ph, s, o, o2, q
vars == <<ph, s, o, o2, q>>
Init == ph = 0 /\ s \in Shapes /\ o \in OpsOf(Len(s)) /\ o2 = o /\ q = 0
Next == ph = 0 /\ ph' = 1 /\ q' \in 1..(IF Deep THEN 3 ELSE 1) /\ o2' \in OpsOf(Len(s)) /\ UNCHANGED <<s, o>>
Spec == Init /\ [][Next]_vars
Accumulates(op) == op \in {"adv_flux"}
Pre(x) == [r \in DOMAIN x |-> "b_" \o x[r]]
LawsG(G) == ph = 1 => LET
  D == Decl(o, G.d)
  mem == Start(G, o, q)
  ev == Ev(o, G.d, 1)
  e == Effect(G, ev, mem)
  m2 == [r \in DOMAIN mem |-> IF r \in D.scr THEN ScaleSeq(1, Dense(Len(mem[r]), q + 99, 1000)) ELSE mem[r]]
  ScratchFree == Effect(G, ev, m2).w = e.w
  Apply(m, f) == [r \in DOMAIN m |-> IF r \in DOMAIN f.w THEN f.w[r] ELSE m[r]]
  Again == D.outs = {"out"} /\ ~Accumulates(o) => Effect(G, ev, Apply(mem, e)).w = e.w
  \* a second operation on its own fields b_...
  evB == LET x == Ev(o2, G.d, 1) IN [x EXCEPT !.a = Pre(x.a)]
  memB == LET y == Start(G, o2, q + 3) IN [r \in {"b_" \o z : z \in DOMAIN y} |-> y[CHOOSE z \in DOMAIN y : "b_" \o z = r]]
  all == mem @@ memB
  AB == Apply(Apply(all, Effect(G, ev, all)), Effect(G, evB, Apply(all, Effect(G, ev, all))))
  BA == Apply(Apply(all, Effect(G, evB, all)), Effect(G, ev, Apply(all, Effect(G, evB, all))))
  IN ScratchFree /\ Again /\ AB = BA
Laws == LawsG(Gr[s])
=============================================================================
