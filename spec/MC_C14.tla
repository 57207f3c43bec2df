------------------------------- MODULE MC_C14 -------------------------------
(* C14 on the specification: no action has an absolute threshold or an       *)
(* additive constant, so scaling the transported quantity scales the result, *)
(* and (for the pure functions) reflecting the prefactor reflects it.        *)
EXTENDS EffLaw
CONSTANT Deep
VARIABLES ph, s, o, q, c
vars == <<ph, s, o, q, c>>
Init == ph = 0 /\ s \in Shapes /\ o \in OpsOf(Len(s)) /\ q = 0 /\ c = 1
Next == ph = 0 /\ ph' = 1 /\ q' \in 1..(IF Deep THEN 15 ELSE 2) /\ c' \in {-1, 2, 3} /\ UNCHANGED <<s, o>>
Spec == Init /\ [][Next]_vars
\* the roles that carry the transported quantity
Scaled(op, d) == Inputs(op, d) \ (
   (IF op \in {"adv_flux", "adv_step", "adv_step_v", "stretch_flux", "stretch_euler", "stretch_rk3"} THEN {"v"} ELSE {})
   \cup (IF op \in {"cprod", "cross"} THEN {"g"} ELSE {}) \cup {"chi"})
Mag(op) == IF op \in {"pen_bound", "pen_bound_v"} THEN 4 ELSE 0
LawsG(G) == ph = 1 => LET
  mem == Start(G, o, q)
  m2 == [r \in DOMAIN mem |-> IF r \in Scaled(o, G.d) THEN ScaleSeq(c, mem[r]) ELSE mem[r]]
  e == Effect(G, Ev(o, G.d, 1), mem)
  e2 == Effect(G, Ev(o, G.d, c), m2)
  IN \A x \in DOMAIN e.w : \A i \in 1..Len(e.w[x]) : Abs(e2.w[x][i] - c * e.w[x][i]) <= Mag(o) * Abs(c)
Laws == LawsG(Gr[s])
=============================================================================
