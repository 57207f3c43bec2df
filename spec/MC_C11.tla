------------------------------- MODULE MC_C11 -------------------------------
(* C11 on the specification: the vector action is the scalar action applied *)
(* to each component in turn, with the shared arguments unchanged.          *)
EXTENDS LawBase
CONSTANT Deep
Shapes == {<<5, 6>>, <<5, 6, 5>>}
Gr == TLCEval([sh \in Shapes |-> MkGrid(sh)])
Pairs == << <<"diff_flux", {3}>>, <<"diff_step", {3}>>, <<"adv_step", {3}>>, <<"brink", {2, 3}>>, <<"brinkfix", {2}>>,
            <<"sum", {2, 3}>>, <<"saxpby", {2, 3}>>, <<"set", {2, 3}>>, <<"add", {2, 3}>>, <<"ring", {2, 3}>>,
            <<"filter", {3}>>, <<"pen_bound", {3}>> >>
VARIABLES ph, s, o, q
vars == <<ph, s, o, q>>
Init == ph = 0 /\ s \in Shapes /\ o \in {x \in 1..Len(Pairs) : Len(s) \in Pairs[x][2]} /\ q = 0
Next == ph = 0 /\ ph' = 1 /\ q' \in 1..(IF Deep THEN 12 ELSE 3) /\ UNCHANGED <<s, o>>
Spec == Init /\ [][Next]_vars
Args(op) == CASE op \in {"diff_flux"} -> [out |-> "A", f |-> "B"]
              [] op \in {"diff_step", "filter"} -> [f |-> "A", scr |-> "S", mid |-> "M"]
              [] op = "adv_step" -> [f |-> "A", v |-> "V", scr |-> "S"]
              [] op = "brink" -> [out |-> "A", f |-> "B", chi |-> "K", t |-> "C"]
              [] op = "brinkfix" -> [out |-> "A", f |-> "B", chi |-> "K"]
              [] op \in {"sum", "saxpby"} -> [out |-> "A", f |-> "B", g |-> "C"]
              [] op = "add" -> [out |-> "A", f |-> "B"]
              [] op \in {"set", "ring"} -> [out |-> "A"]
              [] op = "pen_bound" -> [f |-> "A"]
LawsG(G, op) == ph = 1 => LET
  m == IF op = "filter" THEN 64 ELSE 6
  mem == [A |-> ScaleSeq(m, Dense(G.d * G.n, q, 9)), B |-> ScaleSeq(6, Dense(G.d * G.n, q + 1, 9)), C |-> Dense(G.d * G.n, q + 2, 9),
          V |-> Dense(G.d * G.n, q + 3, 2), K |-> TLCEval([i \in 1..G.n |-> i % 2]), S |-> Const(G, 5), M |-> Const(G, 6)]
  p == [k |-> 1, l |-> -2, reset |-> TRUE, val |-> <<3, -4, 5>>, width |-> 2, order |-> 1, type |-> "convolution", prec |-> 1000, big |-> 1]
  eff == Effect(G, [op |-> op \o "_v", a |-> Args(op), p |-> p], mem)
  One(c) == LET m1 == [b \in DOMAIN mem |-> IF b \in {"A", "B", "C"} THEN Comp(G, mem[b], c) ELSE mem[b]] IN
            Effect(G, [op |-> op, a |-> Args(op), p |-> [p EXCEPT !.val = <<p.val[c]>>]], m1).w["A"]
  IN eff.w["A"] = ByComp(G, One)
Laws == LawsG(Gr[s], Pairs[o][1])
=============================================================================
