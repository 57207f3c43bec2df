------------------------------- MODULE MC_C13 -------------------------------
(* C13 on the specification: an action writes only the outputs it declares,  *)
(* keeps the border it declares, and one input cell influences only cells    *)
(* within the stencil radius.                                                *)
EXTENDS EffLaw
CONSTANT Deep
VARIABLES ph, s, o, q, j
vars == <<ph, s, o, q, j>>
Init == ph = 0 /\ s \in Shapes /\ o \in OpsOf(Len(s)) /\ q = 0 /\ j = 0
Next == ph = 0 /\ ph' = 1 /\ q' \in 1..(IF Deep THEN 3 ELSE 1) /\ UNCHANGED <<s, o>>
        /\ j' \in {x \in 1..Cells(s) : x % (IF Deep THEN 3 ELSE 11) = 1}
Spec == Init /\ [][Next]_vars
Near(G, i, k, r) == \A a \in 1..G.d : Abs(Coord(G.sh, i, a) - Coord(G.sh, k, a)) <= r
LawsG(G) == ph = 1 => LET
  D == Decl(o, G.d)
  mem == Start(G, o, q)
  e == Effect(G, Ev(o, G.d, 1), mem)
  Declared == DOMAIN e.w = D.outs /\ e.scr = D.scr
  Border == D.border > 0 => \A r \in D.outs : \A i \in 1..Len(e.w[r]) :
     Inside(G.sh, D.border, ((i - 1) % G.n) + 1) \/ e.w[r][i] = mem[r][i]
  m == IF o \in {"brink", "brink_v", "brinkfix", "brinkfix_v"} THEN 4 ELSE MulOf(o)
  Local == \A r \in Inputs(o, G.d) \ {"chi"} :
     LET m2 == [mem EXCEPT ![r] = TLCEval([i \in 1..Len(mem[r]) |-> mem[r][i] + (IF ((i - 1) % G.n) + 1 = j THEN m ELSE 0)])]
         e2 == Effect(G, Ev(o, G.d, 1), m2)
     IN \A x \in D.outs : \A i \in 1..Len(e.w[x]) :
          Near(G, ((i - 1) % G.n) + 1, j, D.rad) \/ e2.w[x][i] = e.w[x][i]
  IN Declared /\ Border /\ Local
Laws == LawsG(Gr[s])
=============================================================================
