------------------------------- MODULE MC_C08 -------------------------------
(* Laws of the boundary penalisation (C08).                                 *)
EXTENDS LawBase
CONSTANT Deep
Shapes == {<<6, 7>>, <<8, 8>>, <<4, 5, 6>>, <<6, 6, 6>>} \cup (IF Deep THEN {<<12, 13>>, <<3, 3>>, <<7, 6, 9>>} ELSE {})
Gr == TLCEval([sh \in Shapes |-> MkGrid(sh)])
VARIABLES ph, s, w, q
vars == <<ph, s, w, q>>
MinOf(sh) == CHOOSE m \in {sh[a] : a \in 1..Len(sh)} : \A a \in 1..Len(sh) : m <= sh[a]
Init == ph = 0 /\ s \in Shapes /\ w \in {x \in 0..6 : 2 * x <= MinOf(s)} /\ q = 0
Next == ph = 0 /\ ph' = 1 /\ q' \in 1..(IF Deep THEN 12 ELSE 3) /\ UNCHANGED <<s, w>>
Spec == Init /\ [][Next]_vars
LawsG(G) == ph = 1 => LET
  f == ScaleSeq(1000000, Dense(G.n, q, 9))
  P == PenBound(G, f, w)
  InnerKept == \A i \in 1..G.n : Inside(G.sh, w, i) => P[i] = f[i]
  \* the outermost cells are zero for every positive width
  OuterZero == w > 0 => \A i \in 1..G.n : ~Inside(G.sh, 1, i) => P[i] = 0
  NoWidth == w = 0 => P = f
  \* the zone only depends on the cells just inside of it
  g == Mk(G, LAMBDA i : IF w > 0 /\ ~Inside(G.sh, w - 1, i) THEN 12345 ELSE f[i])
  ZoneForgotten == PenBound(G, g, w) = P
  Symmetric == \A a \in Axes(G.sh) : PenBound(G, MirrorField(G, f, a), w) = MirrorField(G, P, a)
  Odd == PenBound(G, ScaleSeq(-1, f), w) = ScaleSeq(-1, P)
  \* a constant field decays monotonically towards every wall
  C == PenBound(G, Const(G, 1000000), w)
  Decays == \A a \in Axes(G.sh) : \A i \in 1..G.n :
     Coord(G.sh, i, a) > 0 /\ Coord(G.sh, i, a) <= (G.sh[a] - 1) \div 2 => C[i - Stride(G.sh, a)] <= C[i]
  Bounded == \A i \in 1..G.n : C[i] >= 0 /\ C[i] <= 1000000
  IN InnerKept /\ OuterZero /\ NoWidth /\ ZoneForgotten /\ Symmetric /\ Odd /\ Decays /\ Bounded
Laws == LawsG(Gr[s])
=============================================================================
