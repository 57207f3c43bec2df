------------------------------- MODULE MC_C02 -------------------------------
(* Laws of the ENO3 advection operator (C02) on a row of cells. *)
EXTENDS LawBase
CONSTANT Deep
VVals == IF Deep THEN {-1, 0, 1, 2} ELSE {-1, 0, 2}
S1 == <<5, 7>>
Gr == TLCEval([sh \in {S1, <<7, 5>>} |-> MkGrid(sh)])
Rows == TLCEval([q \in 1..40 |-> LET d == Dense(7, q, 4) IN [x \in 0..6 |-> d[x + 1]]])
VARIABLES ph, s, c, q, v3
vars == <<ph, s, c, q, v3>>
\* values along the axis of component c, constant across
Init == /\ ph = 0 /\ c \in {1, 2} /\ s = IF c = 1 THEN S1 ELSE <<7, 5>>
        /\ q = 0 /\ v3 \in [{1, 2, 3} -> VVals]
Next == ph = 0 /\ ph' = 1 /\ q' \in 1..(IF Deep THEN 40 ELSE 6) /\ UNCHANGED <<s, c, v3>>
Spec == Init /\ [][Next]_vars
LawsG(G, f7, ax) == ph = 1 => LET
  X(k) == Coord(G.sh, k, ax)
  Fv(w) == IF c = 1 THEN w \o Const(G, 0) ELSE Const(G, 0) \o w
  fld == Mk(G, LAMBDA k : 6 * f7[X(k)])
  vA == Mk(G, LAMBDA k : v3[1 + (X(k) % 3)])
  v == Fv(vA)
  zero == Const(G, 0)
  Out == AdvFlux(G, zero, fld, v, 1)
  Line == {k \in 1..G.n : G.in2[k]}
  row == {k \in Line : \A e \in Axes(s) : e # ax => Coord(s, k, e) = 2}
  lo == CHOOSE k \in row : X(k) = 2
  hi == CHOOSE k \in row : X(k) = s[ax] - 3
  Face(k) == Face6(fld, vA, SC(G, c), k) \div 6
  \* the sum over a row of cells telescopes to the two outermost faces
  Telescopes == SumOver(row, LAMBDA k : Out[k]) = Face(hi) - Face(lo - SC(G, c))
  NothingNearBoundary == \A k \in 1..G.n : G.in2[k] \/ Out[k] = 0
  \* mirroring space and velocity gives minus the mirrored flux
  NoTies == \A x, y \in {1, 2, 3} : v3[x] + v3[y] # 0
  MirrorLaw == NoTies =>
     AdvFlux(G, zero, MirrorField(G, fld, ax), Fv(ScaleSeq(-1, MirrorField(G, vA, ax))), 1)
     = MirrorField(G, Out, ax)
  StepLaw == AdvStep(G, fld, v, 2) = LinSeq(1, fld, -2, Out)
  \* with positive velocity nothing upstream depends on the last cell
  Upwind == (\A x \in {1, 2, 3} : v3[x] > 0) =>
     AdvFlux(G, zero, Mk(G, LAMBDA k : IF X(k) = s[ax] - 1 THEN 600 ELSE fld[k]), v, 1) = Out
  \* constant velocity, quadratic field: the derivative is exact
  qf == Mk(G, LAMBDA k : 6 * (f7[0] * X(k) * X(k) + f7[1] * X(k)))
  o == AdvFlux(G, zero, qf, Fv(Const(G, v3[1])), 1)
  Poly == \A k \in Line : o[k] = 6 * v3[1] * (2 * f7[0] * X(k) + f7[1])
  IN Telescopes /\ NothingNearBoundary /\ MirrorLaw /\ StepLaw /\ Upwind /\ Poly
Laws == LawsG(Gr[s], Rows[Max(q, 1)], AxisOf(s, c))
=============================================================================
