------------------------------- MODULE MC_C01 -------------------------------
(* Laws of the diffusion operators (C01). *)
EXTENDS LawBase
CONSTANT Deep
Shapes == {<<3, 3>>, <<5, 4>>, <<5, 5>>, <<3, 4, 3>>, <<4, 3, 5>>}
Gr == TLCEval([sh \in Shapes |-> MkGrid(sh)])
VARIABLES ph, s, i, j, a, b, p
vars == <<ph, s, i, j, a, b, p>>
Init == ph = 0 /\ s \in Shapes /\ i = 0 /\ j = 0 /\ a = 0 /\ b = 0 /\ p = 1
\* dense fields; impulses; sums of two impulses
Next == \/ ph = 0 /\ ph' = 1 /\ i' \in 1..(IF Deep THEN 40 ELSE 12) /\ p' \in {1, -2} /\ UNCHANGED <<s, j, a, b>>
        \/ /\ ph = 0 /\ ph' = 2 /\ i' \in 1..Cells(s) /\ a' \in (IF Deep THEN {1, -3} ELSE {1})
           /\ UNCHANGED <<s, p, j, b>>
        \/ /\ Deep /\ ph = 2 /\ ph' = 3 /\ UNCHANGED <<s, i, a, p>> /\ b' \in {1, 5}
           /\ j' \in {k \in 1..Cells(s) : k > i /\ k <= i + Stride(s, 1)}
Spec == Init /\ [][Next]_vars
LawsG(G) == LET
  f == IF ph = 1 THEN Dense(G.n, i, 6) ELSE Impulses(G.n, i, a, j, b)
  junk == Mk(G, LAMBDA k : 100 + k)
  F == DiffFlux(G, junk, f, p, TRUE)
  E == DiffFlux(G, junk, f, p, FALSE)
  T == DiffStep(G, f, p)
  GhostLaw == \A k \in 1..G.n : IF G.in1[k] THEN E[k] = F[k]
                                 ELSE F[k] = 0 /\ E[k] = junk[k] /\ T[k] = f[k]
  StepIsFlux == T = PlusSeq(f, F)
  \* what leaves one cell enters its neighbours
  Conservative == ph = 2 /\ G.in2[i] => SumSeq(F) = 0
  Symmetric == \A ax \in Axes(s) :
     DiffFlux(G, junk, MirrorField(G, f, ax), p, TRUE) = MirrorField(G, F, ax)
  Isotropic == ph = 2 /\ G.in1[i] =>
     \A ax \in Axes(s) : LET q == i + Stride(s, ax) IN G.in1[q] => F[q] = p * a
  IN ph > 0 => GhostLaw /\ StepIsFlux /\ Conservative /\ Symmetric /\ Isotropic
\* constant and linear fields have no flux
NoFluxG(G) == ph = 0 => \A c \in {1, -7} :
   LET g == Mk(G, LAMBDA k : c * (5 + Coord(s, k, 1) - 2 * Coord(s, k, 2))) IN
   /\ DiffStep(G, g, 3) = g
   /\ DiffStep(G, Const(G, c), 3) = Const(G, c)
Laws == LawsG(Gr[s])
NoFlux == NoFluxG(Gr[s])
=============================================================================
