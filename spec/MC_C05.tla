------------------------------- MODULE MC_C05 -------------------------------
(* Laws of vortex stretching (C05). *)
EXTENDS LawBase
CONSTANT Deep
S == <<4, 3, 4>>
Gr == TLCEval([x \in {1} |-> MkGrid(S)])
VARIABLES ph, i, j, a, b, m
vars == <<ph, i, j, a, b, m>>
Init == /\ ph = 0 /\ i = 1 /\ j = 1 /\ a = 0 /\ b = 0
        /\ m \in {<<1, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 2, 0, 0, 1, -1, 2, 0, 1>>, <<0, 0, 3, 1, 0, 0, 0, -2, 0>>}
Next == \/ ph = 0 /\ ph' = 1 /\ i' \in 1..(IF Deep THEN 40 ELSE 10) /\ UNCHANGED <<j, a, b, m>>
        \/ Deep /\ ph = 0 /\ ph' = 2 /\ i' \in 1..(3 * Cells(S)) /\ a' = 1 /\ UNCHANGED <<j, b, m>>
        \/ /\ Deep /\ ph = 2 /\ ph' = 3 /\ b' = -2 /\ UNCHANGED <<i, a, m>>
           /\ j' \in {k \in 1..(3 * Cells(S)) : k \in {i + Cells(S) + 1, i + 1}}
Spec == Init /\ [][Next]_vars
LawsG(G, N) == ph > 0 => LET
  w == ScaleSeq(12, IF ph = 1 THEN Dense(N, i, 3) ELSE Impulses(N, i, a, j, b))
  \* linear velocity u_c = m[c,1] x + m[c,2] y + m[c,3] z
  u == ByComp(G, LAMBDA c : Mk(G, LAMBDA k :
         m[3 * c - 2] * Coord(S, k, 3) + m[3 * c - 1] * Coord(S, k, 2) + m[3 * c] * Coord(S, k, 1)))
  F1 == Stretch(G, w, u, 1)
  F2 == Stretch(G, F1, u, 1)
  F3 == Stretch(G, F2, u, 1)
  R == SSPRK3(G, w, u, 1, FALSE)
  FullGradient == \A k \in 1..G.n : \A c \in 1..3 :
     F1[(c - 1) * G.n + k] =
       IF G.in1[k] THEN 2 * (m[3*c-2] * w[k] + m[3*c-1] * w[G.n + k] + m[3*c] * w[2 * G.n + k]) ELSE 0
  UniformFlow == Stretch(G, w, TLCEval([k \in 1..N |-> 1 + (k - 1) \div G.n]), 1) = [k \in 1..N |-> 0]
  EulerAddsFlux == StretchStep(G, w, u, 2) = LinSeq(1, w, 2, F1)
  \* the three stages give the third order expansion of the exponential
  Third == ScaleSeq(6, R) = TLCEval([k \in 1..N |-> 6 * w[k] + 6 * F1[k] + 3 * F2[k] + F3[k]])
  \* the half third stage is a different scheme whenever anything is stretched
  HalfDiffers == F1 = [k \in 1..N |-> 0] \/ SSPRK3(G, w, u, 1, TRUE) # R
  IN FullGradient /\ UniformFlow /\ EulerAddsFlux /\ Third /\ HalfDiffers
Laws == LawsG(Gr[1], 3 * Cells(S))
=============================================================================
