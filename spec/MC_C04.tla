------------------------------- MODULE MC_C04 -------------------------------
(* Laws of the vorticity update (C04): forcing and penalised-velocity form *)
(* agree, increments add up, and nothing but the inner vorticity changes.  *)
EXTENDS LawBase
CONSTANT Deep
Shapes == {<<4, 5>>, <<3, 4, 5>>}
Gr == TLCEval([sh \in Shapes |-> MkGrid(sh)])
VARIABLES ph, s, i, j, a, b, w, n
vars == <<ph, s, i, j, a, b, w, n>>
N == Len(s) * Cells(s)
Force == IF b = 0 THEN Dense(N, i, 9) ELSE Impulses(N, i, a, j, b)
VF(G, x, g, p) == IF G.d = 2 THEN VortForce2(G, x, g, p) ELSE VortForce3(G, x, g, p)
W0 == TLCEval([t \in Shapes |-> [k \in 1..(IF Len(t) = 2 THEN 1 ELSE 8) * Cells(t) |-> 2 * k + 1]])
Init == ph = 0 /\ s \in Shapes /\ i = 1 /\ j = 1 /\ a = 0 /\ b = 0 /\ w = W0[s] /\ n = 0
\* choose the forcing, then apply it twice with prefactor 1 or 2, in either form
Next == \/ ph = 0 /\ ph' = 2 /\ i' \in 1..(IF Deep THEN 20 ELSE 8) /\ UNCHANGED <<s, j, a, b, w, n>>
        \/ /\ Deep /\ ph = 0 /\ ph' = 2 /\ i' \in 1..N /\ a' = 1 /\ b' = -3 /\ UNCHANGED <<s, w, n>>
           /\ j' \in {k \in 1..N : k \in {i', i' + Cells(s) + 1, i' + Stride(s, 1)}}
        \/ /\ ph \in {2, 3} /\ ph' = ph + 1
           /\ \E p \in {1, 2} : /\ n' = n + p
                               /\ LET g == Force v == ScaleSeq(5, g) IN
                                  \/ w' = VF(Gr[s], w, g, p)
                                  \/ w' = VF(Gr[s], w, MinusSeq(PlusSeq(g, v), v), p)
           /\ UNCHANGED <<s, i, j, a, b>>
Spec == Init /\ [][Next]_vars
\* both forms, and any order of updates, add up to n times the curl
AccumulatesG(G) == ph > 2 => w = VF(G, W0[s], Force, n)
RingKeptG(G) == ph > 2 => \A k \in 1..G.n : G.in1[k] \/
   \A c \in 0..((Len(w) \div G.n) - 1) : w[c * G.n + k] = W0[s][c * G.n + k]
Accumulates == AccumulatesG(Gr[s])
RingKept == RingKeptG(Gr[s])
=============================================================================
