------------------------------- MODULE MC_C20 -------------------------------
(***************************************************************************)
(* Laws of interpolation and spreading of IB, for arbitrary weights:       *)
(* transposes of each other, totals conserved, independent of the order of *)
(* the nodes, additive (one node after the other), local.                  *)
(***************************************************************************)
EXTENDS IB
CONSTANT Deep
Shapes == {<<4, 5>>, <<6, 4>>, <<4, 4, 5>>}
Gr == TLCEval([s \in Shapes |-> MkGrid(s)])
VARIABLES s, b1, b2, q
vars == <<s, b1, b2, q>>
Bs(sh) == {b \in [1..Len(sh) -> 1..3] : Fits(Gr[sh], b)}
Init == s \in Shapes /\ b1 \in Bs(s) /\ b2 \in Bs(s) /\ q = 0
Next == q = 0 /\ q' \in 1..(IF Deep THEN 12 ELSE 3) /\ UNCHANGED <<s, b1, b2>>
Spec == Init /\ [][Next]_vars
Ps(n, z, r) == TLCEval([k \in 1..n |-> (((k * k * z + 11 * k + 5 * z) % 23) % (2 * r + 1)) - r])
Dot(x, y) == SumSeq([i \in 1..Len(x) |-> x[i] * y[i]])
LawsG(G) == LET
   e == Ps(G.n, q, 7)  z == Const(G, 0)
   w1 == Ps(NSup(G.d), q + 3, 4)  w2 == Ps(NSup(G.d), q + 8, 4)
   f == <<3 * q - 5, 7 - 2 * q>>
   sp == Scatter(G, z, <<b1, b2>>, <<w1, w2>>, f, Times)
   g1 == Gather(G, e, b1, w1, Times)  g2 == Gather(G, e, b2, w2, Times)
   IN /\ Dot(sp, e) = f[1] * g1 + f[2] * g2
      /\ SumSeq(sp) = f[1] * SumSeq(w1) + f[2] * SumSeq(w2)
      /\ sp = Scatter(G, z, <<b2, b1>>, <<w2, w1>>, <<f[2], f[1]>>, Times)
      /\ Scatter(G, e, <<b1, b2>>, <<w1, w2>>, f, Times) = TLCEval([i \in 1..G.n |-> e[i] + sp[i]])
      /\ Scatter(G, Scatter(G, e, <<b1>>, <<w1>>, <<f[1]>>, Times), <<b2>>, <<w2>>, <<f[2]>>, Times)
         = TLCEval([i \in 1..G.n |-> e[i] + sp[i]])
      /\ \A i \in 1..G.n : (\A c \in 1..G.d : LET x == Coord(s, i, G.d + 1 - c) IN x < b1[c] - 1 \/ x > b1[c] + 2)
            => Scatter(G, z, <<b1>>, <<w1>>, <<f[1]>>, Times)[i] = 0 \/ FALSE
      /\ b1 = b2 => sp = Scatter(G, z, <<b1>>, <<[o \in 1..NSup(G.d) |-> f[1] * w1[o] + f[2] * w2[o]]>>, <<1>>, Times)
Laws == q > 0 => LawsG(Gr[s])
=============================================================================
