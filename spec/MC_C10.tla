------------------------------- MODULE MC_C10 -------------------------------
(* Laws of the Laplacian filter (C10).                                      *)
EXTENDS LawBase
CONSTANT Deep
Shapes == {<<3, 4, 5>>, <<5, 5, 5>>} \cup (IF Deep THEN {<<7, 5, 6>>, <<3, 3, 3>>} ELSE {})
Gr == TLCEval([sh \in Shapes |-> MkGrid(sh)])
VARIABLES ph, s, q, k
vars == <<ph, s, q, k>>
Init == ph = 0 /\ s \in Shapes /\ q = 0 /\ k \in 0..2
Next == ph = 0 /\ ph' = 1 /\ q' \in 1..(IF Deep THEN 20 ELSE 3) /\ UNCHANGED <<s, k>>
Spec == Init /\ [][Next]_vars
Types == {"multiplicative", "convolution"}
LawsG(G) == ph = 1 => LET
  m == 4 ^ (3 * k)
  f == ScaleSeq(m, Dense(G.n, q, 4))
  g == ScaleSeq(m, Dense(G.n, q + 3, 4))
  Ring == \A ty \in Types : LET r == Filter(G, f, k, ty) IN \A i \in 1..G.n : G.in1[i] \/ r[i] = f[i]
  Linear == \A ty \in Types : Filter(G, LinSeq(2, f, -1, g), k, ty) = LinSeq(2, Filter(G, f, k, ty), -1, Filter(G, g, k, ty))
  OrderZero == \A ty \in Types : Filter(G, f, 0, ty) = f
  \* fields that are linear along one axis are not changed by that axis, and
  \* the multiplicative filter changes no field linear along some axis
  lin == Mk(G, LAMBDA i : m * (2 * Coord(G.sh, i, 1) - 3 * Coord(G.sh, i, 2) + Coord(G.sh, i, 3)))
  LinearKept == k = 1 => \A c \in 1..3 : FilterDir(G, lin, c, 1) = lin
  ConstKept == \A ty \in Types : Filter(G, Const(G, m), 1, ty) = Const(G, m)
  Symmetric == k = 1 => \A a \in 1..3 : FilterMul(G, MirrorField(G, f, a), k) = MirrorField(G, FilterMul(G, f, k), a)
  \* the operators of different axes commute inside
  Commute == k = 1 => LET x == FilterDir(G, FilterDir(G, f, 1, 1), 2, 1) y == FilterDir(G, FilterDir(G, f, 2, 1), 1, 1)
             IN \A i \in 1..G.n : G.in2[i] => x[i] = y[i]
  \* the shortest wave is removed: 1 - hat has eigenvalue 0 on it, away from the ring
  wave == Mk(G, LAMBDA i : m * (1 - 2 * (Coord(G.sh, i, 3) % 2)))
  Kills == k = 1 => LET r == FilterDir(G, wave, 1, 1) IN \A i \in 1..G.n : G.in1[i] => r[i] = 0
  IN Ring /\ Linear /\ OrderZero /\ LinearKept /\ ConstKept /\ Symmetric /\ Commute /\ Kills
Laws == LawsG(Gr[s])
=============================================================================
