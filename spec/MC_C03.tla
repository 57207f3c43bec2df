------------------------------- MODULE MC_C03 -------------------------------
(* Laws of curl and divergence (C03). *)
EXTENDS LawBase
CONSTANT Deep
Shapes == {<<5, 5, 5>>, <<5, 6>>}
Gr == TLCEval([sh \in Shapes |-> MkGrid(sh)])
VARIABLES ph, s, i, j, a, b
vars == <<ph, s, i, j, a, b>>
N == Len(s) * Cells(s)
Init == ph = 0 /\ s \in Shapes /\ i = 1 /\ j = 1 /\ a = 0 /\ b = 0
\* dense fields, impulses, pairs of impulses
Next == \/ ph = 0 /\ ph' = 1 /\ i' \in 1..(IF Deep THEN 60 ELSE 30) /\ UNCHANGED <<s, j, a, b>>
        \/ Deep /\ ph = 0 /\ ph' = 2 /\ i' \in 1..N /\ a' = 1 /\ UNCHANGED <<s, j, b>>
        \/ /\ Deep /\ ph = 2 /\ ph' = 3 /\ b' = -3 /\ UNCHANGED <<s, i, a>>
           /\ j' \in {k \in 1..N : k \in {i + Cells(s) + 1, i + Stride(s, 1)}}
Spec == Init /\ [][Next]_vars
Grad(G, g) == ByComp(G, LAMBDA c : Mk(G, LAMBDA k : IF G.in1[k] THEN D0(G, g, c, k) ELSE 0))
Seven == TLCEval([k \in 1..N |-> 7])
Laws3G(G) == ph > 0 /\ G.d = 3 => LET
  v == IF ph = 1 THEN Dense(N, i, 9) ELSE Impulses(N, i, a, j, b)
  f == Comp(G, v, 1)
  w == Curl3(G, Seven, v, 1, TRUE)
  e == Curl3(G, Seven, v, 1, FALSE)
  dw == Div(G, Const(G, 0), w, 2, TRUE)
  cg == Curl3(G, Seven, Grad(G, f), 1, TRUE)
  IN \A k \in 1..G.n :
      /\ G.in2[k] => dw[k] = 0 /\ \A c \in 0..2 : cg[c * G.n + k] = 0
      /\ \A c \in 0..2 : LET q == c * G.n + k IN
           IF G.in1[k] THEN e[q] = w[q] ELSE w[q] = 0 /\ e[q] = 7
Rotation3G(G) == G.d = 3 /\ ph = 0 =>   \* rigid rotation about z
  LET u == ScaleSeq(-1, CoordField(G, 2)) \o CoordField(G, 1) \o Const(G, 0)
      w == Curl3(G, Seven, u, 1, TRUE)
      d == Div(G, Const(G, 0), CoordField(G, 1) \o CoordField(G, 2) \o CoordField(G, 3), 2, TRUE)
  IN \A k \in 1..G.n : G.in1[k] => w[k] = 0 /\ w[G.n + k] = 0 /\ w[2 * G.n + k] = 4 /\ d[k] = 6
Laws2G(G) == ph > 0 /\ G.d = 2 => LET
  v == IF ph = 1 THEN Dense(N, i, 9) ELSE Impulses(N, i, a, j, b)
  f == Comp(G, v, 1)
  w == CurlOut(G, Seven, f, 1, TRUE)
  e == CurlOut(G, Seven, f, 1, FALSE)
  cg == CurlIn(G, Const(G, 3), Grad(G, f), 1)
  ci == CurlIn(G, Const(G, 3), v, 1)
  w1 == Comp(G, w, 1)
  w2 == Comp(G, w, 2)
  IN \A k \in 1..G.n :
       /\ G.in2[k] => cg[k] = 0 /\ D0(G, w1, 1, k) + D0(G, w2, 2, k) = 0
       /\ IF G.in1[k] THEN e[k] = w[k] /\ e[G.n + k] = w[G.n + k]
          ELSE ci[k] = 3 /\ w[k] = 0 /\ w[G.n + k] = 0 /\ e[k] = 7 /\ e[G.n + k] = 7
Rotation2G(G) == G.d = 2 /\ ph = 0 =>
  LET w == CurlIn(G, Const(G, 0), ScaleSeq(-1, CoordField(G, 2)) \o CoordField(G, 1), 1)
  IN \A k \in 1..G.n : G.in1[k] => w[k] = 4
Laws3 == Laws3G(Gr[s])
Laws2 == Laws2G(Gr[s])
Rotation3 == Rotation3G(Gr[s])
Rotation2 == Rotation2G(Gr[s])
=============================================================================
