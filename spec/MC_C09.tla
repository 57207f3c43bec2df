------------------------------- MODULE MC_C09 -------------------------------
(* Laws of the pointwise kernels and the boundary ring (C09).               *)
EXTENDS LawBase
CONSTANT Deep
Shapes == {<<4, 5>>, <<3, 4, 5>>} \cup (IF Deep THEN {<<7, 3>>, <<6, 8>>, <<5, 5, 5>>} ELSE {})
Gr == TLCEval([sh \in Shapes |-> MkGrid(sh)])
VARIABLES ph, s, q
vars == <<ph, s, q>>
Init == ph = 0 /\ s \in Shapes /\ q = 0
Next == ph = 0 /\ ph' = 1 /\ q' \in 1..(IF Deep THEN 40 ELSE 4) /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
RingCells(sh, w) == Cells(sh) - (IF \E a \in 1..Len(sh) : sh[a] <= 2 * w THEN 0
                                 ELSE IF Len(sh) = 2 THEN (sh[1] - 2*w) * (sh[2] - 2*w)
                                 ELSE (sh[1] - 2*w) * (sh[2] - 2*w) * (sh[3] - 2*w))
LawsG(G) == ph = 1 => LET
  N == G.n
  f == Dense(N, q, 9)
  a == Dense(2 * N, q, 9)  b == Dense(2 * N, q + 1, 9)  c == Dense(2 * N, q + 2, 9)
  Sums == LinSeq(1, a, 1, b) = SumK(a, b) /\ SumK(a, b) = SumK(b, a) /\ LinSeq(3, a, -3, a) = TLCEval([i \in 1..(2*N) |-> 0])
  Adds == \A v \in {-2, 0, 5} : AddK(AddK(f, v), -v) = f /\ AddK(f, v) = SumK(f, Const(G, v))
  \* complex product: commutative, associative, norm is multiplicative
  Cplx == /\ CProd(G, a, b) = CProd(G, b, a)
          /\ CProd(G, CProd(G, a, b), c) = CProd(G, a, CProd(G, b, c))
          /\ LET ab == CProd(G, a, b) IN \A i \in 1..N :
               ab[i] * ab[i] + ab[N+i] * ab[N+i] = (a[i] * a[i] + a[N+i] * a[N+i]) * (b[i] * b[i] + b[N+i] * b[N+i])
  u == Dense(3 * N, q, 5)  v == Dense(3 * N, q + 5, 5)
  X == Cross(G, u, v)
  CrossLaw == G.d = 3 =>
     /\ X = ScaleSeq(-1, Cross(G, v, u))
     /\ \A i \in 1..N : /\ X[i] * u[i] + X[N+i] * u[N+i] + X[2*N+i] * u[2*N+i] = 0
                        /\ X[i] * v[i] + X[N+i] * v[N+i] + X[2*N+i] * v[2*N+i] = 0
  CrossBasis == G.d = 3 =>   \* x cross y = z
     Cross(G, Const(G, 1) \o Const(G, 0) \o Const(G, 0), Const(G, 0) \o Const(G, 1) \o Const(G, 0))
       = Const(G, 0) \o Const(G, 0) \o Const(G, 1)
  Ring == \A w \in 1..3 : LET z == SetRing(G, Mk(G, LAMBDA i : 7), w, 99) IN
     /\ Cardinality({i \in 1..N : z[i] = 99}) = RingCells(G.sh, w)
     /\ SetRing(G, SetRing(G, f, w, 3), w, 99) = SetRing(G, f, w, 99)
     /\ w > 1 => SetRing(G, SetRing(G, f, w, 4), w - 1, 4) = SetRing(G, f, w, 4)
  IN Sums /\ Adds /\ Cplx /\ CrossLaw /\ CrossBasis /\ Ring
Laws == LawsG(Gr[s])
=============================================================================
