--------------------------------- MODULE IB ---------------------------------
(***************************************************************************)
(* Communication between an Eulerian grid and Lagrangian nodes (C19, C20). *)
(* A node sits at ((c_a + k_a/24) dx + shift) along axis a (x first), with *)
(* cell c_a and 0 <= k_a < 24.  Its support are the 4^d grid points with   *)
(* offsets -1..2 from c along every axis, numbered with x fastest.         *)
(* Weights are in units of 2^-20 / dx^d.                                   *)
(***************************************************************************)
EXTENDS Grid, Tables
Q20 == 1048576
Q16 == 65536
\* one dimensional kernels at distance r = k / 24 cells
Phi(type, k) == LET a == Abs(k) IN
   IF a >= 48 THEN 0
   ELSE IF type = "cosine" THEN (Q20 + CosQ[a + 1]) \div 4 ELSE PeskinQ[a + 1]
NSup(d) == IF d = 2 THEN 16 ELSE 64
\* offset of support point o along component c (1 = x)
Pow4(n) == CASE n = 0 -> 1 [] n = 1 -> 4 [] n = 2 -> 16 [] n = 3 -> 64
Off(o, c) == (((o - 1) \div Pow4(c - 1)) % 4) - 1
\* distance of the support point from the node in 24ths of a cell
Dist24(k, o, c) == 24 * Off(o, c) - k[c]
\* product of two 2^-20 numbers with magnitudes up to 2^10
MulQ20(x, y) ==
  LET s == IF (x < 0) = (y < 0) THEN 1 ELSE -1 a == Abs(x) b == Abs(y)
      ah == a \div 1024 al == a % 1024 bh == b \div 1024 bl == b % 1024
  IN s * (ah * bh + (ah * bl + al * bh + (al * bl) \div 1024 + 512) \div 1024)
RECURSIVE WeightFrom(_, _, _, _, _)
WeightFrom(type, d, k, o, c) == IF c > d THEN Q20
   ELSE MulQ20(Phi(type, Dist24(k, o, c)), WeightFrom(type, d, k, o, c + 1))
Weight(type, d, k, o) == WeightFrom(type, d, k, o, 1)
Weights(type, d, k) == TLCEval([o \in 1..NSup(d) |-> Weight(type, d, k, o)])
\* the same in units of 2^-(30+d) / dx^d (twice the kernel of an axis is at most one)
Q28 == 268435456
Q30 == 1073741824
Phi30(type, k) == LET a == Abs(k) IN IF a >= 48 THEN 0 ELSE IF type = "cosine" THEN KerC30[a + 1] ELSE KerP30[a + 1]
\* product of two 2^-30 numbers of magnitude up to 1, in limbs of 2^10
Mul30(x, y) ==
  LET s == IF (x < 0) = (y < 0) THEN 1 ELSE -1 a == Abs(x) b == Abs(y)
      a2 == a \div 1048576 a1 == (a \div 1024) % 1024 a0 == a % 1024
      b2 == b \div 1048576 b1 == (b \div 1024) % 1024 b0 == b % 1024
      t1 == (a0 * b0) \div 1024 + a0 * b1 + a1 * b0
      t2 == t1 \div 1024 + a0 * b2 + a1 * b1 + a2 * b0
  IN s * ((t2 + 512) \div 1024 + a1 * b2 + a2 * b1 + 1024 * (a2 * b2))
\* product of two 2^-28 numbers of magnitude up to 2
Mul28(x, y) ==
  LET s == IF (x < 0) = (y < 0) THEN 1 ELSE -1 a == Abs(x) b == Abs(y)
      ah == a \div 16384 al == a % 16384 bh == b \div 16384 bl == b % 16384
  IN s * (ah * bh + (ah * bl + al * bh + (al * bl) \div 16384 + 8192) \div 16384)
RECURSIVE FineFrom(_, _, _, _, _)
FineFrom(type, d, k, o, c) == IF c > d THEN Q30 ELSE Mul30(Phi30(type, Dist24(k, o, c)), FineFrom(type, d, k, o, c + 1))
Fine(type, d, k, o) == FineFrom(type, d, k, o, 1)
\* the grid cell of a support point of a node with base index b
RECURSIVE CellFrom(_, _, _, _)
CellFrom(G, b, o, c) == IF c > G.d THEN 1 ELSE (b[c] + Off(o, c)) * SC(G, c) + CellFrom(G, b, o, c + 1)
Cell(G, b, o) == CellFrom(G, b, o, 1)
Fits(G, b) == \A c \in 1..G.d : b[c] >= 1 /\ b[c] + 2 <= G.sh[G.d + 1 - c] - 1
\* value at a node: Mul is the product of a field value and a weight
Gather(G, e, b, w, Mul(_, _)) ==
  LET RECURSIVE S(_)
      S(o) == IF o > NSup(G.d) THEN 0 ELSE Mul(e[Cell(G, b, o)], w[o]) + S(o + 1)
  IN S(1)
\* accumulate node values f (one per node) onto e
Scatter(G, e, bs, ws, f, Mul(_, _)) ==
  LET RECURSIVE One(_, _, _)
      One(acc, n, o) == IF o > NSup(G.d) THEN acc
                        ELSE One([acc EXCEPT ![Cell(G, bs[n], o)] = @ + Mul(f[n], ws[n][o])], n, o + 1)
      RECURSIVE All(_, _)
      All(acc, n) == IF n > Len(bs) THEN acc ELSE All(TLCEval(One(acc, n, 1)), n + 1)
  IN All(e, 1)
Times(x, y) == x * y
=============================================================================
